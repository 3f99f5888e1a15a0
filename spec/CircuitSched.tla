---------------------------- MODULE CircuitSched ----------------------------
(* Witness generation with deferred routines. A routine whose output is predicted becomes a task   *)
(* of its own, run by any worker at any time; any other routine runs inside its caller. Finished   *)
(* tasks hand in the segments they produced, and the trace is the segments in the order of their   *)
(* call paths. Checked: whatever the schedule, the trace is the one Circuit.tla defines; every     *)
(* task hands in; and nothing is produced twice.                                                   *)
EXTENDS Circuit, TLC
CONSTANT Workers
\* Programs with routines in every position relative to each other.
K(v) == [x |-> "k", k |-> v]
Al(v) == [o |-> "alloc", v |-> <<K(v)>>]
Mu == [o |-> "mul", v |-> <<[x |-> "r", r |-> 1, k |-> 0], [x |-> "r", r |-> 1, k |-> 0], [x |-> "p", r |-> 1, s |-> 1, k |-> 0]>>]
Ca(p, b) == [o |-> "call", pred |-> p, ins |-> <<0, 0, 0>>, body |-> b, outs |-> <<0, 1, 2>>]
Progs ==
  << <<Al(1), Ca(TRUE, <<Al(2), Al(3), Al(4)>>), Al(5), Ca(FALSE, <<Al(6)>>), Al(7)>>,
     <<Al(1), Ca(TRUE, <<Al(2), Ca(TRUE, <<Al(3)>>), Al(4)>>), Ca(TRUE, <<Al(5)>>), Al(6)>>,
     <<Al(1), Ca(FALSE, <<Al(2), Ca(TRUE, <<Al(3), Mu>>), Al(4), Ca(TRUE, <<Al(8)>>)>>), Ca(TRUE, <<Al(5), Ca(FALSE, <<Al(9)>>), Al(10)>>), Al(6)>>,
     <<Ca(TRUE, <<Ca(FALSE, <<Ca(TRUE, <<Al(1)>>), Al(2)>>), Al(3)>>), Ca(TRUE, <<>>), Ca(FALSE, <<>>), Al(4)>>,
     <<Ca(TRUE, <<Al(1), Ca(TRUE, <<Al(2), Ca(TRUE, <<Al(3)>>)>>)>>), Ca(TRUE, <<Al(4)>>), Ca(TRUE, <<Al(5)>>)>> >>
VARIABLES tasks,    \* task -> [todo: stack of frames, segs]
          queue,    \* spawned, not started
          ready,    \* handed-in segments
          started,
          which     \* the program
vars == <<tasks, queue, ready, started, which>>
Prog == [body |-> Progs[which], outs |-> <<>>]
\* A frame: the ops left, the call path, the index of its segment in the task, routines called so far,
\* the stashed wire (gate index) and the value of registers (only values matter here).
Frame(ops, path, seg, regs) == [ops |-> ops, path |-> path, seg |-> seg, calls |-> 0, stash |-> <<>>, regs |-> regs]
Task(ops, path, regs) == [path |-> path, frames |-> <<Frame(ops, path, 1, regs)>>,
                          segs |-> <<[path |-> path, g |-> IF path = <<>> THEN <<<<0, 1, 0, 9>>>> ELSE <<>>]>>]
Idle == [path |-> <<-1>>, frames |-> <<>>, segs |-> <<>>]
SimpleRegs(vs) == [i \in 1 .. Len(vs) |-> [l |-> <<>>, v |-> vs[i]]]
PureCall(op, regs) == LET s == Exec([Start(9) EXCEPT !.regs = regs], op)
                      IN SubSeq(s.regs, Len(regs) + 1, Len(s.regs))
Init == /\ which \in 1 .. Len(Progs)
        /\ tasks = [w \in Workers |-> IF w = 1 THEN Task(Prog.body, <<>>, SimpleRegs(<<1>>)) ELSE Idle]
        /\ queue = {} /\ ready = {} /\ started = 1
\* One driver call of a worker's current frame.
Step(w) ==
  LET t == tasks[w]
      f == t.frames[Len(t.frames)]
      op == Head(f.ops)
      rest == [f EXCEPT !.ops = Tail(f.ops)]
      put(fr) == [t.frames EXCEPT ![Len(t.frames)] = fr]
      v(i) == WitVal(op.v[i], f.regs)
  IN /\ t.frames # <<>> /\ f.ops # <<>>
     /\ CASE op.o = "alloc" /\ f.stash # <<>> ->
               /\ tasks' = [tasks EXCEPT ![w] = [t EXCEPT !.frames = put([rest EXCEPT !.stash = <<>>, !.regs = Append(@, [l |-> <<>>, v |-> v(1)])]),
                                                          !.segs[f.seg].g[f.stash[1]][4] = v(1)]]
               /\ UNCHANGED <<queue, started>>
          [] op.o = "alloc" /\ f.stash = <<>> ->
               /\ tasks' = [tasks EXCEPT ![w] = [t EXCEPT !.frames = put([rest EXCEPT !.stash = <<Len(t.segs[f.seg].g) + 1>>, !.regs = Append(@, [l |-> <<>>, v |-> v(1)])]),
                                                          !.segs[f.seg].g = Append(@, <<0, v(1), 0, 0>>)]]
               /\ UNCHANGED <<queue, started>>
          [] op.o = "mul" ->
               /\ tasks' = [tasks EXCEPT ![w] = [t EXCEPT !.frames = put([rest EXCEPT !.regs = @ \o SimpleRegs(<<v(1), v(2), v(3)>>)]),
                                                          !.segs[f.seg].g = Append(@, <<v(1), v(2), v(3), 0>>)]]
               /\ UNCHANGED <<queue, started>>
          [] op.o = "call" /\ op.pred ->
               /\ tasks' = [tasks EXCEPT ![w] = [t EXCEPT !.frames = put([rest EXCEPT !.calls = @ + 1, !.regs = @ \o PureCall(op, f.regs)])]]
               /\ queue' = queue \cup {Task(op.body, Append(f.path, f.calls), <<f.regs[1]>> \o [i \in 1 .. 3 |-> f.regs[op.ins[i] + 1]])}
               /\ started' = started + 1
          [] op.o = "call" /\ ~op.pred ->
               /\ tasks' = [tasks EXCEPT ![w] = [t EXCEPT
                     !.frames = Append(put([rest EXCEPT !.calls = @ + 1]),
                                       [Frame(op.body, Append(f.path, f.calls), Len(t.segs) + 1, <<f.regs[1]>> \o [i \in 1 .. 3 |-> f.regs[op.ins[i] + 1]])
                                          EXCEPT !.ops = op.body \o <<[o |-> "ret", outs |-> op.outs]>>]),
                     !.segs = Append(@, [path |-> Append(f.path, f.calls), g |-> <<>>])]]
               /\ UNCHANGED <<queue, started>>
          [] op.o = "ret" ->
               /\ tasks' = [tasks EXCEPT ![w].frames =
                     [SubSeq(t.frames, 1, Len(t.frames) - 1) EXCEPT ![Len(t.frames) - 1].regs = @ \o [i \in 1 .. 3 |-> f.regs[op.outs[i] + 1]]]]
               /\ UNCHANGED <<queue, started>>
     /\ UNCHANGED ready
HandIn(w) ==
  /\ tasks[w].frames # <<>> /\ Len(tasks[w].frames) = 1 /\ tasks[w].frames[1].ops = <<>>
  /\ ready' = ready \cup {<<tasks[w].path, tasks[w].segs>>}
  /\ tasks' = [tasks EXCEPT ![w] = Idle]
  /\ UNCHANGED <<queue, started>>
PickUp(w) ==
  /\ tasks[w] = Idle
  /\ \E t \in queue : tasks' = [tasks EXCEPT ![w] = t] /\ queue' = queue \ {t}
  /\ UNCHANGED <<ready, started>>
Next == which' = which /\ \E w \in Workers : Step(w) \/ HandIn(w) \/ PickUp(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

PathLess(a, b) == \/ \E k \in 1 .. Len(b) : k <= Len(a) /\ (\A j \in 1 .. k - 1 : a[j] = b[j]) /\ a[k] < b[k]
                  \/ Len(a) < Len(b) /\ \A j \in 1 .. Len(a) : a[j] = b[j]
Complete == queue = {} /\ \A w \in Workers : tasks[w] = Idle
AllSegs == UNION {Range(r[2]) : r \in ready}
Trace == LET s == SetToSortSeq(AllSegs, LAMBDA x, y : PathLess(x.path, y.path)) IN [i \in 1 .. Len(s) |-> s[i].g]
Expected == LET e == Elab(Prog, 9) IN [i \in 1 .. Len(e.segs) |-> e.segs[i].g]
SameTrace == Complete => Trace = Expected
HandedIn == Complete => Cardinality(ready) = started
Unique == \A r, q \in ready : r[1] = q[1] => r = q
Finishes == <>Complete
=============================================================================
