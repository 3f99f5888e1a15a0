"""C14: the arithmetic toolkit."""
from lib import build


def design(c):
    c.model("ArithAlgo", constants={} if c.quick else {"MaxRoots": 5, "MaxM": 60, "Vals": "{0, 1, 5, 13, 16}"})


def conform(c):
    exe = build("arith") + "/arith"
    sc = c.path("scenarios.ndjson")
    c.generate("ArithGen", sc)
    tr = c.path("trace.ndjson")
    c.harness(exe, ["--scenarios", sc, "--out", tr, "--seed", c.seed, "--scale", 1 if c.quick else 12])
    c.count_ops(tr)
    c.sample(tr)
    c.validate("ArithTrace", tr)
    # The build without the multicore feature is a different program.
    exe = build("arith", no_default=True, variant="-st") + "/arith"
    tr2 = c.path("trace-st.ndjson")
    c.harness(exe, ["--out", tr2, "--seed", c.seed + 1000, "--scale", 1 if c.quick else 6])
    c.validate("ArithTrace", tr2)
    if not c.quick:
        def corrupt(e, r):
            o = e["out"].get("ok")
            if isinstance(o, int) and not isinstance(o, bool):
                e["out"]["ok"] = (o + 1) % 97
                return e
            if isinstance(o, list) and o and all(isinstance(x, int) for x in o):
                o[r.randrange(len(o))] += 1
                return e
            return None
        c.reject_corrupted("ArithTrace", tr, corrupt)


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "behaviour on F_97 (2-adicity 5) and on 255-bit scalars is representative of the generic code"]
