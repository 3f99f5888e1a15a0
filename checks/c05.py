"""C05: what is made honestly verifies, carrying what its step computed."""
import json
from lib import Violation, build


def design(c):
    c.model("PcdModel", constants={} if c.quick else {"MaxItems": 5}, heap="12g")


def histories(c):
    exe = build("app") + "/app"
    sc = c.path("histories.ndjson")
    c.generate("PcdGen", sc, extra=["-seed", str(c.seed)],
               constants={} if c.quick else {"Shallow": 4, "Deep": 6, "Tall": 40})
    out = c.path("histories-trace.ndjson")
    c.harness(exe, ["--mode", "history", "--scenarios", sc, "--out", out, "--threads", 8, "--seed", c.seed], timeout=800)
    c.validate("PcdTrace", out)
    c.sample(out, k=2)
    ops = {}
    for l in open(out):
        for op in json.loads(l)["ops"]:
            ops[op["o"]] = ops.get(op["o"], 0) + 1
    c.notes["operations"] = ops
    rejected_revived(c, out)
    if not c.quick:
        c.reject_corrupted("PcdTrace", out, flip)


def rejected_revived(c, trace):
    """The recorded finding: rerandomizing what is rejected and carries nothing makes it accepted."""
    seen = 0
    for l in open(trace):
        e = json.loads(l)
        verdict, of, made = {}, {}, 0
        for op, out in zip(e["ops"], e["outs"]):
            if op["o"] in ("seed", "fuse", "rr"):
                if op["o"] == "rr":
                    of[made] = op["i"]
                made += 1
            elif op["o"] == "verify" and op["in"] == "same" and "verdict" in out and not any(op["add"]):
                verdict.setdefault(op["i"], {})[op["ty"]] = out["verdict"]
        for i, was in of.items():
            if verdict.get(was, {}).get("unit") is False and verdict.get(i, {}).get("unit") is True:
                seen += 1
    c.notes["rejected_units_revived_by_rerandomizing"] = seen
    if seen:
        c.report(Violation("rerandomizing a rejected item made an accepted one", {"key": "rr-unit"}))


def flip(e, rnd):
    at = [i for i, (op, o) in enumerate(zip(e["ops"], e["outs"])) if op["o"] == "verify" and "verdict" in o and o["verdict"]]
    if not at:
        return None
    # Something that carries data: its verdict is never open.
    at = [i for i in at if e["ops"][i]["add"]]
    if not at:
        return None
    i = rnd.choice(at)
    e["outs"][i]["verdict"] = False
    return e


PARTS = [design, histories]
ASSUME = ["TLC evaluates the specification correctly",
          "witnesses and data are small integers of Pasta's field",
          "the shims of ff, group, pasta_curves and blake2b_simd under /verif/shims compute what the crates they stand for do"]
