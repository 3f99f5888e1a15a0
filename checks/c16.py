"""C16: the circuits of recursion and the verifier see every departure from the protocol."""
import json
from lib import Violation, build

BIG = {"Most": 2}


def design(c):
    c.model("ForgeModel", constants={} if c.quick else BIG, heap="12g", timeout=800)


def forged(c, constants=None):
    exe = build("forge") + "/forge"
    sc = c.path("scenarios.ndjson")
    c.generate("ForgeGen", sc, extra=["-seed", str(c.seed)],
               constants=constants or ({} if c.quick else {"Forgings": 900, "Doubles": 600, "Alters": 2000, "Pairs": 2500, "Heirs": 200, "Boths": 12, "Movings": 30}))
    names, out = c.path("names.ndjson"), c.path("trace.ndjson")
    c.harness(exe, ["--mode", "names", "--out", names, "--seed", c.seed])
    c.harness(exe, ["--scenarios", sc, "--out", out, "--threads", 8, "--seed", c.seed], timeout=800)
    with open(out, "a") as f:
        f.write(open(names).read())
    c.validate("ForgeTrace", out)
    c.count_ops(out, "kind")
    c.sample(out, k=3)
    holes(c, out)


def holes(c, trace):
    """What the code is known to let pass, where it did."""
    for l in open(trace):
        e = json.loads(l)
        if e["kind"] == "forge" and e["out"].get("verdict") and any(a["how"] == "vanish" for a in e["alter"]):
            c.report(Violation("a proof with another polynomial than its parts sum up to was accepted", {"key": "p.poly", "event": e}))
            return


PARTS = [design, forged]
ASSUME = ["TLC evaluates the specification correctly",
          "values forged in the course of a proof are in general position, and no two forgings cancel out; after the fact, values are exchanged and moved apart as well",
          "the shims of ff, group, pasta_curves and blake2b_simd under /verif/shims compute what the crates they stand for do"]
