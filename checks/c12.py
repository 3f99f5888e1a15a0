"""C12: witness availability."""
from lib import build


def design(c):
    c.model("MaybeModel", constants={} if c.quick else {"MaxLen": 6})


def conform(c):
    exe = build("maybe") + "/maybe"
    sc = c.path("scenarios.ndjson")
    c.generate("MaybeGen", sc)
    tr = c.path("trace.ndjson")
    c.harness(exe, ["--scenarios", sc, "--out", tr, "--seed", c.seed, "--random", 600 if c.quick else 20000])
    c.count_ops(tr, "kind")
    c.sample(tr)
    c.validate("MaybeTrace", tr)
    if not c.quick:
        def corrupt(e, r):
            if e["kind"] != "prog" or not e["obs"]:
                return None
            o = e["obs"][r.randrange(len(e["obs"]))]
            k = r.choice(["n", "live", "err", "regs", "log"])
            if k == "regs":
                if not o["regs"]:
                    return None
                o["regs"][0] += 1
            elif k == "log":
                o["log"].append({"f": "map", "v": 1})
            else:
                o[k] += 1
            return e
        c.reject_corrupted("MaybeTrace", tr, corrupt)


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly"]
