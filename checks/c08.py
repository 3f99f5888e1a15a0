"""C08: headers are encoded in a fixed length, padded, and closed by the suffix of their type."""
from lib import build


def design(c):
    c.model("HeaderModel", constants={} if c.quick else {"Values": "{0, 1, 2}"}, heap="16g")


def conform(c):
    exe = build("pcd", bins=["header"]) + "/header"
    sc = c.path("scenarios.ndjson")
    c.generate("HeaderGen", sc, constants={} if c.quick else {"Reps": "{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}"})
    out = c.path("trace")
    c.harness(exe, ["--scenarios", sc, "--out", out, "--seed", c.seed])
    c.validate("HeaderTrace", out, heap="12g")
    c.sample(out, k=3)
    c.count_ops(out, "kind")
    if not c.quick:
        def corrupt(e, r):
            how = r.choice(["gadget", "bare", "uniform", "runs"])
            if how not in e:
                return None
            x = r.choice(e[how])
            if "err" in x:
                return None
            v = x["ok"] if how != "runs" else x["ok"]["out"]
            v[r.randrange(len(v))] += 1
            return e
        c.reject_corrupted("HeaderTrace", out, corrupt, n=6)


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "header values below 2^31 are representative: the encoding moves words without computing on them"]
