"""C01: a circuit is provable exactly when its constraints are satisfied."""
from lib import build


def design(c):
    c.model("CircuitModel", constants={} if c.quick else {"MaxOps": 4})


def prog_conform(c, focus, deep=False):
    exe = build("circuits") + "/circuits"
    sc = c.path("scenarios.ndjson")
    c.generate("CircuitGen", sc, constants={"EmitOps": 1} if deep else {} if c.quick else {"EmitOps": 4})
    extra = ["--scenarios", sc] + (["--deep", 1] if deep else [])
    tr = c.path("trace.ndjson")
    c.harness(exe, ["--mode", "prog", "--out", tr, "--seed", c.seed, "--scale", 8 if c.quick else 120] + extra)
    c.sample(tr, k=1)
    c.validate("CircuitTrace", tr)
    exe = build("circuits", no_default=True, variant="-st") + "/circuits"
    tr2 = c.path("trace-st.ndjson")
    c.harness(exe, ["--mode", "prog", "--out", tr2, "--seed", c.seed + 500, "--scale", 4 if c.quick else 60] + extra)
    c.validate("CircuitTrace", tr2)
    if not c.quick:
        def corrupt(e, r):
            o = e["out"].get("ok")
            if not o:
                return None
            k = r.choice(["sx", "sy", "traces", "id", "counts", "sxy", "ky", "wired", "wireless", "closures"])
            if k in ("sx", "sy"):
                i = r.randrange(128)
                o[k][i] = (o[k][i] + 1) % 12289
            elif k == "traces":
                i = r.randrange(128)
                o[k][0]["ok"][i] = (o[k][0]["ok"][i] + 1) % 12289
            elif k in ("counts", "sxy"):
                o[k][r.randrange(2)] += 1
            elif k == "ky":
                o[k]["ok"] = (o[k]["ok"] + 1) % 12289
            elif k == "wired":
                o[k]["ok"][r.randrange(2)][-1] += 1
            elif k == "wireless":
                o[k]["ok"][-1] += 1
            else:
                o[k] += 1
            return e
        c.reject_corrupted("CircuitTrace", tr, corrupt, n=12)


def conform(c):
    prog_conform(c, "C01")


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "behaviour over F_12289 at rank 7 (32 gates, 127 constraints) is representative of the generic code"]
