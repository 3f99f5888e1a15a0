"""C10: sparse polynomials behave exactly like their dense expansion."""
from lib import build


def design(c):
    c.model("PolyBlocks")
    if not c.quick:
        for k in ({"MaxBlocks": 4}, {"MaxBlocks": 4, "Gap": 0}, {"MaxBlocks": 4, "P": 2, "Gap": 2},
                  {"MaxBlocks": 1, "P": 2, "N": 2}):
            c.model("PolyBlocks", constants=k, heap="16g")


def conform(c):
    exe = build("circuits") + "/circuits"
    sc = c.path("scenarios.ndjson")
    c.generate("PolyGen", sc, constants={} if c.quick else {"Cells": 3, "Widths": "{5}"})
    for small in (False, True):
        tr = c.path("trace%d.ndjson" % small)
        c.harness(exe, ["--mode", "poly", "--out", tr, "--seed", c.seed, "--scale", 10 if c.quick else 60]
                  + (["--small", "1"] if small else ["--scenarios", sc]))
        c.validate("PolyTrace", tr, constants={"P": 79 if small else 12289}, heap="12g")
        if not c.quick:
            def corrupt(e, r):
                o = r.choice([o for o in e["ops"] if "ok" in o["out"]])
                v = o["out"]["ok"]
                m = 79 if small else 12289
                if isinstance(v, list):
                    if not v:
                        return None
                    i = r.randrange(len(v))
                    if isinstance(v[i], list):
                        v[i][r.randrange(2)] += 1
                    else:
                        v[i] = (v[i] + 1) % m
                else:
                    o["out"]["ok"] = (v + 1) % m
                return e
            c.reject_corrupted("PolyTrace", tr, corrupt, n=8, constants={"P": 79 if small else 12289})


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "behaviour over F_12289 and F_79 with 128 coefficients is representative of the generic code"]
