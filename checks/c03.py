"""C03: the registry polynomial is exactly its registered circuits."""
from lib import build


def design(c):
    c.model("RegistryModel", constants={"MaxCircuits": 5 if c.quick else 7})


def conform(c):
    exe = build("circuits") + "/circuits"
    sc = c.path("scenarios.ndjson")
    c.generate("RegistryGen", sc, constants={"EmitLen": 2 if c.quick else 4})
    tr = c.path("trace.ndjson")
    c.harness(exe, ["--mode", "registry", "--scenarios", sc, "--out", tr, "--seed", c.seed, "--scale", 6 if c.quick else 60])
    c.count_ops(tr, "kind")
    c.validate("RegistryTrace", tr)
    if not c.quick:
        def corrupt(e, r):
            if e["kind"] == "keys":
                o = [x for x in e["out"]]
                i = r.randrange(1, len(o))
                same = o[i] == o[0]
                e["out"][i] = {"ok": "00"} if same else o[0]
                if sum(1 for x in e["out"] if x == e["out"][i]) > 2 or o[i] in e["out"]:
                    return None
                return e
            if e["kind"] != "registry":
                return None
            o = e["out"]["ok"]
            k = r.choice(["xy", "wx", "wy", "wxy", "counts", "omegas", "one"])
            if k == "xy":
                i = r.randrange(128)
                o[k][0][i] = (o[k][0][i] + 1) % 12289
            elif k in ("wx", "wy"):
                i = r.randrange(128)
                q = r.choice(o["ws"])
                q[k][0][i] = (q[k][0][i] + 1) % 12289
            elif k == "wxy":
                q = r.choice(o["ws"])
                q[k][0] = (q[k][0] + 1) % 12289
            elif k == "one":
                o[k]["xy"] = (o[k]["xy"] + 1) % 12289
            elif k == "counts":
                o[k][0][1] += 1
            else:
                o[k][-1] = (o[k][-1] + 1) % 12289
            return e
        c.reject_corrupted("RegistryTrace", tr, corrupt, n=10)


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "behaviour over F_12289 at rank 7 is representative of the generic code; keys are compared over Pasta Fp",
          "BLAKE2b has no collisions"]
