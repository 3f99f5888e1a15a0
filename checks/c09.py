"""C09: the transcript is a deterministic sponge over everything absorbed, in order."""
from lib import build


def design(c):
    c.model("SpongeModel", constants={} if c.quick else {"Depth": 9, "Rates": "{1, 2, 3, 4}"}, heap="16g")


def conform(c):
    exe = build("pcd", bins=["pcd"]) + "/pcd"
    sc = c.path("scenarios.ndjson")
    c.generate("SpongeGen", sc, constants={} if c.quick else {"Depth": 6, "Depth2": 6, "Sample": 300},
               extra=["-seed", str(c.seed)])
    for f in ["13", "12289"] if c.quick else ["13", "97", "12289"]:
        out = c.path("trace" + f)
        c.harness(exe, ["--mode", "sponge", "--field", f, "--scenarios", sc, "--out", out, "--seed", c.seed])
        c.validate("SpongeTrace", out + ".hist", constants={"P": f}, heap="12g")
        c.sample(out + ".hist", k=2)
        if f == "13":
            c.validate("GadgetTrace", out + ".runs", constants={"P": f}, heap="12g")
            c.adversary("GadgetAdv", out + ".sys", constants={"P": f}, heap="16g")
        if not c.quick:
            def corrupt(e, r):
                at = [i for i, x in enumerate(e["res"]) if x["v"]]
                if not at:
                    return None
                x = e["res"][r.choice(at)]["v"]
                i = r.randrange(len(x))
                x[i] = (x[i] + 1) % int(f)
                return e
            c.reject_corrupted("SpongeTrace", out + ".hist", corrupt, n=5, constants={"P": f})
    out = c.path("pasta")
    c.harness(exe, ["--mode", "sponge", "--field", "pasta", "--scenarios", sc, "--out", out, "--seed", c.seed,
                    "--scale", 1 if c.quick else 3])
    c.validate("SpongeSym", out + ".sym", heap="12g")


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "with the real parameters the permutation does not collide on the recorded histories",
          "the sponge's code is generic: its behaviour over small fields with other widths, rates and round numbers is representative"]
