"""C15: folding claims in-circuit and natively give the same verdict."""
from lib import build


def design(c):
    c.model("FoldModel")                                                       # complete, all challenges
    c.model("FoldModel", constants={"P": 7 if c.quick else 13, "Ns": "{}", "Ms": "{}", "Diffs": "{%s}" % ", ".join(map(str, range(7 if c.quick else 13)))})
    c.model("FoldModel", constants={"P": 31, "Ns": "{}", "Ms": "{}", "Size": 3, "Diffs": "{0, 1}" if c.quick else "{0, 1, 5}"})
    if not c.quick:
        c.model("FoldModel", constants={"P": 7, "Ns": "{1, 2, 3}", "Ms": "{2, 3}"})


def conform(c):
    exe = build("pcd", bins=["pcd"]) + "/pcd"
    sc = c.path("scenarios.ndjson")
    c.generate("FoldGen", sc, constants={} if c.quick else {"Every": 1})
    for f in ["13", "97"]:
        out = c.path("trace" + f)
        c.harness(exe, ["--mode", "fold", "--field", f, "--scenarios", sc, "--out", out, "--seed", c.seed])
        c.validate("FoldTrace", out + ".fold", constants={"P": f}, heap="16g")
        c.count_ops(out + ".fold", "kind")
        if not c.quick:
            def corrupt(e, r):
                if e["kind"] == "fold" and e["n"] * e["m"] > 3 and e["k"] > 1:
                    x = r.choice([e["inner"][0], e["e1"][0], e["e2"], e["outer"]])
                    if x:
                        i = r.randrange(len(x))
                        x[i] = (x[i] + 1) % int(f)
                        return e
            c.reject_corrupted("FoldTrace", out + ".fold", corrupt, n=6, constants={"P": f})
    out = c.path("trace7")
    c.harness(exe, ["--mode", "fold", "--field", "7", "--scenarios", sc, "--out", out, "--seed", c.seed])
    c.validate("GadgetTrace", out + ".runs", constants={"P": 7})
    c.adversary("GadgetAdv", out + ".sys", constants={"P": 7}, heap="16g")


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "the wiring polynomials a registry hands out are those of C03, inner products those of C10",
          "folding code is generic: behaviour over F_7, F_13 and F_97 and arrangements up to 12 claims is representative"]
