"""C04: staged witnesses combine into the full witness and cannot leave their slot."""
from lib import build


def design(c):
    c.model("StagedModel", constants={"N": 2, "P": 11, "TwoAdicity": 1, "Gen": 2} if c.quick else {})


def conform(c):
    exe = build("circuits") + "/circuits"
    sc = c.path("scenarios.ndjson")
    c.generate("StagedGen", sc, constants={} if c.quick else {"Sizes": "{0, 1, 2, 3, 4, 5}"})
    tr = c.path("trace.ndjson")
    c.harness(exe, ["--mode", "staged", "--scenarios", sc, "--out", tr, "--seed", c.seed, "--scale", 6 if c.quick else 60])
    c.validate("StagedTrace", tr)
    if not c.quick:
        def bump(l, r):
            i = r.randrange(len(l))
            l[i] = (l[i] + 1) % 12289

        def corrupt(e, r):
            k = r.choice(["rx", "mask", "final", "sum", "bond", "sy"])
            try:
                if k == "rx":
                    bump(r.choice(e["levels"])["rx"]["ok"], r)
                elif k == "mask":
                    bump(r.choice(e["levels"])["mask"]["ok"]["sx"], r)
                elif k == "bond":
                    bump(e["bond"]["ok"]["sy"], r)
                elif k == "sy":
                    bump(e["whole"]["ok"]["s"]["sy"], r)
                else:
                    bump(e["whole"]["ok"][k], r)
            except (KeyError, IndexError):
                return None
            return e
        c.reject_corrupted("StagedTrace", tr, corrupt, n=12)


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "behaviour over F_12289 at rank 7 is representative of the generic code",
          "chains of up to four stages; longer chains are compositions of the same code"]
