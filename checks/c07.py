"""C07: registration accepts exactly the well-formed applications and circuits."""
from lib import build


def design(c):
    c.model("StepsModel", heap="16g", constants={} if c.quick else {"MaxSteps": 3, "Indices": "{0, 1, 2}"}, timeout=850)


def steps(c):
    exe = build("pcd", bins=["steps"]) + "/steps"
    sc = c.path("scenarios.ndjson")
    c.generate("StepsGen", sc, extra=["-seed", str(c.seed)],
               constants={} if c.quick else {"Pairs": 15000, "Longer": 5000, "Finish": 150, "Sizes": "{1, 2, 3, 6, 7, 8, 9, 10, 38, 39, 40, 41, 42, 49}"})
    out = c.path("trace")
    c.harness(exe, ["--scenarios", sc, "--out", out, "--seed", c.seed])
    c.validate("StepsTrace", out, heap="12g")
    c.sample(out, k=3)
    c.count_ops(out, "kind")


def capacity(c):
    exe = build("circuits") + "/circuits"
    sc = c.path("cap.ndjson")
    c.generate("CapGen", sc, constants={"Around": 1 if c.quick else 4})
    tr = c.path("cap-trace.ndjson")
    c.harness(exe, ["--mode", "prog", "--scenarios", sc, "--out", tr, "--seed", c.seed, "--scale", 0])
    c.validate("CircuitTrace", tr)
    reg = c.path("registry.ndjson")
    c.generate("RegistryGen", sc, constants={"EmitLen": 1})
    c.harness(exe, ["--mode", "registry", "--scenarios", sc, "--out", reg, "--seed", c.seed, "--scale", 1])
    c.validate("RegistryTrace", reg)


PARTS = [design, steps, capacity]
ASSUME = ["TLC evaluates the specification correctly",
          "a step's circuit is identified by its wiring polynomial at a random point of Pasta's field"]
