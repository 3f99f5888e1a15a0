"""C11: primitive gadgets compute their function and admit no other witness."""
from lib import build

FIELDS = ["13", "97", "79"]


def design(c):
    c.model("EndoLaw", constants={} if c.quick else {"Steps": 64})
    if not c.quick:
        c.model("EndoLaw", constants={"P": 79, "B": 3, "Zeta": 23, "Order": 97, "L": 61, "Steps": 64})
        c.model("EndoLaw", constants={"P": 13, "B": 7, "Zeta": 3, "Order": 7, "L": 2, "Steps": 64})


def conform(c):
    exe = build("gadgets") + "/gadgets"
    sc = c.path("scenarios.ndjson")
    c.generate("GadgetGen", sc, constants={} if c.quick else {"MaxFold": 4, "MaxPack": 15})
    for f in FIELDS[:2] if c.quick else FIELDS:
        out = c.path("trace" + f)
        c.harness(exe, ["--mode", "prims", "--field", f, "--scenarios", sc, "--out", out, "--seed", c.seed,
                        "--scale", 1 if c.quick else 3] + ([] if c.quick else ["--deep", "1"]))
        c.validate("GadgetNative", out + ".native", constants={"P": f})
        c.validate("GadgetTrace", out + ".runs", constants={"P": f}, heap="12g")
        c.adversary("GadgetAdv", out + ".sys", constants={"P": f}, heap="16g", timeout=600)
        c.sample(out + ".sys", k=1)
        if not c.quick:
            def corrupt(e, r):
                ok = [x for x in e["runs"] if x["ok"] and len(x["w"]) > 1]
                if not ok:
                    return None
                x = r.choice(ok)
                used = sorted({t[0] for q in e["claims"] for row in q["r"] for t in row} - {0})
                if not used:
                    return None
                i = r.choice(used)
                x["w"][i] = (x["w"][i] + 1) % int(f)
                return e
            c.reject_corrupted("GadgetTrace", out + ".runs", corrupt, n=6, constants={"P": f})
            weaken(c, out + ".sys", f)


def weaken(c, trace, f):
    """Vacuity guard: a system that lost a constraint its claims need must be refuted."""
    import json
    import random
    from lib import CheckError
    rnd = random.Random(c.seed)
    n = 0
    for line in rnd.sample(open(trace).read().splitlines(), 60):
        e = json.loads(line)
        if len(e["prog"]) != 2 or e["prog"][1]["o"] not in ("mul", "square", "is_zero", "invert", "pdouble", "not", "root"):
            continue
        if not e["cons"] or len(e["base"]) > 40 or e["prog"][0]["o"] in ("const", "one", "zero"):
            continue
        used = [i for q in e["plan"]["con"] for i in q]
        gone = max(used)        # the last constraint belongs to the gadget under test
        e["plan"]["con"] = [[i for i in q if i != gone] for q in e["plan"]["con"]]
        p = c.path("weak.ndjson")
        open(p, "w").write(json.dumps(e) + "\n")
        r = c.tlc("GadgetAdv", env={"TRACE": p}, count=False, constants={"P": f})
        if r.ok and e["prog"][1]["o"] not in ("not", "root"):
            raise CheckError("GadgetAdv missed a dropped constraint: %s" % json.dumps(e)[:2000])
        n += 0 if r.ok else 1
    c.notes["weakened_systems_refuted"] = c.notes.get("weakened_systems_refuted", 0) + n


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly",
          "the recording driver hands the gadgets the constraint-system semantics of C01 (a*b = c, c*d = 0, linear rows vanish)",
          "behaviour over F_13, F_79 and F_97 and curves of prime order over them is representative of the generic code"]
