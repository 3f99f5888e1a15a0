"""C13: derived gadgets."""
import json
from lib import CheckError, VERIF, Violation, build
import shapes_rs


def design(c):
    c.model("ShapesModel", constants={} if c.quick else {"Deep": "TRUE"}, timeout=800)


def conform(c):
    sc = c.path("scenarios.ndjson")
    c.generate("ShapesGen", sc, constants={"Seed": c.seed, "Triples": 12 if c.quick else 300, "Long": 12 if c.quick else 300,
                                            "Trees": 16 if c.quick else 500, "Widest": 33 if c.quick else 100})
    src = c.path("shapes.rs")
    with open(src, "w") as fh:
        fh.write(shapes_rs.render([json.loads(l) for l in open(sc)], c.seed))
    try:
        exe = build("shapes", vars={"SHAPES_RS": src}) + "/shapes"
    except CheckError as e:
        # Definitions that compile on the unchanged tree must go on compiling. If the harness does
        # not even build without them, the reason lies elsewhere.
        build("shapes", vars={"SHAPES_RS": VERIF + "/harness/shapes/src/none.rs"})
        raise Violation("valid gadget definitions are no longer accepted", {"definitions": src, "compiler": str(e)[-6000:]})
    tr = c.path("trace.ndjson")
    c.harness(exe, ["--scenarios", sc, "--out", tr])
    c.sample(tr)
    c.validate("ShapesTrace", tr)
    c.notes["definitions_compiled"] = sum(1 for _ in open(tr))
    if not c.quick:
        def corrupt(e, r):
            o = e["obs"]
            k = r.choice(["map", "eq", "write", "check", "gone", "demote", "wired", "clone"])
            if k in ("eq", "write", "check"):
                if k not in o or not o[k][0]["log"]:
                    return None
                r.choice([x for x in o[k] if x["log"]])["log"].pop()
            elif k in ("wired", "clone"):
                if len(o[k]) < 2:
                    return None
                o[k][0], o[k][1] = o[k][1], o[k][0]
            elif k == "demote":
                o[k]["wires"] += 1
            else:
                if len(o[k]["log"]) < 2:
                    return None
                o[k]["log"].reverse()
            return e
        c.reject_corrupted("ShapesTrace", tr, corrupt)


PARTS = [design, conform]
ASSUME = ["TLC evaluates the specification correctly", "rustc compiles the generated definitions as written"]
TECHNIQUE = ("TLA+ specification of composite gadgets and their traversal, model-checked with TLC; definitions enumerated by TLC are "
             "compiled against the real derive macros, every derived operation is recorded and judged by the specification")
