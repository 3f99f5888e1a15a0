"""C06: nothing altered is accepted, by the verifier or by the next step."""
import itertools, json
from lib import Violation, build


def design(c):
    c.model("ProofModel", constants={} if c.quick else {"Size": 3}, heap="12g", timeout=800)
    c.model("NestModel", constants={} if c.quick else {"Most": 3}, heap="12g", timeout=400)
    c.model("CraftModel", constants={} if c.quick else {"Q": 5}, heap="8g", timeout=400)


def nested(c):
    """Strays on the polynomials over the other curve's field."""
    exe = build("app") + "/app"
    sc, out = c.path("nest-scenarios.ndjson"), c.path("nest.ndjson")
    c.generate("NestGen", sc, extra=["-seed", str(c.seed)], constants={} if c.quick else {"Turns": 1})
    c.harness(exe, ["--mode", "nest", "--scenarios", sc, "--out", out, "--threads", 8, "--seed", c.seed], timeout=400)
    c.validate("NestTrace", out)
    c.count_ops(out, "kind")


def crafted(c):
    """Proofs that fit at a point known beforehand."""
    exe = build("app") + "/app"
    sc, out = c.path("craft-scenarios.ndjson"), c.path("craft.ndjson")
    c.generate("CraftGen", sc, extra=["-seed", str(c.seed)], constants={} if c.quick else {"Points": 8, "Shown": 200})
    c.harness(exe, ["--mode", "craft", "--scenarios", sc, "--out", out, "--threads", 8, "--seed", c.seed], timeout=600)
    c.validate("CraftTrace", out)
    c.count_ops(out, "what")
    ev = [json.loads(l) for l in open(out)]
    c.notes["crafted_proofs_off_elsewhere"] = sum(1 for e in ev if e["out"].get("broken"))


def altered(c):
    exe = build("app") + "/app"
    sc = c.path("scenarios.ndjson")
    c.generate("ProofGen", sc, extra=["-seed", str(c.seed)],
               constants={} if c.quick else {"Hows": 4, "FuseHows": 3, "Mixtures": 300, "Fits": 2})
    out = c.path("trace.ndjson")
    c.harness(exe, ["--mode", "tamper", "--scenarios", sc, "--out", out, "--threads", 8, "--seed", c.seed], timeout=800)
    c.validate("ProofTrace", out)
    c.count_ops(out, "then")
    c.sample(out, k=3)
    holes(c, out)


OWN = {"application.circuit_id", "application.rx", "application.commitment", "data", "application.left_header", "application.right_header"}
HEADERS = {"application.left_header", "application.right_header"}


def reproven(e):
    """As Reproven in Proof.tla: other traces of circuits."""
    ch = set(e["changed"]) if e["how"] == "idle" else set()
    got = {x for x in ch if x.startswith("p.nested.step.")}
    for x in ("application", "circuits.hashes_1", "circuits.hashes_2", "circuits.inner_collapse", "circuits.outer_collapse", "circuits.compute_v"):
        if {x + ".rx", x + ".commitment"} <= ch:
            got |= {x + ".rx", x + ".commitment"}
    return got


def whole(e, every):
    """As WholeOn in Proof.tla: one proof throughout, or a step's own part with another proof's rest."""
    changed, same = set(e["changed"]), set(e["same"])
    if e["how"] != "swap" or e["recommit"]:
        return not (changed - reproven(e)) & every

    def one(s):
        return any(all((x in changed) == b for x in (s & every) - same) for b in (False, True))
    return one(OWN) and one((every - OWN) | HEADERS)


SPARE = ["s_prime.registry_wx0", "s_prime.registry_wx1", "inner_error.registry_wy", "f.poly"]


def loose(then, every):
    """Proof.tla's Loose, by the name under which it is recorded."""
    g = {then + " " + x: {x + ".rx", x + ".commitment"} for x in SPARE}
    g[then + " ab"] = {"ab.a.rx", "ab.a.commitment", "ab.b.rx", "ab.b.commitment"}
    g[then + " p.nested"] = {x for x in every if x.startswith("p.nested.")}
    if then == "fuse":
        g["fuse bridges"] = {x for x in every if x.endswith(".bridge.rx")}
    return g


def holes(c, trace):
    """Alterations that the code is known to let pass, where it did."""
    lines = [json.loads(l) for l in open(trace)]
    every = set(lines[0]["names"]) | {"data"}
    seen = {}
    for e in lines[1:]:
        if e["out"].get("verdict") and not whole(e, every):
            g = loose("verify" if e["then"] == "verify" else "fuse", every)
            for k in range(1, len(g) + 1):
                fit = [t for t in itertools.combinations(sorted(g), k) if whole(e, every - set().union(*[g[x] for x in t]))]
                if fit:
                    for x in fit[0]:
                        seen.setdefault(x, e)
                    break
            else:
                seen.setdefault("other", e)
    for key, e in sorted(seen.items()):
        c.report(Violation("an altered proof was accepted", {"key": key, "event": e}))
    c.notes["known_holes_seen"] = sorted(seen)


PARTS = [design, nested, crafted, altered]
ASSUME = ["TLC evaluates the specification correctly",
          "an alteration is one of: exchanged with another valid proof's, doubled, zeroed, one coefficient changed",
          "the shims of ff, group, pasta_curves and blake2b_simd under /verif/shims compute what the crates they stand for do"]
