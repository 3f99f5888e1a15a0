"""Shared machinery of the checks: building a harness layer against /repo's working tree, running
TLC, running a harness, reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
TOOLCHAIN = "+1.90.0"


class CheckError(Exception):
    """The check itself could not give an answer (exit 2)."""


class Violation(Exception):
    def __init__(self, what, detail):
        self.what, self.detail = what, detail


def log(*a):
    print("[%s]" % time.strftime("%H:%M:%S"), *a, file=sys.stderr, flush=True)


def _tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, dn, fn in os.walk(root):
                dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


def build(layer, bins=None, features=None, no_default=False, variant="", rustflags="", vars=None):
    """Builds /verif/harness/<layer> and returns the directory holding its binaries."""
    crate = os.path.join(VERIF, "harness", layer)
    target = os.path.join(VERIF, "target", layer + variant)
    os.makedirs(target, exist_ok=True)
    key = _tree_hash([REPO + "/crates", REPO + "/Cargo.toml", VERIF + "/shims", VERIF + "/harness/vh", VERIF + "/harness/gadgets/src/rec.rs",
                      crate] + [v for v in (vars or {}).values() if os.path.exists(v)]) + repr((features, no_default, rustflags))
    stamp = os.path.join(target, ".stamp")
    old = open(stamp).read() if os.path.exists(stamp) else ""
    if old != key:
        # Never trust modification times: forget every crate that is not from the registry.
        fp = os.path.join(target, "release", ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r"(ragu_|vh-|ff-|group-|pasta_curves-|blake2b_simd-|%s-)" % layer, d):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true",
               RUSTFLAGS=("--cfg ragu_verif -Awarnings " + rustflags).strip(), CARGO_INCREMENTAL="0")
    env.update(vars or {})
    cmd = ["cargo", TOOLCHAIN, "build", "--release", "--offline", "--quiet"]
    for b in bins or ():
        cmd += ["--bin", b]
    if no_default:
        cmd.append("--no-default-features")
    if features:
        cmd += ["--features", ",".join(features)]
    t = time.time()
    p = subprocess.run(cmd, cwd=crate, env=env, capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError("harness layer %s does not build:\n%s" % (layer + variant, p.stderr if len(p.stderr) < 9000 else p.stderr[:4000] + "\n...\n" + p.stderr[-4000:]))
    with open(stamp, "w") as fh:
        fh.write(key)
    log("built %s%s in %.1fs" % (layer, variant, time.time() - t))
    return os.path.join(target, "release")


class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.generated = int(m.group(1)) if m else 0
        self.distinct = int(m.group(2)) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m.group(1)) if m else 0
        self.ok = "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"(?:Invariant|Action property|Property|Temporal properties?) ?(\S*) ?(?:is|was|were) violated", out)

    def tail(self, n=60):
        keep = [l for l in self.out.splitlines()
                if not re.match(r"(Parsing|Semantic|Linting|Computed|Starting|TLC2|Warning|Running|@!@)", l)]
        return "\n".join(keep[-n:])


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier == "quick"
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.notes = {}
        self.assumptions = []
        self.violations = []
        self.known_hits = []

    # ------------------------------------------------------------------ running things
    def path(self, name):
        return os.path.join(self.work, name)

    def tlc(self, module, cfg=None, env=None, workers=8, heap="8g", timeout=600, extra=(), count=True,
            must_pass=False, constants=None):
        cfgp = os.path.join(VERIF, "spec", cfg or module + ".cfg")
        if constants:
            s = open(cfgp).read()
            for k, v in constants.items():
                s, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), s)
                if n != 1:
                    raise CheckError("constant %s not in %s" % (k, cfgp))
            cfgp = self.path("%s-%d.cfg" % (module, len(os.listdir(self.work))))
            open(cfgp, "w").write(s)
        meta = self.path("tlc-%s-%d" % (module, len(os.listdir(self.work))))
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers), "-config", cfgp] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=os.path.join(VERIF, "spec"), env=e, capture_output=True, text=True,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC %s did not finish in %ds" % (module, timeout))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = Tlc(p.stdout + p.stderr, p.returncode)
        log("tlc %s %s: %d generated, %d distinct, depth %d, %.1fs%s" % (
            module, cfg or "", r.generated, r.distinct, r.depth, time.time() - t, "" if r.ok else "  NOT OK"))
        if count:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += max(r.generated, 0)
        if must_pass and not r.ok:
            raise CheckError("TLC %s: the specification itself failed:\n%s" % (module, r.tail()))
        return r

    def model(self, module, cfg=None, **kw):
        """Model-checks the specification (independent of the code)."""
        r = self.tlc(module, cfg, must_pass=True, **kw)
        self.notes.setdefault("model_runs", []).append(
            {"module": cfg or module, "distinct_states": r.distinct, "generated": r.generated, "depth": r.depth})
        return r

    def generate(self, module, out, cfg=None, env=None, **kw):
        """Runs a module that writes scenarios to IOEnv.OUT."""
        e = {"OUT": out}
        e.update(env or {})
        self.tlc(module, cfg, env=e, must_pass=True, **kw)
        n = sum(1 for _ in open(out))
        if n == 0:
            raise CheckError("%s generated no scenarios" % module)
        self.notes.setdefault("scenarios_from_spec", {})[cfg or module] = n
        return n

    def harness(self, exe, args, timeout=600, env=None):
        e = dict(os.environ, RUST_BACKTRACE="0")
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise Violation("the code under test did not finish within %ds" % timeout,
                            {"command": [exe] + [str(a) for a in args]})
        log("%s: rc %d, %.1fs %s" % (os.path.basename(exe), p.returncode, time.time() - t, p.stderr.strip()[-200:]))
        if p.returncode != 0:
            raise Violation("the code under test stopped the process (exit status %d)" % p.returncode,
                            {"command": [exe] + [str(a) for a in args], "stderr": p.stderr[-3000:]})
        return p

    def validate(self, module, trace, cfg=None, per_line=True, workers=8, traces=None, describe=None, **kw):
        """Checks a recorded trace file against a trace specification.

        The module has invariant Ok over a variable `c` whose last number is the line under check, or
        (linear traces) a variable `l`. A rejected line becomes a violation."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise CheckError("empty trace " + trace)
        env = {"TRACE": trace}
        env.update(kw.pop("env", {}) or {})
        r = self.tlc(module, cfg, env=env, workers=workers, **kw)
        if r.ok and r.distinct >= n:
            self.cov["traces_validated_against_impl"] += traces if traces is not None else n
            return r
        if r.ok:
            raise CheckError("%s visited %d states for %d recorded lines" % (module, r.distinct, n))
        at = None
        for m in re.finditer(r"(?m)^(?:/\\ )?(?:c|l) = (?:<<.*?(\d+)\s*>>|(\d+))", r.out):
            at = int(m.group(1) or m.group(2))
        if at is None or at < 1 or at > n:
            raise CheckError("%s failed without naming a line:\n%s" % (module, r.tail()))
        lines = open(trace).read().splitlines()
        ev = json.loads(lines[at - 1])
        raise Violation("recorded behaviour of the code is not a behaviour of the specification (%s)" % module,
                        {"line": at, "event": ev, "tlc": r.tail(40) if len(json.dumps(ev)) < 100000 else "",
                         "violated": r.violated})

    def adversary(self, module, trace, cfg=None, **kw):
        """Explores a state machine built from recorded systems (variable `sys` numbers them)."""
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise CheckError("empty trace " + trace)
        r = self.tlc(module, cfg, env={"TRACE": trace}, **kw)
        if r.ok:
            self.notes["recorded_systems_searched"] = self.notes.get("recorded_systems_searched", 0) + n
            return r
        at = re.findall(r"(?m)^/\\ sys = (\d+)", r.out)
        if not at or not r.violated:
            raise CheckError("%s failed without naming a system:\n%s" % (module, r.tail()))
        ev = json.loads(open(trace).read().splitlines()[int(at[-1]) - 1])
        ev.pop("plan", None)
        raise Violation("a wrong result satisfies the recorded constraints (%s)" % module,
                        {"system": ev, "tlc": r.tail(60)[-6000:]})

    def sample(self, trace, k=3, limit=900):
        lines = open(trace).read().splitlines()
        step = max(1, len(lines) // k)
        for i in range(0, len(lines), step):
            s = lines[(i + self.seed * 7) % len(lines)]
            self.cov["samples"].append(json.loads(s) if len(s) < limit else s[:limit] + "...")
            if len(self.cov["samples"]) >= 6:
                break

    def count_ops(self, trace, key="op"):
        d = {}
        for l in open(trace):
            k = str(json.loads(l).get(key))
            d[k] = d.get(k, 0) + 1
        self.notes.setdefault("events_by_kind", {})
        for k, v in d.items():
            self.notes["events_by_kind"][k] = self.notes["events_by_kind"].get(k, 0) + v

    def reject_corrupted(self, module, trace, corrupt, cfg=None, n=6, lines=400, **kw):
        """Vacuity guard: a recorded line whose observation is altered must be rejected."""
        src = open(trace).read().splitlines()
        import random
        rnd = random.Random(self.seed)
        done = 0
        for i in rnd.sample(range(len(src)), min(len(src), 40 * n)):
            ev = corrupt(json.loads(src[i]), rnd)
            if ev is None:
                continue
            p = self.path("corrupt.ndjson")
            open(p, "w").write(json.dumps(ev) + "\n")
            r = self.tlc(module, cfg, env={"TRACE": p}, workers=1, count=False, **kw)
            if r.ok:
                raise CheckError("%s accepted an altered observation: %s" % (module, json.dumps(ev)[:2000]))
            if not r.violated:
                raise CheckError("%s could not judge an altered observation:\n%s" % (module, r.tail()))
            done += 1
            if done >= n:
                break
        self.notes["altered_observations_rejected"] = self.notes.get("altered_observations_rejected", 0) + done

    # ------------------------------------------------------------------ reporting
    def finish(self):
        self.cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)

    def report(self, v):
        known = load_known()
        k = match_known(known, self.prop, v)
        if k:
            if k["text"] not in self.known_hits:
                self.known_hits.append(k["text"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]), flush=True)
            return False
        i = len(self.violations)
        p = self.path("violation-%d.json" % i)
        with open(p, "w") as fh:
            json.dump({"property": self.prop, "what": v.what, "detail": v.detail}, fh, indent=1)
        self.violations.append(p)
        log("VIOLATION:", v.what, json.dumps(v.detail)[:1500])
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        return True


def load_known():
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def match_known(known, prop, v):
    for k in known:
        if k["property"] == prop and k["match"] and k["match"] == v.detail.get("key"):
            return k
    return None


def main(checks):
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    rc = 0
    try:
        for part in checks[prop]:
            try:
                part(c)
            except Violation as v:
                if c.report(v):
                    rc = 1
                    break
        if c.violations:
            rc = 1
        c.finish()
    except CheckError as e:
        log("CHECK ERROR:", e)
        c.finish()
        rc = 2
    log("%s %s: exit %d after %.1fs" % (prop, tier, rc, time.time() - c.t0))
    sys.exit(rc)
