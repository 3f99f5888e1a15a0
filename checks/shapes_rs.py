"""Turns the struct definitions chosen by spec/ShapesGen.tla into Rust source that derives them."""
import json, random



class Emit:
    def __init__(self, seed):
        self.rnd = random.Random(seed)
        self.out, self.ids, self.n = [], {}, 0

    def leaf(self, name, lt, dr):
        return "%s<%s, %s>" % (name, lt, dr)

    def ty(self, t, lt, dr, sub=None):
        """The Rust type of a shape for a driver; `sub` replaces chosen parts by parameters."""
        if sub and id(t) in sub:
            return sub[id(t)]
        k = t["k"]
        if k in ("elem", "bool", "probe"):
            return self.leaf({"elem": "Element", "bool": "Boolean", "probe": "Probe"}[k], lt, dr)
        if k == "unit":
            return "()"
        if k == "pair":
            return "(%s, %s)" % (self.ty(t["l"], lt, dr, sub), self.ty(t["r"], lt, dr, sub))
        if k == "box":
            return "Box<%s>" % self.ty(t["of"], lt, dr, sub)
        if k == "dem":
            return "Demoted<%s, %s, %s>" % (lt, dr, self.ty(t["of"], lt, dr, sub))
        if k == "arr":
            return "[%s; %s]" % (self.ty(t["of"], lt, dr, sub), (sub or {}).get(("arr", t["n"]), t["n"]))
        if k == "vec":
            return "FixedVec<%s, %s>" % (self.ty(t["of"], lt, dr, sub), (sub or {}).get(("vec", t["n"]), "ConstLen<%d>" % t["n"]))
        name, args = self.struct(t)
        return "%s<%s>" % (name, args(lt, dr))

    def nameable(self, t):
        return t["k"] != "arr" and (t["k"] == "rec" or all(self.nameable(x) for x in (t.get("of"), t.get("l"), t.get("r")) if x))

    def writable(self, t):
        k = t["k"]
        if k == "dem":
            return False
        if k == "rec":
            return all(f["skip"] or f["as"] == "phantom" or (f["as"] in ("gadget", "none") and self.writable(f["ty"])) for f in t["fs"])
        return all(self.writable(x) for x in (t.get("of"), t.get("l"), t.get("r")) if x)

    def checkable(self, t):
        k = t["k"]
        if k == "dem":
            return False
        if k == "rec":
            return t["hdr"] != "kind" and all(self.checkable(f["ty"]) for f in t["fs"] if f["as"] in ("gadget", "none"))
        return all(self.checkable(x) for x in (t.get("of"), t.get("l"), t.get("r")) if x)

    def struct(self, t):
        key = json.dumps(t, sort_keys=True)
        if key in self.ids:
            return self.ids[key]
        self.n += 1
        name = "S%d" % self.n
        h, fs, rnd = t["hdr"], t["fs"], self.rnd
        lt, dr = ("'mine", "Drv") if h == "named" else ("'dr", "D")
        wr, con = self.writable(t), self.checkable(t)
        sub, extra, arg, phantom, where = {}, "", "", None, ""
        first = False
        if h == "const":
            n = next(f["ty"]["n"] for f in fs if f["ty"]["k"] == "arr")
            sub[("arr", n)], extra, arg = "N", "const N: usize", str(n)
        elif h == "len":
            n = next(f["ty"]["n"] for f in fs if f["ty"]["k"] == "vec")
            sub[("vec", n)], extra, arg, phantom = "L", "L: Len", "ConstLen<%d>" % n, "L"
        elif h in ("curve", "first"):
            extra, arg, phantom, first = "C: CurveAffine<Base = D::F>", "EpAffine", "C", h == "first"
        elif h == "over":
            extra, arg, phantom = "P: Over<D::F>", "Any0", "P"
        elif h == "nest":
            extra, arg, phantom = "P: Over<(u8, Option<D::F>)>", "Any0", "P"
        elif h == "assoc":
            extra, arg, phantom = "P: Tied<Base = D::F> + Over<Option<(D::F,)>>", "Any0", "P"
        elif h == "kind":
            f0 = next(f for f in fs if f["as"] in ("gadget", "none"))
            sub[id(f0["ty"])] = "Bound<'dr, D, K>"
            extra = "K: GadgetKind<D::F>" + (" + Write<D::F>" if wr else "")
            arg = "<%s as Gadget<'static, PhantomData<@F>>>::Kind" % self.ty(f0["ty"], "'static", "PhantomData<@F>")
        # fields, with names whose alphabetical order is not the order of declaration
        names = ["r#type" if i == 3 else "%s%d" % ("zmaqbyk"[(i * 3 + self.n) % 7], max(50, len(fs)) - i) for i in range(len(fs))]
        lines, reads, makes, uses = [], [], [], False
        for f, nm in zip(fs, names):
            marks = [] if f["as"] == "none" else [f["as"]]
            if f["skip"]:
                marks.insert(rnd.randrange(len(marks) + 1), "skip")
            if len(marks) == 2 and rnd.random() < 0.5:
                at = "#[ragu(%s)]\n    #[ragu(%s)]\n    " % tuple(marks)
            else:
                at = "#[ragu(%s)]\n    " % ", ".join(marks) if marks else ""
            if rnd.random() < 0.3:
                at = "/// A field.\n    " + at
            a = f["as"]
            if a == "wire":
                ty, uses = ("%s::Wire" % dr if rnd.random() < 0.6 else "<%s as Driver<%s>>::Wire" % (dr, lt)), True
                reads.append("s.wire(&self.%s);" % nm)
                makes.append((nm, "m.wire()"))
            elif a == "value":
                ty = "DriverValue<%s, u64>" % dr
                reads.append("s.value::<%s, u64>(&self.%s, |v| v as i64);" % (dr, nm))
                makes.append((nm, "m.value()"))
            elif a == "phantom":
                ty = "PhantomData<u8>"
                makes.append((nm, "PhantomData"))
            else:
                ty = self.ty(f["ty"], lt, dr, sub)
                uses = uses or lt in ty
                reads.append("Dump::<'_, %s>::dump(&self.%s, s);" % (dr, nm))
                makes.append((nm, "Make::make(m)"))
            lines.append("    %s%s%s: %s," % (at, rnd.choice(["", "pub ", "pub(crate) "]), nm, ty))
        extras = []
        if phantom:
            extras.append(("tag", "PhantomData<%s>" % phantom))
        if not uses:
            extras.append(("used", "PhantomData<(&%s (), %s)>" % (lt, dr)))
        for nm, ty in extras:
            i = rnd.randrange(len(lines) + 1)
            lines.insert(i, "    #[ragu(phantom)]\n    %s: %s," % (nm, ty))
            makes.insert(0, (nm, "PhantomData"))
        drv = "%s%s: Driver<%s>" % ("#[ragu(driver)] " if h == "named" else "", dr, lt)
        drf = "%s: Driver<%s, F = F>" % (dr, lt)
        ps = [lt] + ([extra, drv] if first else [drv] + ([extra] if extra else []))
        pf = [lt] + ([extra, drf] if first else [drf] + ([extra] if extra else []))
        pf = [p.replace("D::F", "F") for p in pf] if h == "kind" else pf
        ident = extra.replace("const ", "").split(":")[0] if extra else ""
        ar = [lt] + ([ident, dr] if first else [dr] + ([ident] if ident else []))
        mine = ["'static"] + ([arg, "Here"] if first else ["Here"] + ([arg] if arg else []))

        mine = [m.replace("@F", "F") for m in mine]

        def args(l, d):
            arg_ = arg.replace("@F", "F" if d in ("Here", "_") or d.startswith("PhantomData") else "<%s as Driver<%s>>::F" % (d, l))
            return ", ".join([l] + ([arg_, d] if first else [d] + ([arg_] if arg_ else [])))
        der = ["Gadget"] + (["Write"] if wr else []) + (["Consistent"] if con else [])
        rnd.shuffle(der)
        if rnd.random() < 0.5:
            ders = "#[derive(%s)]" % ", ".join(der)
        else:
            ders = "\n".join("#[derive(%s)]" % d for d in der)
        if h == "kind":
            where = "where Bound<'dr, D, K>: Dump<'dr, D>, D::Wire: Id"
        else:
            where = "where %s::Wire: Id" % dr
        body = ders + "\npub struct %s<%s> {\n%s\n}\n" % (name, ", ".join(ps), "\n".join(lines))
        body += "impl<%s> Dump<%s, %s> for %s<%s> %s {\n    fn dump(&self, s: &mut Seen) {\n%s\n    }\n}\n" % (
            ", ".join(pf), lt, dr, name, ", ".join(ar), where, "\n".join("        " + r for r in reads))
        body += "impl Make for %s<%s> {\n    fn make(m: &mut Maker) -> Self {\n%s\n        %s { %s }\n    }\n}\n" % (
            name, ", ".join(mine), "\n".join("        let v%d = %s;" % (i, e) for i, (n, e) in enumerate(makes)),
            name, ", ".join("%s: v%d" % (n, i) for i, (n, e) in enumerate(makes)))
        self.out.append(body)
        self.ids[key] = (name, args)
        return self.ids[key]

    def run(self, i, sh):
        t = sh["shape"]
        name, args = self.struct(t)
        here = "%s<%s>" % (name, args("'static", "Here"))
        kind = "<%s as Gadget<'static, Here>>::Kind" % here
        f = ["    o.extend(common::<%s>(%d));" % (kind, sh["wires"])]
        if sh["write"]:
            f.append("    o.push(written::<%s>(%d));" % (kind, sh["wires"]))
        if sh["check"]:
            f.append("    o.push(checked::<%s>(%d));" % (here, sh["wires"]))
        f.append("    o.push(named::<Kind![F; %s<%s>], %s>());" % (name, args("'_", "_"), kind))
        x = [f_["ty"] for f_ in t["fs"] if f_["as"] in ("gadget", "none") and self.nameable(f_["ty"]) and f_["ty"]["k"] != "unit"]
        for ty in x:
            f.append("    o.push(named::<Kind![F; (%s, %s<%s>)], <(%s, %s) as Gadget<'static, Here>>::Kind>());" % (
                self.ty(ty, "'_", "_"), name, args("'_", "_"), self.ty(ty, "'static", "Here"), here))
        self.out.append("fn run%d() -> J {\n    let mut o: Vec<(&'static str, J)> = vec![];\n%s\n    obs(o)\n}\n" % (i, "\n".join(f)))


def render(shapes, seed):
    e = Emit(seed)
    for s in shapes:
        e.run(s["id"], s)
    e.out.append("fn obs(o: Vec<(&'static str, J)>) -> J {\n    let all = o.iter().all(|(k, v)| *k != \"named\" || matches!(v, J::B(true)));\n"
                 "    let mut r = J::O(Default::default());\n    for (k, v) in o {\n        if k != \"named\" {\n            r.set(k, v);\n        }\n    }\n"
                 "    r.set(\"named\", J::B(all));\n    r\n}\n")
    e.out.append("pub fn shapes(v: &mut Vec<(u64, fn() -> J)>) {\n%s\n}\n" % "\n".join("    v.push((%d, run%d));" % (s["id"], s["id"]) for s in shapes))
    return "\n".join(e.out)
