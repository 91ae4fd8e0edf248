#!/usr/bin/env python3
"""D02: writes type definitions the derive macro has to reject, each beside the same definition without the fault.

rej.py SEED COUNT OUT.rs OUT.json FLATTEN   one definition a line, line N+1 of OUT.rs is entry N of OUT.json"""
import json, random, sys

BOOLS = ["skip", "unlabeled_fields", "unindexed_fields", "unlabeled_variants", "unindexed_variants", "dynamic", "transparent", "flatten"]
ALL = ["tag", "data_tag", "label", "index"] + BOOLS
ALLOWED = {
    "unit": ["tag", "label", "index"],
    "struct": ["tag", "label", "index", "unlabeled_fields", "unindexed_fields"],
    "newtype": ["tag", "label", "index", "transparent"],
    "enum": ["tag", "label", "index", "dynamic", "unlabeled_variants", "unindexed_variants"],
    "void": [],
    "unit variant": ["tag", "label", "index"],
    "newtype variant": ["tag", "label", "index"],
    "struct variant": ["tag", "label", "index", "unlabeled_fields", "unindexed_fields"],
    "field": ["tag", "data_tag", "label", "index", "skip", "flatten"],
    "newtype field": [],
}
UNKNOWN = ["rename", "lable", "Label", "labels", "tags", "TAG", "idx", "indexes", "default", "skip_serializing", "skipped", "flat",
           "flattened", "dyn_", "untagged", "unlabelled_fields", "unlabeled_field", "unlabeled", "unindexed", "transparently", "bound",
           "data_label", "data_index", "datatag", "label_", "_index", "sval", "sval::label", "label::label", "crate::tag", "x"]


class Site:
    def __init__(self, kind, owner=None):
        self.kind, self.owner, self.attrs = kind, owner, []  # (name, text)

    def has(self, *names):
        return any(n in names for n, _ in self.attrs)


class Gen:
    def __init__(self, r, flatten):
        self.r, self.flatten = r, flatten

    def value(self, name):
        r = self.r
        if name in ("tag", "data_tag"):
            return r.choice(["%s = TG", '%s = "TG"', "%s = inner::TG", '%s = "inner::TG"']) % name
        if name == "label":
            return r.choice(['label = "x"', 'label = ""', "label = LB", 'label = "a b"', "label = inner::LB"])
        if name == "index":
            return r.choice(["index = 1", "index = -3", "index = IX", "index = 0", "index = inner::IX", "index = 70"])
        return r.choice(["%s", "%s", "%s = true"]) % name

    def malformed(self, name):
        r = self.r
        if name in ("tag", "data_tag"):
            v = ["1", "true", None, '"a b"', '""', "1.5", "'c'", "f()", "1 + 1", "-TG", "(TG, TG)", '"TG,"', 'b"TG"']
        elif name == "label":
            v = ["1", "true", None, "'c'", "1.5", "f()", "1 + 1", "-LB", 'b"x"', '("x", "y")', '&"x"', "-1"]
        elif name == "index":
            v = ['"1"', "true", None, "1.5", "'c'", "1 + 1", "-IX", "f()", "99999999999999999999", "b'a'", '-"1"', "-1.5", "!1", "(1, 2)"]
        else:
            v = ['"true"', "1", "FLAG", "!false", "1.5", "'t'", "f()", "-1", "true & true", "0"]
        v = r.choice(v)
        return name if v is None else "%s = %s" % (name, v)

    def fields(self, site_owner, n, named):
        return [Site("field", site_owner) for _ in range(n)]

    def item(self):
        """A legal definition: (sites, render)"""
        r = self.r
        kind = r.choice(["unit", "struct", "struct", "tuple", "tuple", "newtype", "newtype", "enum", "enum", "enum", "void"])
        sites = []
        generic = r.random() < 0.2 and kind not in ("unit", "void")
        ty = lambda: "U" if generic else r.choice(["i32", "bool", "&'static str", "Option<u8>", "()", "Vec<i32>", "String"])
        nf = lambda lo: r.choice([lo, lo, lo + 1, lo + 2, lo + 4, 17 if r.random() < 0.1 else lo])
        gp = "<U>" if generic else ""

        def new(kind, owner=None):
            s = Site(kind, owner)
            sites.append(s)
            return s

        def body(shape, owner, vis):
            if shape == "unit":
                return []
            if shape == "newtype":
                return [(new("newtype field", owner), "(%s)", vis, ty())]
            lo = 0 if shape == "struct" or r.random() < 0.2 else 2
            n = nf(lo)
            if n == 1 and shape == "tuple":
                n = 2
            return [(new("field", owner), shape, vis, ty()) for _ in range(n)]

        def shown(shape, fs):
            if shape == "unit":
                return ""
            if shape == "newtype":
                s, _, vis, t = fs[0]
                return "(%s %s %s)" % (attrs(s), vis, t)
            if shape == "struct":
                return "{ %s }" % ", ".join("%s %s f%d: %s" % (attrs(s), vis, i, t) for i, (s, _, vis, t) in enumerate(fs))
            return "(%s)" % ", ".join("%s %s %s" % (attrs(s), vis, t) for s, _, vis, t in fs)

        def attrs(s):
            return "%s %s %s" % (s.noise[0], own(s), s.noise[1])

        def own(s):
            if not s.attrs:
                return ""
            texts = [t for _, t in s.attrs]
            raw = [t for t in texts if t.startswith("#")]
            texts = [t for t in texts if not t.startswith("#")]
            if s.split and s.noise[1]:
                return " #[doc = \"x\"] ".join("#[sval(%s)]" % t for t in texts) + " ".join(raw)
            if s.split:
                return " ".join("#[sval(%s)]" % t for t in texts) + " ".join(raw)
            return ("#[sval(%s)]" % ", ".join(texts) if texts else "") + " ".join(raw)

        for_shape = {"unit": "unit", "newtype": "newtype", "struct": "struct", "tuple": "struct"}
        if kind == "void":
            top = new("void")
            render = lambda: "%s pub enum T {}" % attrs(top)
        elif kind == "enum":
            top = new("enum")
            vs = []
            for i in range(r.choice([1, 2, 3, 4, 12 if r.random() < 0.2 else 2])):
                shape = r.choice(["unit", "newtype", "struct", "tuple"])
                v = new({"unit": "unit variant", "newtype": "newtype variant"}.get(shape, "struct variant"), top)
                vs.append((v, shape, body(shape, v, "")))
            if generic:
                v = new("newtype variant", top)
                vs.append((v, "newtype", [(new("newtype field", v), "(%s)", "", "U")]))
            render = lambda: "%s pub enum T%s { %s }" % (attrs(top), gp, ", ".join("%s V%d%s" % (attrs(v), i, shown(sh, fs)) for i, (v, sh, fs) in enumerate(vs)))
        else:
            top = new(for_shape[kind])
            fs = body(kind, top, "pub")
            while generic and not fs:
                fs = body(kind, top, "pub")
            render = lambda: "%s pub struct T%s%s%s" % (attrs(top), gp, shown(kind, fs), "" if kind == "struct" else ";")
        for s in sites:
            s.split = r.random() < 0.3
            s.noise = [r.choice(["", "", "", "", '#[doc = "label"]', "#[allow(dead_code)]", "#[cfg(all())]", '#[doc = "a"] #[doc = "b"]']) for _ in range(2)]
            if s.kind not in ("field", "newtype field") and s.noise == ["#[cfg(all())]"] * 2:
                s.noise = ["", ""]
            s.shape = None
        if kind != "void":
            shapes = [(top, kind)] if kind != "enum" else [(v, sh) for v, sh, _ in vs]
            for s, sh in shapes:
                s.shape = sh
            for s in sites:
                if s.kind == "field":
                    s.shape = s.owner.shape
        # legal attributes, a few
        for s in sites:
            ok = list(ALLOWED[s.kind])
            if s.kind == "field":
                ok = ["tag", "data_tag", "skip"]
                if s.shape == "struct" and not s.owner.has("unlabeled_fields"):
                    ok.append("label")
                if not s.owner.has("unindexed_fields"):
                    ok.append("index")
            if s.kind in ("unit variant", "newtype variant", "struct variant") and s.owner.has("dynamic", "unlabeled_variants", "unindexed_variants"):
                ok = []
            r.shuffle(ok)
            for a in ok[: r.choice([0, 0, 0, 1, 1, 2])]:
                if (s.has("dynamic", "transparent") or a in ("dynamic", "transparent") and s.attrs):
                    continue
                s.attrs.append((a, self.value(a)))
            if s.kind in ("enum", "newtype") and s.has("tag", "label", "index") and r.random() < 0.1:
                a = "dynamic" if s.kind == "enum" else "transparent"
                s.attrs.append((a, a + " = false"))
        return sites, render

    def fault(self, sites):
        """Puts one fault into a legal definition; -> its name or None if it doesn't fit"""
        r = self.r
        s = r.choice(sites)
        allowed = ALLOWED[s.kind] if self.flatten else [a for a in ALLOWED[s.kind] if a != "flatten"]
        at = lambda: r.randrange(len(s.attrs) + 1)
        f = r.choice(["misplaced", "misplaced", "unknown", "duplicate", "duplicate", "malformed", "malformed", "conflict", "conflict", "conflict", "shape"])
        if f == "misplaced":
            a = r.choice([a for a in ALL if a not in allowed])
            if a in ALLOWED[s.kind] and s.has("skip"):
                return None
            t = self.value(a) if r.random() < 0.7 or a not in BOOLS else a + " = false"
            s.attrs.insert(at(), (a, t))
            return "%s: `%s` on a %s" % (f, a, s.kind)
        if f == "unknown":
            a = r.choice(UNKNOWN)
            s.attrs.insert(at(), (a, a + r.choice(["", ' = "x"', " = 1", " = LB"])))
            return "%s on a %s" % (f, s.kind)
        if f == "duplicate":
            if s.attrs and r.random() < 0.7:
                a = r.choice(s.attrs)[0]
            elif allowed:
                a = r.choice(allowed)
                if s.attrs and a in ("dynamic", "transparent"):
                    return None
                s.attrs.append((a, self.value(a)))
            else:
                return None
            s.attrs.insert(at(), (a, self.value(a) if a not in BOOLS or r.random() < 0.5 else a + " = false"))
            return "%s `%s` on a %s" % (f, a, s.kind)
        if f == "malformed":
            if not allowed or s.has("skip"):
                return None
            a = r.choice(allowed)
            if s.has(a) or a == "skip" and s.attrs:
                return None
            s.attrs.insert(at(), (a, self.malformed(a)))
            return "%s `%s` on a %s" % (f, a, s.kind)
        if f == "shape":
            t = r.choice(['#[sval = "x"]', '#[sval("x")]', "#[sval(label(\"x\"))]", "#[sval(skip(true))]", "#[sval(label = )]", "#[sval(= 1)]", "#[sval(tag TG)]", "#[sval(index = 1 label = \"x\")]", "#[sval(1)]"])
            s.attrs.append(("", t))
            return "%s: %s on a %s" % (f, t, s.kind)
        # contradictions
        if s.kind == "enum":
            s.attrs = [x for x in s.attrs if x[0] not in ("dynamic",)]
            a = r.choice(["tag", "label", "index", "unlabeled_variants", "unindexed_variants"])
            if not s.has(a):
                s.attrs.append((a, self.value(a)))
            s.attrs.insert(at(), ("dynamic", self.value("dynamic")))
            if any(x[1].endswith("= false") for x in s.attrs):
                return None
            return "conflict: `dynamic` with `%s`" % a
        if s.kind == "newtype":
            s.attrs = [x for x in s.attrs if x[0] not in ("transparent",)]
            a = r.choice(["tag", "label", "index"])
            if not s.has(a):
                s.attrs.append((a, self.value(a)))
            s.attrs.insert(at(), ("transparent", self.value("transparent")))
            return "conflict: `transparent` with `%s`" % a
        if s.kind == "field":
            s.attrs = [x for x in s.attrs if x[0] != "skip"]
            a = r.choice(["label", "index"])
            if a == "label" and s.shape == "tuple" and not s.owner.has("unlabeled_fields"):
                # some labelled, some not
                others = [x for x in sites if x.kind == "field" and x.owner is s.owner and x is not s and not x.has("skip")]
                if not others:
                    return None
                s.attrs.insert(at(), (a, self.value(a)))
                return "conflict: labels on some fields of a tuple"
            o = "unlabeled_fields" if a == "label" else "unindexed_fields"
            if not s.has(a):
                s.attrs.insert(at(), (a, self.value(a)))
            if not s.owner.has(o):
                s.owner.attrs.append((o, self.value(o)))
            return "conflict: `%s` on a field under `%s`" % (a, o)
        return None


HEAD = "use sval_derive::Value; use super::inner; use super::{TG, LB, IX, FLAG, f}; #[derive(Value)] "


def main():
    seed, count, out, meta, flatten = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4], sys.argv[5] == "1"
    r = random.Random(seed)
    g = Gen(r, flatten)
    defs = []
    for u in ["pub union T { a: i32, b: u32 }", "pub union T { a: i32 }"]:
        defs.append(dict(bad="shape: a union", text=u))
    while len(defs) < count:
        sites, render = g.item()
        good = render()
        bad = g.fault(sites)
        text = render()
        if bad is None or text == good:
            continue
        defs.append(dict(bad=None, text=good))
        defs.append(dict(bad=bad, text=text))
    json.dump(defs, open(meta, "w"))


def write(defs, alive, out):
    with open(out, "w") as f:
        for i in alive:
            f.write("pub mod m%d { %s %s }\n" % (i, HEAD, defs[i]["text"]))


if __name__ == "__main__":
    main()
