#!/usr/bin/env python3
"""gen.py SEED COUNT OUT: writes COUNT random type definitions using #[derive(Value)], each with a model of what its
implementation has to stream, computed here from the definition and the documentation of the attributes alone."""
import random, sys

TAGS = [("tg::A", 0), ("tg::B", 1), ("crate::tg::C", 2), ("tg::inner::NUM", 6), ("sval::tags::CONSTANT_SIZE", 7)]
LABELS = [("lb::PLAIN", "plain path label", None), ("lb::TAGGED", "tagged", 0), ("crate::lb::EMPTY", "", None)]
INDEXES = [("ix::INDEX", 7, None), ("ix::TAGGED", 3, 1), ("ix::I32", -9, None), ("ix::USIZE", 12, None), ("crate::ix::I64", 1 << 40, None), ("ix::U64", 77, None)]
TEXTS = ["a", "type", "with space", "", "q\\\"uote", "héllo", "\\u{1F600}", "0", "a.b.c", "line\\nbreak", "stream", "x" * 40]
FIELDS = ["a", "b", "c", "x1", "_under", "r#type", "r#fn", "r#match", "r#a_raw", "héllo", "stream", "__sval_index", "__sval_label", "index", "label", "tag", "value",
          "field0", "field1", "field2", "this", "result", "some", "long_name_with_many_words", "CamelCase", "r#in"]
TYPES = ["Type", "A", "r#async", "Stream", "Tag", "Label", "Index", "lower", "Naïve", "r#Raw", "SCREAM", "T0", "Box_"]
VARIANTS = ["A", "B", "C", "None", "Some", "Ok", "Err", "r#match", "lower", "Ünï", "Tag", "Field0", "r#R", "Z9", "Value"]


def esc(n):
    return n[2:] if n.startswith("r#") else n


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.feat = set()
        self.done = []  # (rust type, cost) usable as field types

    def ch(self, p):
        return self.r.random() < p

    def f(self, name):
        self.feat.add(name)

    # -- attribute values: (source text, model) --------------------------------------------
    def tag(self):
        p, n = self.r.choice(TAGS)
        if self.ch(0.5):
            self.f("tag_string")
            return '"%s"' % p, n
        self.f("tag_path")
        return p, n

    def label(self):
        if self.ch(0.25):
            self.f("label_path")
            p, t, tag = self.r.choice(LABELS)
            return p, 'lab("%s", %s)' % (t, opt(tag))
        self.f("label_text")
        t = self.r.choice(TEXTS)
        return '"%s"' % t, 'lab("%s", None)' % t

    def ident(self, n):
        if n.startswith("r#"):
            self.f("raw_ident")
        return 'lab("%s", Some(T_IDENT))' % esc(n)

    def index(self):
        """-> (source, model expression, constant or None)"""
        if self.ch(0.25):
            self.f("index_path")
            p, n, tag = self.r.choice(INDEXES)
            return p, "idx(%d, %s)" % (n, opt(tag)), None
        n = self.r.choice([0, 1, 2, 3, 5, 10, 255, 256, 1000, 65536, 1 << 31, 1 << 40, -1, -2, -300, -(1 << 33)])
        self.f("index_negative" if n < 0 else "index_number")
        return self.lit(n), "idx(%d, None)" % n, n

    def lit(self, n, suffix=""):
        a = abs(n)
        s = self.r.choice(["%d" % a, "%d" % a, "0x%x" % a, "0b%s" % bin(a)[2:], "%s" % format(a, "_d")])
        if suffix and self.ch(0.2):
            s += ("_" if s[-1] != "_" else "") + suffix
        return ("-" if n < 0 else "") + s

    def attrs(self, items, indent=""):
        """Lay attribute items out in one or more #[sval(..)] attributes, among others."""
        out = []
        items = list(items)
        self.r.shuffle(items)
        if self.ch(0.15):
            out.append("/// Documentation.")
        while items:
            n = self.r.randint(1, len(items)) if self.ch(0.5) else len(items)
            body = ", ".join(items[:n])
            if self.ch(0.1):
                body += ","
            k = self.r.random()
            if k < 0.06:
                self.f("cfg_attr")
                out.append("#[cfg_attr(all(), sval(%s))]" % body)
            else:
                out.append("#[sval(%s)]" % body)
            items = items[n:]
            if items:
                self.f("split_attrs")
        if self.ch(0.1):
            out.append("#[allow(dead_code)]")
        if self.ch(0.04):
            out.append("#[sval()]")
        return "".join("%s%s\n" % (indent, o) for o in out)

    def flag(self, name, on):
        """a boolean attribute in one of its spellings"""
        if on:
            return [self.r.choice([name, name, name + " = true"])]
        return [name + " = false"] if self.ch(0.04) else []

    # -- field types -----------------------------------------------------------------------
    def ty(self, generics, budget):
        """-> (source in the definition, cost)"""
        r = self.r
        if generics and self.ch(0.6):
            self.used.add(0)
            return r.choice(generics), 4
        k = r.random()
        if k < 0.45 or budget < 4:
            return r.choice(["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64", "bool", "char", "String", "&'static str", "()"]), 1
        if k < 0.60:
            t, c = self.ty([], budget // 2)
            w = r.choice(["Option<%s>", "Vec<%s>", "Box<%s>", "[%s; 2]", "(%s, u8)", "Option<Option<%s>>", "std::collections::BTreeMap<String, %s>"])
            return w % t, 2 * c + 2
        if k < 0.72:
            return "FNode", 8
        ok = [(t, c) for t, c in self.done[-60:] if c <= budget]
        if ok:
            self.f("nested_derived")
            return r.choice(ok)
        return "i32", 1

    # -- the body of a struct or struct-like variant --------------------------------------
    def body(self, named, nfields, cattrs, generics, allow):
        """-> (definition text, patterns, model text, cost). cattrs gains the container attributes this needs."""
        r = self.r
        fields = []
        unl = unx = False
        if nfields:
            unl, unx = r.choice([(False, False)] * 4 + [(True, False), (False, True), (True, True)])
        explicit_labels = not named and not unl and self.ch(0.25)
        flat = self.ch(0.2) and nfields > 0
        names = r.sample(FIELDS + ["w%d" % i for i in range(max(0, nfields - 8))], nfields) if named else [None] * nfields
        src, pats, mod = [], [], []
        kept = 0
        nxt, expl = 0, False
        const_size = True
        cost = 1
        items = []
        for i in range(nfields):
            skip = self.ch(0.12)
            t, c = self.ty(generics, 14)
            at = []
            flatten = flat and not skip and self.ch(0.5)
            if flatten:
                t, c = "FNode", 8
            cost += c
            fm = []
            if self.ch(0.04):
                # removed before the macro sees it
                self.f("cfg_removed")
                nm = "gone%d: " % i if named else ""
                items.append('    #[cfg(any())]\n    %su8,\n' % nm)
            if skip:
                self.f("skip")
                at += self.flag("skip", True)
            tag = None
            if not flatten and self.ch(0.2):
                s, tag = self.tag()
                at.append("tag = " + s)
                self.f("field_tag")
            dtag = None
            if not flatten and self.ch(0.2):
                s, dtag = self.tag()
                at.append("data_tag = " + s)
                self.f("data_tag")
            label = None
            if not unl:
                if explicit_labels or (named and self.ch(0.2)):
                    s, label = self.label()
                    at.append("label = " + s)
                    self.f("field_label")
                elif named:
                    label = self.ident(names[i])
            index = None
            if not unx:
                ex = None
                if not flat and self.ch(0.18):
                    ex = self.index()
                    at.append("index = " + ex[0])
                    self.f("field_index")
                if not skip:
                    if ex:
                        index = ex[1]
                        expl = True
                        nxt = (ex[2] if ex[2] is not None else nxt) + 1
                    else:
                        index = "idx(%d, None)" % nxt if expl else "off(at)"
                        if expl:
                            self.f("index_after_explicit")
                        nxt += 1
            if flatten:
                at += self.flag("flatten", True)
            elif not skip:
                at += self.flag("flatten", False)
                at += self.flag("skip", False)
            vis = r.choice(["", "pub ", "pub(crate) "]) if allow else ""
            pre = self.attrs(at, "    ")
            items.append("%s    %s%s%s,\n" % (pre, vis, names[i] + ": " if named else "", t))
            b = "f%d" % i
            pats.append("%s: %s" % (names[i] if named else i, b))
            if skip:
                fm.append("let _ = %s;" % b)
                mod.append(" ".join(fm))
                continue
            kept += 1
            parent = {(1, 1): "RecordTuple", (1, 0): "Record", (0, 1): "Tuple", (0, 0): "Seq"}[(int(label is not None), int(index is not None))]
            if flatten:
                const_size = False
                self.f("flatten_" + parent)
                fm.append("at = w.flatten(Parent::%s, %s, at);" % (parent, b))
            else:
                tg = opt(tag)
                if parent == "RecordTuple":
                    args = "%s, %s, ix.clone()" % (tg, label)
                    n = "RTVal"
                elif parent == "Record":
                    args, n = "%s, %s" % (tg, label), "RecVal"
                elif parent == "Tuple":
                    args, n = "%s, ix.clone()" % tg, "TupVal"
                else:
                    args, n = None, "El"
                a = "(%s)" % args if args else ""
                if index is not None:
                    fm.append("let ix = %s;" % index)
                    if index == "off(at)":
                        fm.append("at += 1;")
                fm.append("w.put(Ev::%sBegin%s);" % (n, a))
                if dtag is not None:
                    fm.append("w.put(Ev::TaggedBegin(id(%s, None, None)));" % opt(dtag))
                fm.append("Mk::exp(%s, w);" % b)
                if dtag is not None:
                    fm.append("w.put(Ev::TaggedEnd(id(%s, None, None)));" % opt(dtag))
                fm.append("w.put(Ev::%sEnd%s);" % (n, a))
            mod.append("{ %s }" % " ".join(fm))
        if kept == 0:
            # nothing left to label or index
            unl = unx = False
            kind = "RecordTuple" if named else "Tuple"
            # no fields: the kind of container is given by how it's declared
        else:
            kind = parent
            self.f("as_" + kind)
        if kept or not unl:
            cattrs += self.flag("unlabeled_fields", unl)
            cattrs += self.flag("unindexed_fields", unx)
        size = "Some(%d)" % kept if const_size else "None"
        k = {"RecordTuple": "RT", "Record": "Rec", "Tuple": "Tup", "Seq": "Seq"}[kind]
        if k == "Seq":
            m = ["w.put(Ev::TaggedBegin(me.clone()));", "w.put(Ev::SeqBegin(%s));" % size] + mod + ["w.put(Ev::SeqEnd);", "w.put(Ev::TaggedEnd(me));"]
        else:
            m = ["w.put(Ev::%sBegin(me.clone(), %s));" % (k, size)] + mod + ["w.put(Ev::%sEnd(me));" % k]
        model = "let mut at = 0isize; " + "\n            ".join(m) + " let _ = at;"
        if named:
            d = "{\n%s}" % "".join(items)
        else:
            d = "(\n%s)" % "".join(items)
        return d, "{ %s }" % ", ".join(pats), model, cost

    def container(self, name, at, label=True, index=True):
        """tag, label, index of a container -> (tag model, id model)"""
        tag = None
        if self.ch(0.25):
            s, tag = self.tag()
            at.append("tag = " + s)
            self.f("container_tag")
        lab = "Some(%s)" % self.ident(name)
        if label and self.ch(0.2):
            s, l = self.label()
            at.append("label = " + s)
            lab = "Some(%s)" % l
            self.f("container_label")
        ix = "None"
        if index and self.ch(0.2):
            s, l, _ = self.index()
            at.append("index = " + s)
            ix = "Some(%s)" % l
            self.f("container_index")
        return tag, "id(%s, %s, %s)" % (opt(tag), lab, ix)

    def generics(self):
        """-> (type parameters usable in fields, declaration, where clause, concrete instantiation)"""
        r = self.r
        if not self.ch(0.25):
            return [], "", "", "", []
        self.f("generics")
        ps, decl, conc, where, extra = [], [], [], [], []
        if self.ch(0.3):
            decl.append("'a" if self.ch(0.6) else "'a: 'static")
            conc.append("'static")
            extra.append("&'a str")
            self.f("lifetimes")
        for n in r.sample(["T", "U", "S", "V", "R"], r.randint(1, 2)):
            ps.append(n)
            k = r.random()
            if k < 0.3:
                decl.append(n)
            elif k < 0.6:
                decl.append(n + ": Clone")
            elif k < 0.8:
                decl.append(n + ": sval::Value + 'static")
            else:
                decl.append(n)
                where.append("%s: Sized + Mk" % n)
            conc.append(r.choice(["i32", "String", "FNode", "Option<bool>", "&'static str", "u128"]))
        if self.ch(0.2):
            decl.append("const N: usize")
            conc.append(str(r.randint(0, 3)))
            extra.append("[u8; N]")
            self.f("const_generics")
        return ps, "<%s>" % ", ".join(decl), (" where " + ", ".join(where)) if where else "", "<%s>" % ", ".join(conc), extra

    # -- whole types -----------------------------------------------------------------------
    def type(self, n, kind):
        self.feat = set()
        self.used = set()
        r = self.r
        name = r.choice(TYPES)
        ps, gdecl, where, gconc, extra = self.generics()
        at = []
        cost = 1
        imp = []
        mk = exp = tag = None
        self.f("kind_" + kind)
        if kind == "unit":
            ps, gdecl, where, gconc, extra = [], "", "", "", []
            t, me = self.container(name, at)
            d = "%spub struct %s;" % (self.attrs(at), name)
            mk, exp, tag = name, "w.put(Ev::Tag(%s));" % me, t
        elif kind == "newtype":
            all_ps = ps + extra
            ty = all_ps[0] if len(all_ps) == 1 else ("(%s)" % ", ".join(all_ps) if all_ps else self.ty([], 14)[0])
            if len(all_ps) > 3 or "FNode" == ty:
                pass
            trans = self.ch(0.3)
            pre = r.choice(["", "", "/// Field docs.\n    "])
            if trans:
                self.f("transparent")
                at += self.flag("transparent", True)
                exp, tag = "Mk::exp(&self.0, w);", None
            else:
                tag, me = self.container(name, at)
                at += self.flag("transparent", False)
                exp = "let me = %s; w.put(Ev::TaggedBegin(me.clone())); Mk::exp(&self.0, w); w.put(Ev::TaggedEnd(me));" % me
            d = "%spub struct %s%s(%spub %s)%s;" % (self.attrs(at), name, gdecl, pre, ty, where)
            mk, cost = "%s(Mk::mk(g))" % name, 8
        elif kind in ("named", "tuple"):
            named = kind == "named"
            tag, me = self.container(name, at)
            nf = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 7]) if named else r.choice([0, 2, 2, 3, 3, 4, 6])
            if self.ch(0.03):
                nf = r.choice([8, 9, 12, 13, 16, 17, 20, 33, 40])
                self.f("wide_struct")
            body, pats, model, cost = self.body(named, nf, at, ps, True)
            # every parameter has to be used
            use = ", ".join(ps + extra)
            rest = ""
            if use:
                fld = "zz: (%s,)" % use if named else "(%s,)" % use
                fld = "    #[sval(skip)]\n    %s,\n" % fld
                body = body[:-1] + fld + body[-1]
                pats = pats[:-2] + (", " if nf else "") + ("zz: _" if named else "%d: _" % nf) + " }"
                if not named and nf == 0:
                    return self.type(n, kind)
            d = "%spub struct %s%s%s%s" % (self.attrs(at), name, gdecl, (where + " " + body) if named else body + where, "" if named else ";")
            inits = []
            k = nf + (1 if use else 0)
            if named:
                # in declaration order
                import re
                fn = re.findall(r": f\d+|zz", pats)
                nms = [p.split(":")[0].strip() for p in pats[1:-1].split(",") if p.strip()]
                inits = ["%s: Mk::mk(g)" % x for x in nms]
                mk = "%s { %s }" % (name, ", ".join(inits))
            else:
                mk = "%s(%s)" % (name, ", ".join(["Mk::mk(g)"] * k))
            exp = "let me = %s; let %s %s = self; %s" % (me, name, pats, model)
        else:
            dyn = kind == "dynamic"
            tag, me = None, None
            uv = ui = False
            if dyn:
                at += ["dynamic"]
            else:
                tag, me = self.container(name, at)
                uv, ui = r.choice([(False, False)] * 5 + [(True, False), (False, True), (True, True)])
                if uv:
                    self.f("unlabeled_variants")
                if ui:
                    self.f("unindexed_variants")
                at += self.flag("unlabeled_variants", uv) + self.flag("unindexed_variants", ui) + self.flag("dynamic", False)
            nv = r.choice([1, 2, 3, 3, 4, 5, 6])
            many = self.ch(0.03)
            if many:
                nv = r.choice([8, 9, 16, 17, 33, 40, 70])
                self.f("many_variants")
            disc = not dyn and self.ch(0.3)
            names = r.sample(VARIANTS + (["V%d" % i for i in range(60)] if many else []), nv)
            vs, mks, exps = [], [], []
            nxt, expl = 0, False
            rust_next, used = 0, set()
            ok = True
            for i, v in enumerate(names):
                vk = r.choice(["unit", "newtype", "named", "tuple"])
                vat = []
                vlab = None
                vtag = None
                vix = None
                if self.ch(0.2) and not (dyn and vk == "newtype"):
                    s, vtag = self.tag()
                    vat.append("tag = " + s)
                    self.f("variant_tag")
                if not uv and not (dyn and vk != "unit"):
                    if self.ch(0.2):
                        s, vlab = self.label()
                        vat.append("label = " + s)
                        self.f("variant_label")
                    else:
                        vlab = self.ident(v)
                dtxt = ""
                dval = None
                if disc and self.ch(0.1 if many else 0.4):
                    cand = [x for x in [0, 1, 2, 5, 8, 100, 1000, -1, -5, -200, 1 << 35] + [r.randint(-500, 500) for _ in range(4)] if x not in used]
                    dval = r.choice(cand)
                    dtxt = " = " + self.lit(dval, "i64")
                    self.f("discriminant")
                cur = dval if dval is not None else rust_next
                if cur in used:
                    ok = False
                used.add(cur)
                rust_next = cur + 1
                if not dyn and not ui:
                    if dval is not None:
                        alloc = "idx(%d, None)" % dval
                        expl, nxt = True, dval + 1
                    else:
                        alloc = "idx(%d, None)" % nxt if expl else "off(%d)" % nxt
                        if expl:
                            self.f("variant_after_discriminant")
                        nxt += 1
                    vix = alloc
                    if self.ch(0.15):
                        s, vix, _ = self.index()
                        vat.append("index = " + s)
                        self.f("variant_index")
                vid = "id(%s, %s, %s)" % (opt(vtag), "Some(%s)" % vlab if vlab else "None", "Some(%s)" % vix if vix else "None")
                if vk == "unit":
                    vs.append("%s    %s%s,\n" % (self.attrs(vat, "    "), v, dtxt))
                    mks.append("%s::%s" % (name, v))
                    exps.append("%s::%s => { w.put(Ev::Tag(%s)); }" % (name, v, vid))
                elif vk == "newtype":
                    t, c = self.ty(ps, 14)
                    cost = max(cost, c + 1)
                    vs.append("%s    %s(%s)%s,\n" % (self.attrs(vat, "    "), v, t, dtxt))
                    mks.append("%s::%s(Mk::mk(g))" % (name, v))
                    if dyn:
                        exps.append("%s::%s(f0) => { Mk::exp(f0, w); }" % (name, v))
                    else:
                        exps.append("%s::%s(f0) => { let me = %s; w.put(Ev::TaggedBegin(me.clone())); Mk::exp(f0, w); w.put(Ev::TaggedEnd(me)); }" % (name, v, vid))
                else:
                    named = vk == "named"
                    nf = r.choice([0, 1, 2, 3, 4]) if named else r.choice([0, 2, 3, 4])
                    if self.ch(0.01):
                        nf = r.choice([9, 13, 17, 33])
                        self.f("wide_variant")
                    body, pats, model, c = self.body(named, nf, vat, ps, False)
                    cost = max(cost, c)
                    vs.append("%s    %s%s%s,\n" % (self.attrs(vat, "    "), v, body, dtxt))
                    nms = [p.split(":")[0].strip() for p in pats[1:-1].split(",") if p.strip()]
                    if named:
                        mks.append("%s::%s { %s }" % (name, v, ", ".join("%s: Mk::mk(g)" % x for x in nms)))
                    else:
                        mks.append("%s::%s(%s)" % (name, v, ", ".join(["Mk::mk(g)"] * len(nms))))
                    exps.append("%s::%s %s => { let me = %s; %s }" % (name, v, pats, vid, model))
                self.f("variant_" + vk)
            if not ok:
                return self.type(n, kind)
            if ps or extra:
                # every parameter has to be used
                if rust_next in used:
                    return self.type(n, kind)
                self.f("enum_generics")
                vs.append("    Params(%s),\n" % ", ".join(["#[sval(skip)] (%s,)" % ", ".join(ps + extra)] * 2))
                exps.append("%s::Params(..) => unreachable!()," % name)
            d = "%s%spub enum %s%s%s {\n%s}" % ("#[repr(i64)]\n" if disc else "", self.attrs(at), name, gdecl, where, "".join(vs))
            mk = "match g.below(%d) { %s _ => %s }" % (nv, " ".join("%d => %s," % (i, m) for i, m in enumerate(mks[:-1])), mks[-1])
            arms = "match self { %s }" % "\n        ".join(exps)
            if dyn:
                exp = arms
            else:
                exp = "let en = %s; w.put(Ev::EnumBegin(en.clone())); %s w.put(Ev::EnumEnd(en));" % (me, arms)
        path = "m%d::%s%s" % (n, name, gconc)
        self.done.append((path, cost + 1))
        return """pub mod m%d {
    use super::*;
    #[derive(Value, Debug)]
    %s
    impl Mk for %s%s {
        fn mk(g: &mut Gen) -> Self { let _ = &g; %s }
        fn exp(&self, w: &mut Want) { %s }
        fn want_tag(&self) -> Option<u8> { %s }
        fn known_tag() -> bool { %s }
    }
}
""" % (n, d.replace("\n", "\n    "), name, gconc, mk, exp, opt(tag), "false" if kind == "dynamic" else "true"), path, sorted(self.feat)


def opt(t):
    return "None" if t is None else "Some(%d)" % t


def main():
    seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    g = G(seed)
    kinds = ["named"] * 5 + ["tuple"] * 3 + ["newtype"] * 2 + ["unit"] + ["enum"] * 5 + ["dynamic"] * 2
    src, table = [], []
    for n in range(count):
        t, path, feat = g.type(n, g.r.choice(kinds))
        src.append(t)
        table.append('    Entry { name: "%s", run: run::<%s>, feat: &[%s] },\n' % (path, path, ", ".join('"%s"' % f for f in feat)))
    src.append("pub mod void { use super::*; #[derive(Value)] pub enum Void {} }\n")
    src.append("pub static TYPES: &[Entry] = &[\n%s];\n" % "".join(table))
    open(out, "w").write("".join(src))


main()
