"""Random specifications in the generator's input format, and the same specifications as Rust tables for the harness."""
import json, random, re

WORDS = "zeta quill ember sable flint marrow tundra vesper onyx cobalt larch myrtle bramble fjord gantry hollow ivory juniper kestrel lumen".split()
# words that are also names inside the generated decoders, where they cause no clash
FIELD_WORDS = "alpha beta gamma size header format list buf fmt descriptor val v acc fv i r a self-id is-match type return body-id state handle name durable source code properties ttl to x".split()
KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref self static struct super trait true unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try union".split())
CLASH = set("input count remainder decoded in1 decode encode encoded_size clone eq ne fmt_ decode_with_format field_count".split())


def camel(name):
    out, new = "", True
    for ch in name:
        if ch in "-_ ":
            new = True
        else:
            out += ch.upper() if new else ch
            new = False
    return out


def snake(name):
    if name in ("type", "return"):
        return name + "_"
    out, new, up = "", False, False
    for ch in name:
        if ch in "-_ ":
            new = True
        else:
            u = ch.isupper()
            if new or (not up and out and u):
                out += "_"
                new = False
            up = u
            out += ch.lower()
    return out


def rs(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'


class Spec:
    def __init__(self, base, seed, n_enums=10, n_comps=44, n_unions=3):
        self.r = random.Random(seed)
        self.base = base
        self.items = []
        used = {int(t["descriptor"]["code"].split(":")[1], 16) for t in base if "descriptor" in t}
        self.small = [c for c in range(1, 256) if c not in used]
        self.r.shuffle(self.small)
        self.codes = set()
        self.syms = {t["descriptor"]["name"] for t in base if "descriptor" in t}
        self.n = self.nd = 0
        self.enums, self.comps, self.unions, self.aliases, self.dres = [], [], [], [], []
        for _ in range(4):
            self.alias()
        for _ in range(n_enums):
            self.enum()
        plan = ["empty", "wide", "wider", "default", "mandatory", "optional"] + ["any"] * (n_comps - 6)
        for k in plan:
            self.comp(k)
        for _ in range(n_unions):
            self.union()
        self.r.shuffle(self.items)

    # ---- names ----
    def name(self):
        r = self.r
        self.n += 1
        ws = [r.choice(WORDS) for _ in range(r.randint(1, 3))]
        if r.random() < .3:
            # names that begin or end like the library's own
            own = r.choice(["transfer", "transfer"] + [t["name"] for t in self.base])
            ws = [own] + ws if r.random() < .6 else ws + [own] if r.random() < .8 else [own]
        k = r.randrange(5)
        if k == 0:
            s = "-".join(ws)
        elif k == 1:
            s = "_".join(ws)
        elif k == 2:
            s = "".join([ws[0]] + [w.capitalize() for w in ws[1:]])
        elif k == 3:
            s = "-".join(w.upper() if r.random() < .3 else w for w in ws)
        else:
            s = " ".join(ws)
        return s + r.choice(["", "-", "_"]) + "x%d" % self.n

    def field_name(self, taken):
        r = self.r
        while True:
            ws = [r.choice(FIELD_WORDS) for _ in range(r.choice([1, 1, 2, 3]))]
            k = r.randrange(4)
            s = {0: "-", 1: "_", 2: " "}.get(k, "").join(ws) if k < 3 else "".join([ws[0]] + [w.capitalize() for w in ws[1:]])
            if r.random() < .3:
                s += str(r.randrange(40))
            n = snake(s)
            if n not in taken and n not in KEYWORDS and n not in CLASH and re.fullmatch(r"[a-z][a-z0-9_]*", n) and n != "body":
                taken.add(n)
                return s

    def symtext(self, near=None):
        r = self.r
        while True:
            if near and r.random() < .4:
                s = r.choice(sorted(near))
                k = r.randrange(4)
                s = [s + "x", s[:-1], s.upper(), s.replace(":", "-")][k]
            else:
                n = r.choice([1, 2, 5, 12, 12, 30, 30, 100, 249, 255, 300])
                s = "".join(r.choice("abcdefghijklmnopqrstuvwxyzABZ0189-:._/*+=?!&<>'$#@ ") for _ in range(n))
            if s and s not in self.syms:
                self.syms.add(s)
                return s

    def descriptor(self):
        r = self.r
        self.nd += 1
        k = self.nd % 10
        while True:
            if k < 6 and self.small:
                c = self.small.pop()
            elif k < 7:
                c = r.choice([0, 256, 257, 0xffff, 0xffffffff, r.getrandbits(32)])
            elif k < 9:
                # the domain of an extension
                c = r.choice([1, 0x468c, 0x7fffffff, 0xffffffff, r.getrandbits(32)]) << 32 | r.choice([0, 0x10, 0x70, 1, 4, 255, 256, r.getrandbits(32)])
            else:
                c = r.choice([1, 2, 0x468c, r.getrandbits(31) + 1]) << 32 | r.choice([0x24, 0x73, 0x10, 0x28])
            if c not in self.codes and not any(int(t["descriptor"]["code"].split(":")[1], 16) == c for t in self.base if "descriptor" in t):
                self.codes.add(c)
                break
        h = "%08x" if r.random() < .8 else "%x"
        return c, {"name": self.symtext(self.syms), "code": ("0x" + h + ":0x" + h) % (c >> 32, c & 0xffffffff)}

    # ---- types ----
    def alias(self):
        src, t = self.r.choice([("uint", "U32"), ("ulong", "U64"), ("ubyte", "U8"), ("ushort", "U16"), ("boolean", "Bool"), ("seconds", "U32"), ("timestamp", "Ts")])
        n = self.name()
        self.aliases.append((n, src, t))
        self.items.append({"name": n, "class": "restricted", "source": src})

    def enum(self):
        r = self.r
        n = self.name()
        src = r.choice(["symbol", "symbol", "symbol", "ubyte", "ushort", "uint", "ulong", "boolean", "sequence-no"])
        cnt = {"boolean": 2}.get(src) or r.choice([1, 2, 3, 5, 12, 40])
        if src == "boolean":
            vals = ["false", "true"]
            r.shuffle(vals)
        elif src == "symbol":
            vals = []
            near = set()
            while len(vals) < cnt:
                s = self.symtext(near)
                near.add(s)
                vals.append(s)
        else:
            bits = {"ubyte": 8, "ushort": 16}.get(src) or (64 if src == "ulong" else 32)
            vs = set()
            while len(vs) < cnt:
                vs.add(r.choice([r.randrange(6), 127, 128, 255, 256, (1 << bits) - 1, r.getrandbits(bits), 0]) & ((1 << bits) - 1) if len(vs) < 8 else r.getrandbits(bits))
            vals = [str(v) for v in vs]
            r.shuffle(vals)
        names = []
        while len(names) < len(vals):
            c = self.name()
            names.append(c)
        prov = {"provides": self.name()} if r.random() < .2 else {}
        self.enums.append((n, src, list(zip(names, vals))))
        self.items.append(dict({"name": n, "class": "restricted", "source": src, "choice": [{"name": a, "value": v} for a, v in zip(names, vals)]}, **prov))

    PRIMS = [("boolean", "Bool"), ("ubyte", "U8"), ("ushort", "U16"), ("uint", "U32"), ("ulong", "U64"), ("binary", "Bin"), ("string", "Str"), ("symbol", "Sym"),
             ("timestamp", "Ts"), ("uuid", "Uuid"), ("fields", "Fields"), ("map", "Map"), ("handle", "U32"), ("seconds", "U32"), ("milliseconds", "U32"), ("delivery-tag", "Bin"),
             ("transfer-number", "U32"), ("message-format", "U32"), ("filter-set", "Filter"), ("node-properties", "Fields")]
    REQ = [("message-id", "MsgId"), ("error-condition", "Sym"), ("outcome", "Outcome"), ("delivery-state", "State"), ("address", "Str"), ("distribution-mode", "Sym")]
    BASE_COMPS = ["error", "received", "accepted", "rejected", "modified", "source", "target", "header"]

    def comp(self, kind):
        r = self.r
        n = self.name()
        code, d = self.descriptor()
        cnt = {"empty": 0, "wide": r.choice([200, 254, 255]), "wider": r.choice([256, 257, 300, 520])}.get(kind) or r.choice([1, 1, 2, 3, 5, 8, 12, 20])
        if kind == "empty":
            cnt = 0
        if kind == "wider":
            kind = "wide"
        fields, taken, table = [], set(), []
        for i in range(cnt):
            fn = ("f%d" % i) if kind == "wide" else self.field_name(taken)
            f = {"name": fn}
            k = 0 if kind in ("wide", "default") else r.randrange(10)
            dv = None
            if kind == "wide":
                ty, t = r.choice(self.PRIMS[:5])
                f["type"] = ty
                t = "T::" + t
            elif k <= 4:
                ty, t = r.choice(self.PRIMS + [(a[0], a[2]) for a in self.aliases])
                if kind == "default":
                    ty, t = r.choice(self.PRIMS[:5] + [("handle", "U32"), ("seconds", "U32")] + [(a[0], a[2]) for a in self.aliases if a[2] != "Ts"])
                f["type"] = ty
                t = "T::" + t
            elif k == 5:
                f.update({"type": r.choice(["symbol", "ietf-language-tag"]), "multiple": "true"})
                t = "T::Multi"
            elif k == 6:
                ty, t = r.choice(self.REQ)
                f.update({"type": r.choice(["*", "symbol"]), "requires": ty})
                t = "T::" + t
            elif k == 7 and self.enums:
                e = r.choice(self.enums)
                f["type"] = e[0]
                t = self.enum_t(e)
            else:
                own = [c for c in self.comps if len(c[3]) < 60]
                if own and r.random() < .7:
                    c = r.choice(own)
                    f.update({"type": c[0]} if r.random() < .7 else {"type": "*", "requires": c[0]})
                    t = "T::Comp(%s)" % rs(camel(c[0]))
                else:
                    c = r.choice(self.BASE_COMPS)
                    f["type"] = c
                    t = "T::Comp(%s)" % rs(c)
            how = {"mandatory": 0, "optional": 1, "default": 2}.get(kind, r.randrange(3) if kind != "wide" else r.choice([1, 1, 1, 1, 0, 2]))
            if how == 2:
                dv = self.default(f, t)
                if dv:
                    f["default"] = dv[0]
                    dv = dv[1]
            mand = how == 0
            if mand:
                f["mandatory"] = "true"
            elif r.random() < .3:
                f["mandatory"] = "false"
            if "multiple" not in f and r.random() < .1:
                f["multiple"] = "false"
            fields.append(f)
            table.append((snake(fn), t, mand, dv))
        self.comps.append((n, code, d["name"], table))
        it = {"name": n, "class": "composite", "source": "list", "descriptor": d}
        if fields or r.random() < .5:
            it["field"] = fields
        self.items.append(it)

    def enum_t(self, e):
        n, src, ch = e
        vals = [v for _, v in ch]
        if src == "symbol":
            return "T::EnumSym(&[%s])" % ", ".join(map(rs, vals))
        if src == "boolean":
            return "T::Bool"
        t = {"ubyte": "U8", "ushort": "U16", "ulong": "U64"}.get(src, "U32")
        return "T::Enum%s(&[%s])" % (t, ", ".join(vals))

    def default(self, f, t):
        r = self.r
        ty = f.get("requires") or f["type"]
        for e in self.enums:
            if e[0] == ty:
                c, v = r.choice(e[2])
                return c, self.lit(e[1], v)
        bits = {"T::U8": 8, "T::U16": 16, "T::U32": 32, "T::U64": 64}.get(t)
        if t == "T::Bool":
            v = r.choice(["true", "false"])
            return v, "Bool(%s)" % v
        if bits:
            v = str(r.choice([0, 1, 4, 127, 128, 255, (1 << bits) - 1, r.getrandbits(bits)]))
            return v, "%s(%s)" % (t[3:], v)
        return None

    def lit(self, src, v):
        if src == "symbol":
            return "V::sym(%s)" % rs(v)
        if src == "boolean":
            return "Bool(%s)" % v
        return "%s(%s)" % ({"ubyte": "U8", "ushort": "U16", "ulong": "U64"}.get(src, "U32"), v)

    def union(self):
        """A 'provides' group of composites, some of them restricted described types."""
        r = self.r
        n = self.name()
        opts = []
        for it in r.sample([i for i in self.items if i.get("class") == "composite"], r.choice([2, 3, 8])):
            it["provides"] = ", ".join([it["provides"], n]) if "provides" in it else r.choice([n, n + ",", " " + n])
            c = next(c for c in self.comps if c[0] == it["name"])
            opts.append((camel(c[0]), c[1], c[2], "comp"))
        for _ in range(r.choice([0, 1, 3])):
            m = self.name()
            code, d = self.descriptor()
            src, k = r.choice([("binary", "Bin"), ("string", "Str"), ("symbol", "Sym"), ("ulong", "U64"), ("annotations", "Fields"), ("map", "Map"), ("uint", "U32"), ("boolean", "Bool"), ("*", "Any"),
                               ("list", "List"), ("uuid", "Uuid")])
            self.items.append({"name": m, "class": "restricted", "source": src, "provides": n, "descriptor": d})
            opts.append((camel(m), code, d["name"], k))
        self.unions.append((camel(n), opts))

    # ---- output ----
    def json(self):
        b = list(self.base)
        # anywhere among the library's own types, order kept
        pos = sorted(self.r.randrange(len(b) + 1) for _ in self.items)
        for i, (p, it) in enumerate(zip(pos, self.items)):
            b.insert(p + i, it)
        return json.dumps(b, indent=1)

    def rust(self):
        o = ["// generated by codegen/spec.py", "use crate::conv::*;", "use crate::gen as g;", "use crate::kinds::*;", "use crate::refm::V::{self, *};",
             "use crate::schema::{self as sc, C, F, T};", "use crate::src::Src;", "use amqp_codec::protocol as p;", "use amqp_codec::{Decode, Encode};", ""]
        o.append("pub fn comps() -> Vec<C> {\n    vec![")
        for n, code, sym, table in self.comps:
            fs = ", ".join("F { name: %s, ty: %s, mandatory: %s, default: %s }" % (rs(a), t, str(m).lower(), "Some(%s)" % d if d else "None") for a, t, m, d in table)
            o.append("        C { name: %s, code: %d, sym: %s, fields: vec![%s] }," % (rs(camel(n)), code, rs(sym), fs))
        o.append("    ]\n}")
        o.append("comps! {")
        for n, code, sym, table in self.comps:
            o.append("    %s %d [%s] {}" % (camel(n), code, ", ".join(a for a, _, _, _ in table)))
        o.append("}\nenums! {")
        for n, src, ch in self.enums:
            o.append("    %s { %s }" % (camel(n), ", ".join("%s => %s" % (camel(a), self.lit(src, v)) for a, v in ch)))
        o.append("}")
        for n, opts in self.unions:
            o.append("impl View for p::%s { fn v(&self) -> V { match self {" % n)
            for a, code, sym, k in opts:
                o.append("    p::%s::%s(x) => %s," % (n, a, "View::v(x)" if k == "comp" else "V::desc(%d, View::v(x))" % code))
            o.append("} } }\nimpl FromV for p::%s { fn fv(v: &V) -> Self { let inner = match v { Desc(_, x) => &**x, _ => panic!(\"harness\") }; match code_of(v) {" % n)
            for a, code, sym, k in opts:
                o.append("    %d => p::%s::%s(fv(%s))," % (code, n, a, "v" if k == "comp" else "inner"))
            o.append("    c => panic!(\"harness: {}\", c) } } }")
        o.append("pub fn kinds(o: &mut Vec<Kind>) {")
        for n, code, sym, table in self.comps:
            c = camel(n)
            o.append("    o.push(k!(p::%s, %s, Comp, false, |s| g::comp(s, %s), acc_k::<p::%s>));" % (c, rs(c), rs(c), c))
        for n, src, ch in self.enums:
            c = camel(n)
            o.append("    o.push(k!(p::%s, %s, Plain, false, |s| { let i = <p::%s as Items>::items(); let n = s.idx(i.len()); i[n].1.clone() }, no_acc));" % (c, rs(c), c))
        for n, opts in self.unions:
            o.append("    o.push(k!(p::%s, %s, Plain, false, |s| match s.below(%d) {" % (n, rs(n), len(opts)))
            for i, (a, code, sym, k) in enumerate(opts):
                e = {"comp": "g::comp(s, %s)" % rs(a), "Any": "V::desc(%d, g::value(s, 6))" % code, "List": "V::desc(%d, g::list(s, 6))" % code}.get(k) or "V::desc(%d, g::field(s, T::%s))" % (code, k)
                o.append("        %s => %s," % (i if i < len(opts) - 1 else "_", e))
            o.append("    }, no_acc));")
        o.append("}")
        o.append("pub fn enum_values() -> Vec<(&'static str, Vec<V>)> {\n    vec![")
        for n, src, ch in self.enums:
            o.append("        (%s, vec![%s])," % (rs(camel(n)), ", ".join(self.lit(src, v) for _, v in ch)))
        o.append("    ]\n}")
        o.append("/// union, members: code, symbol, composite or not\npub fn unions() -> Vec<(&'static str, Vec<(u64, &'static str, Option<&'static str>)>)> {\n    vec![")
        for n, opts in self.unions:
            o.append("        (%s, vec![%s])," % (rs(n), ", ".join("(%d, %s, %s)" % (c, rs(s), "Some(%s)" % rs(a) if k == "comp" else "None") for a, c, s, k in opts)))
        o.append("    ]\n}\n")
        return "\n".join(o)
