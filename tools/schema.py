"""Schemas the conformance harness is generated for: a fixed core schema which uses every feature
of the derive macro, and seeded random ones."""
import random
import re

INTS = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "i8": 1, "i16": 2, "i32": 4, "i64": 8}
PRIMS = list(INTS) + ["bool"]
KEYSET = [1, 2, 7, 300, 536870911]


class Def:
    """A struct (one variant without a tag) or an enum."""

    def __init__(self, name, kind, variants, state=True, params=(), opts=None, twin=None, hash=True, tuple_=False):
        self.name, self.kind, self.variants, self.state = name, kind, variants, state
        self.params, self.opts, self.twin, self.hash = list(params), dict(opts or {}), twin, hash
        self.tuple = tuple_


def F(tag, name, ty, ns=False, neq=False, nh=False, cs=None):
    return dict(tag=tag, name=name, ty=ty, ns=ns, neq=neq, nh=nh, cs=cs)


def V(tag, name, fields, tuple_=False, opts=None):
    return dict(tag=tag, name=name, fields=fields, tuple=tuple_, opts=dict(opts or {}))


def S(name, fields, state=True, params=(), opts=None, twin=None, hash=True, tuple_=False):
    return Def(name, "struct", [V(None, None, fields, tuple_)], state, params, opts, twin, hash, tuple_)


def E(name, variants, state=True, params=(), opts=None, twin=None, hash=True):
    return Def(name, "enum", variants, state, params, opts, twin, hash)


# Other names of types.
ALIASES = {"Labels": "Map<u8, Point>", "Grid": "List<List<u16>>", "Packed": "Box<Shape>", "Words": "Vec<String>",
           "Wide": "Gen<Point>", "Count": "u32"}


def upper_camel(name):
    return "".join(x[:1].upper() + x[1:] for x in name.split("_"))


# ------------------------------------------------------------------ type expressions

def parse_type(text):
    """'Map<u8,List<Point>>' -> nested tuples."""
    pos = 0

    def ws():
        nonlocal pos
        while pos < len(text) and text[pos] == " ":
            pos += 1

    def ident():
        nonlocal pos
        start = pos
        while pos < len(text) and (text[pos].isalnum() or text[pos] == "_"):
            pos += 1
        return text[start:pos]

    def items(close):
        nonlocal pos
        out = []
        while True:
            out.append(expr())
            ws()
            if text[pos] == ",":
                pos += 1
                ws()
                continue
            assert text[pos] == close, text
            pos += 1
            return out

    def expr():
        nonlocal pos
        ws()
        if text[pos] == "(":
            pos += 1
            return ("tuple", items(")"))
        if text[pos] == "[":
            pos += 1
            t = expr()
            ws()
            assert text[pos] == ";"
            pos += 1
            ws()
            n = int(ident())
            assert text[pos] == "]"
            pos += 1
            return ("array", t, n)
        name = ident()
        assert name, (text, pos)
        if pos < len(text) and text[pos] == "<":
            pos += 1
            return ("app", name, items(">"))
        return ("name", name)

    out = expr()
    assert pos == len(text), text
    return out


def show(t):
    if t[0] == "tuple":
        return "(" + ", ".join(show(x) for x in t[1]) + ")"
    if t[0] == "array":
        return "[%s; %d]" % (show(t[1]), t[2])
    if t[0] == "name":
        return t[1]
    return "%s<%s>" % (t[1], ", ".join(show(x) for x in t[2]))


def subst(t, env):
    if t[0] == "name":
        return env.get(t[1], t)
    if t[0] == "tuple":
        return ("tuple", [subst(x, env) for x in t[1]])
    if t[0] == "array":
        return ("array", subst(t[1], env), t[2])
    return ("app", t[1], [subst(x, env) for x in t[2]])


class Schema:
    def __init__(self, defs, roots, codecs):
        self.defs = {d.name: d for d in defs}
        self.order = [d.name for d in defs]
        self.root_types = [show(parse_type(t)) for t in roots]
        self.codec_types = [show(parse_type(t)) for t in codecs]
        self.inst = {}      # instance name -> (Def, env)
        self.table = {}     # instance name -> json def
        for name in self.order:
            if not self.defs[name].params:
                self.need(("name", name))
        for t in self.root_types + self.codec_types:
            self.desc(parse_type(t))

    # -- resolution
    def need(self, t):
        name = show(t)
        if name in self.inst:
            return name
        d = self.defs[t[1]]
        env = dict(zip(d.params, t[2] if t[0] == "app" else []))
        self.inst[name] = (d, env)
        self.table[name] = None
        variants = []
        for v in d.variants:
            fields = []
            for f in v["fields"]:
                ft = subst(parse_type(f["ty"]), env)
                fields.append(dict(tag=f["tag"], t=self.desc(ft), ns=bool(f["ns"]) or not d.state,
                                   neq=bool(f["neq"]), nh=bool(f["nh"]), name=f["name"], rt=show(ft),
                                   cs=upper_camel(f["cs"] or f["name"].replace("r#", ""))))
            variants.append(dict(tag=-1 if v["tag"] is None else v["tag"], fields=fields,
                                 cs=v["opts"].get("csharp_name") or v["name"] or ""))
        self.table[name] = dict(kind=d.kind, state=d.state, variants=variants, rust=d.name,
                                cs=d.opts.get("csharp_name", d.name), builtin=bool(getattr(d, "builtin", False)),
                                args=[self.desc(env[p]) for p in d.params], meta=not d.opts.get("no_meta"))
        return name

    def has_meta(self, d, seen=()):
        """Does a type describe itself to generators?"""
        k = d["k"]
        if k in ("tuple", "hashmap"):
            return False
        if k == "ref":
            if d["n"] in seen:
                return True
            x = self.table[d["n"]]
            return x["meta"] and all(self.has_meta(f["t"], seen + (d["n"],)) for v in x["variants"] for f in v["fields"])
        return self.has_meta(d["t"], seen) if "t" in d else True

    def desc(self, t):
        if t[0] == "tuple":
            return dict(k="tuple", ts=[self.desc(x) for x in t[1]])
        if t[0] == "array":
            return dict(k="array", n=t[2], t=self.desc(t[1]))
        if t[0] == "name":
            if t[1] in ALIASES:
                return self.desc(parse_type(ALIASES[t[1]]))
            if t[1] in PRIMS:
                return dict(k=t[1])
            if t[1] == "String":
                return dict(k="string")
            if t[1] == "Bytes":
                return dict(k="bytes")
            return dict(k="ref", n=self.need(t))
        name, args = t[1], t[2]
        if name == "Option":
            return dict(k="option", t=self.desc(args[0]))
        if name == "Vec":
            return dict(k="vec", t=self.desc(args[0]))
        if name == "Box":
            return dict(k="box", t=self.desc(args[0]))
        if name == "List":
            return dict(k="list", t=self.desc(args[0]))
        if name == "HashMap":
            return dict(k="hashmap", key=self.desc(args[0]), t=self.desc(args[1]))
        if name == "Map":
            key = show(args[0])
            keys = KEYSET if key == "Key" else {"u8": [-255], "u16": [-65535], "u32": [-536870911]}[key]
            return dict(k="map", keys=keys, t=self.desc(args[1]))
        return dict(k="ref", n=self.need(t))

    # -- hashing: maps have no hash
    def hashable(self, d, seen=()):
        k = d["k"]
        if k in ("map", "hashmap"):
            return False
        if k == "tuple":
            return all(self.hashable(x, seen) for x in d["ts"])
        if k == "ref":
            if d["n"] == "LogEntry":
                return False
            if d["n"] in seen:
                return True
            seen = seen + (d["n"],)
            return all(f["neq"] or f["nh"] or self.hashable(f["t"], seen)
                       for v in self.table[d["n"]]["variants"] for f in v["fields"])
        return self.hashable(d["t"], seen) if "t" in d else True

    def can_hash(self, name):
        """Whether a definition can derive Hash: its type parameters may get in the way of single instances only."""
        d = self.defs[name]
        return any(self.hashable(dict(k="ref", n=i)) for i, (x, _) in self.inst.items() if x is d)

    def json(self):
        types = {}
        for t in sorted(set(self.root_types + self.codec_types + list(self.inst))):
            types[t] = self.desc(parse_type(t))
        # The tags which the parts of a definition have set aside.
        reserved = {n: sorted({t for o in [d.opts] + [v["opts"] for v in d.variants] for t in o.get("reserved_tags", [])})
                    for n, d in self.defs.items()}
        return dict(defs=self.table, types=types, reserved={n: r for n, r in reserved.items() if r}, roots=self.root_types, codecs=self.codec_types,
                    twins=dict({n: d.twin for n, d in self.defs.items() if d.twin},
                               **{t: b for t, b in TWIN_ROOTS.items() if t in self.root_types}))


MAYBE = E("Maybe", [V(0, "None", [], opts={"no_size_cache": True}), V(1, "Some", [F(0, "f0", "T", cs="value")])], params=["T"])
MAYBE.builtin = True
PATH = F(0, "flatten_path", "Vec<u32>")
ENTRY = E("LogEntry", [V(0, "Update", [PATH, F(1, "value", "Bytes")]), V(8, "ListPush", [PATH, F(1, "item", "Bytes")]),
                       V(9, "ListPop", [PATH]), V(12, "MapRemove", [PATH, F(1, "key", "u32")])], state=False)
ENTRY.builtin = True


def core_defs():
    point = [F(0, "x", "i32"), F(1, "y", "i32"), F(2, "z", "i32")]
    shape = [
        V(0, "Empty", []),
        V(1, "Circle", [F(0, "r", "u32")]),
        V(2, "Rect", [F(0, "a", "Point"), F(1, "b", "Point"), F(2, "n", "u8")]),
        V(7, "Many", [F(0, "l", "List<i16>"), F(1, "m", "Map<u8, Point>"), F(2, "e", "Maybe<u8>"),
                      F(3, "skip", "u32", ns=True)]),
        V(300, "Pair", [F(0, "f0", "u8"), F(4, "f1", "Point")], tuple_=True),
    ]
    gen = [F(0, "v", "T"), F(1, "l", "List<T>"), F(2, "n", "u8")]
    inner = [F(0, "p", "Point"), F(1, "s", "Shape"), F(2, "l", "List<Point>")]
    popt = [F(0, "a", "Option<u8>"), F(1, "b", "Vec<u32>"), F(2, "c", "[i8; 3]"), F(3, "d", "Box<u16>"),
            F(4, "e", "Option<Option<u8>>"), F(5, "f", "Vec<Pt>"), F(6, "g", "Vec<PEnum>"),
            F(7, "h", "Option<PEnum>"), F(8, "i", "Bytes"), F(9, "j", "Option<Pt>"),
            F(10, "k", "Box<Pt>"), F(11, "l", "Vec<String>"), F(12, "m", "Option<Vec<u8>>"),
            F(13, "n", "[Pt; 2]"), F(14, "o", "Vec<Vec<i16>>")]
    return [
        MAYBE,
        ENTRY,
        # -- plain messages
        S("Pt", [F(0, "x", "u8"), F(1, "y", "i16")], state=False),
        E("PEnum", [
            V(0, "Zero", []),
            V(1, "One", [F(0, "a", "u32"), F(1, "b", "String")]),
            V(5, "Five", [F(0, "f0", "i8"), F(3, "f1", "Pt")], tuple_=True),
        ], state=False),
        S("PWide", [F(9, "a", "u8"), F(0, "b", "u16"), F(1, "c", "u32"), F(2, "d", "u64"), F(3, "e", "i8"),
                    F(15, "f", "i16"), F(16, "g", "i32"), F(2047, "h", "i64"), F(2048, "i", "bool"),
                    F(536870911, "j", "u8")], state=False),
        S("POpt", popt, state=False),
        S("PTup", [F(0, "a", "(u8, String)"), F(1, "b", "HashMap<u8, Pt>"), F(2, "c", "Vec<(i16, Pt, bool)>")],
          state=False, opts={"no_meta": True}, hash=False),
        S("PNew", [F(3, "f0", "u32"), F(1, "f1", "PEnum")], state=False, tuple_=True),
        S("PUnit", [], state=False),
        S("PGen", [F(0, "t", "T"), F(1, "u", "Vec<T>")], state=False, params=["T"]),
        S("PBox", [F(0, "a", "Box<T>"), F(1, "b", "Box<u8>"), F(2, "c", "Box<String>"), F(3, "d", "Box<Box<i16>>"),
                   F(4, "e", "Option<Box<u32>>"), F(5, "f", "Words"), F(6, "g", "[T; 2]")], state=False, params=["T"]),
        # -- states
        S("Point", point),
        S("Prims", [F(9, "a", "u8"), F(0, "b", "u16"), F(1, "c", "u32"), F(2, "d", "u64"), F(3, "e", "i8"),
                    F(15, "f", "i16"), F(16, "g", "i32"), F(2047, "h", "i64"), F(2048, "i", "bool"),
                    F(536870911, "j", "u8"), F(268435456, "k", "Point")]),
        S("Strs", [F(0, "name", "String", ns=True), F(1, "blob", "Bytes", ns=True), F(2, "n", "u32"),
                   F(3, "opt", "Option<Pt>", ns=True), F(4, "l", "List<u8>"), F(5, "p", "Point", ns=True),
                   F(6, "vs", "Vec<u16>", ns=True)]),
        E("Shape", shape),
        S("Inner", inner),
        S("Root", [
            F(0, "a", "i32"), F(1, "b", "bool"), F(2, "p", "Point"), F(3, "i", "Inner"), F(4, "s", "Shape"),
            F(5, "ln", "List<i32>"), F(6, "lp", "List<Point>"), F(7, "ls", "List<Shape>"),
            F(8, "ll", "List<List<u16>>"), F(9, "mu", "Map<u8, u32>"), F(10, "mp", "Map<u16, Inner>"),
            F(11, "ms", "Map<u32, Shape>"), F(12, "ml", "Map<u8, List<i8>>"), F(13, "mb", "Maybe<Point>"),
            F(14, "bx", "Box<Inner>"), F(15, "bp", "Box<u32>"), F(16, "ns", "u32", ns=True),
            F(17, "nsp", "Point", ns=True), F(18, "st", "Strs"),
        ], hash=False),
        S("Tree", [F(0, "v", "u8"), F(1, "kids", "List<Tree>")]),
        S("MTree", [F(0, "v", "i8"), F(1, "m", "Map<u8, MTree>")], hash=False),
        S("Chain", [F(0, "v", "u16"), F(1, "next", "Maybe<Box<Chain>>")]),
        S("Gen", gen, params=["T"]),
        E("GE", [V(0, "Nil", []), V(1, "One", [F(0, "v", "T")]), V(2, "Two", [F(0, "a", "T"), F(1, "b", "List<T>")])],
          params=["T"]),
        S("KMap", [F(1, "m", "Map<Key, Point>"), F(2, "n", "Map<Key, u8>"), F(3, "s", "Map<Key, Shape>")],
          opts={"no_meta": True}, hash=False),
        S("Eqs", [F(0, "a", "u8"), F(1, "b", "u8", nh=True), F(2, "c", "u8", neq=True), F(3, "l", "List<u8>"),
                  F(4, "p", "Point", neq=True), F(5, "q", "Point", nh=True), F(6, "e", "EqE"),
                  F(7, "s", "String", ns=True, nh=True), F(8, "t", "u16", neq=True, nh=True)]),
        E("EqE", [V(0, "A", [F(0, "a", "u8", neq=True, cs="first"), F(1, "b", "u8")]),
                  V(1, "B", [F(0, "a", "u8"), F(1, "b", "u8", nh=True, cs="second")]),
                  V(2, "C", [F(0, "f0", "u8", neq=True), F(1, "f1", "Point")], tuple_=True)]),
        S("EqM", [F(0, "m", "Map<u8, Eqs>"), F(1, "x", "u8", neq=True)], hash=False),
        S("Wrap", [F(0, "f0", "u8"), F(9, "f1", "List<Point>"), F(4, "f2", "Shape")], tuple_=True),
        S("Unit", []),
        # Reachable only through what is boxed, or by other names.
        S("Leaf", [F(0, "x", "Count"), F(3, "l", "Labels")], hash=False),
        S("Box1", [F(2, "leaf", "Leaf"), F(1, "b", "Box<bool>")], hash=False),
        S("Boxes", [F(0, "b", "Box<Box1>"), F(1, "n", "Box<i64>"), F(2, "g", "Grid"), F(3, "p", "Packed"),
                    F(4, "w", "Wide"), F(5, "m", "Map<u8, Box<u16>>"), F(6, "l", "List<Box<ME>>"), F(7, "t", "Maybe<Labels>"),
                    F(8, "ws", "Words", ns=True)], hash=False),
        S("Names", [F(0, "value", "u8"), F(1, "tag", "Point"), F(2, "size", "List<u8>"), F(3, "path", "u16", cs="route"),
                    F(4, "kind", "u8"), F(5, "key", "Maybe<u8>"), F(6, "reader", "u8"), F(7, "writer", "u8"),
                    F(8, "state", "u8"), F(9, "other", "Point"), F(10, "field_number", "u8"),
                    F(11, "wire_type", "u8", cs="wire"), F(12, "number", "u8"), F(13, "r#type", "u16")]),
        E("NamesE", [
            V(0, "A", [F(0, "value", "u8"), F(1, "tag", "Point"), F(2, "size", "List<u8>"), F(3, "path", "u16", cs="route"),
                       F(4, "kind", "u8"), F(5, "key", "Maybe<u8>"), F(6, "reader", "u8"), F(7, "writer", "u8"),
                       F(8, "state", "u8"), F(9, "other", "Point"), F(10, "field_number", "u8"),
                       F(11, "wire_type", "u8", cs="wire"), F(12, "number", "u8", ns=True), F(13, "r#type", "u16")]),
            V(1, "B", [F(0, "runtime", "u8"), F(1, "self_value", "u8"), F(2, "x", "u8"), F(3, "other_x", "u8"),
                       F(4, "size_cache", "Point")], opts={"runtime_renamed": "rt", "size_cache_renamed": "sc"}),
        ]),
        # The variant to start with isn't the one which comes first.
        E("Late", [V(6, "Third", [F(0, "p", "Point")]), V(0, "Base", [F(2, "n", "u16"), F(0, "l", "List<u8>")]),
                   V(2, "Other", [F(0, "n", "u8")])]),
        E("PLate", [V(3, "Last", [F(0, "a", "u8")]), V(0, "First", [F(1, "b", "String")]), V(1, "Mid", [])], state=False),
        # Reachable only as what something generic is used with.
        S("OnlyA", [F(0, "x", "u8")]),
        S("OnlyB", [F(0, "e", "Late"), F(2, "p", "PLate", ns=True)]),
        # Named like what the generated code has, or may not have.
        S("Lock1", [F(0, "event", "u8"), F(1, "object", "Lock3")], opts={"csharp_name": "Lock"}),
        S("Lock3", [F(4, "x", "u8"), F(0, "params", "Maybe<Lock2>")], opts={"csharp_name": "Reader"}),
        S("Lock2", [F(0, "was", "bool")], opts={"csharp_name": "Is"}),
        S("OnlyC", [F(1, "x", "i8")]),
        S("Both", [F(0, "a", "Gen<OnlyA>"), F(1, "b", "Gen<OnlyB>"), F(5, "m", "Map<u8, Maybe<OnlyC>>"),
                   F(6, "n", "Maybe<u8>")], hash=False),
        # -- small ones, which are explored exhaustively
        S("MP", [F(0, "x", "u8")]),
        E("ME", [V(0, "A", []), V(1, "B", [F(0, "x", "u8")]), V(2, "C", [F(0, "p", "MP"), F(1, "l", "List<u8>")])]),
        S("MS", [F(0, "x", "bool"), F(1, "e", "ME"), F(2, "n", "u8", ns=True), F(3, "q", "MP", ns=True)]),
        S("MD", [F(0, "e", "ME"), F(1, "l", "List<MP>"), F(2, "m", "Map<u8, MP>"), F(3, "p", "MP"), F(4, "b", "Box<ME>"),
                 F(5, "o", "Maybe<MP>"), F(6, "le", "List<ME>")], hash=False),
        # -- the same schemas with attributes which only tune the generated code
        S("PointTw", point, twin="Point",
          opts={"size_cache_renamed": "sc", "runtime_renamed": "rt", "ctor_prefix": "make", "reserved_tags": [3, 9],
                "csharp_name": "Vec3", "derive_setters": True}),
        E("ShapeTw", [dict(v, opts=o) for v, o in zip(shape, [
            {"no_size_cache": True}, {"csharp_name": "Disc", "reserved_tags": [4]},
            {"size_cache_renamed": "sc2", "runtime_renamed": "rt2"}, {}, {"no_size_cache": True}])],
          twin="Shape", opts={"size_cache_renamed": "sc", "runtime_renamed": "rt", "ctor_prefix": "build",
                              "reserved_tags": [3, 99], "csharp_name": "Figure"}),
        S("InnerTw", inner, twin="Inner", opts={"no_size_cache": True, "no_meta": True}),
        S("GenPoint", [dict(f, ty=f["ty"].replace("T", "Point")) for f in gen], twin="Gen<Point>"),
        S("TreeTw", [F(0, "v", "u8", cs="val"), F(1, "kids", "List<TreeTw>", cs="children")], twin="Tree",
          opts={"no_size_cache": True, "derive_ctors": True, "ctor_prefix": "grow"}),
        S("WrapTw", [F(0, "f0", "u8"), F(9, "f1", "List<Point>"), F(4, "f2", "Shape")], tuple_=True, twin="Wrap",
          opts={"no_size_cache": True, "reserved_tags": [1, 2, 3]}),
        S("PWideTw", [F(9, "a", "u8"), F(0, "b", "u16"), F(1, "c", "u32"), F(2, "d", "u64"), F(3, "e", "i8"),
                      F(15, "f", "i16"), F(16, "g", "i32"), F(2047, "h", "i64"), F(2048, "i", "bool"),
                      F(536870911, "j", "u8")], state=False, twin="PWide",
          opts={"no_size_cache": True, "no_meta": True, "derive_setters": True, "reserved_tags": [77]}),
        S("POptTw", popt, state=False, twin="POpt", opts={"no_size_cache": True, "ctor_prefix": "blank"}),
        E("PEnumTw", [
            V(0, "Zero", [], opts={"no_size_cache": True}),
            V(1, "One", [F(0, "a", "u32"), F(1, "b", "String")]),
            V(5, "Five", [F(0, "f0", "i8"), F(3, "f1", "Pt")], tuple_=True),
        ], state=False, twin="PEnum", opts={"size_cache_renamed": "zz", "ctor_prefix": "mk", "csharp_name": "PlainEnum"}),
    ]


CORE_ROOTS = [
    "Point", "Prims", "Strs", "Shape", "Inner", "Root", "Tree", "MTree", "Chain", "Gen<u8>", "Gen<Point>", "Gen<Shape>",
    "GE<u16>", "GE<Point>", "GE<Shape>", "KMap", "Eqs", "EqE", "EqM", "Wrap", "Unit", "Boxes", "Names", "NamesE",
    "Late", "Both", "Lock1", "List<Late>", "Map<u8, Late>", "Maybe<Late>",
    "PointTw", "ShapeTw", "InnerTw", "GenPoint", "TreeTw", "WrapTw",
    "List<i32>", "List<Point>", "List<Shape>", "List<List<u16>>", "List<Maybe<Shape>>", "List<Box<Point>>", "List<bool>",
    "List<Map<u8, Point>>", "List<Strs>",
    "Map<u8, u32>", "Map<u16, Point>", "Map<u32, Shape>", "Map<Key, Shape>", "Map<Key, i64>", "Map<u8, Map<u16, u8>>",
    "Map<u8, Maybe<List<u8>>>", "Map<u16, Box<Shape>>", "MP", "ME", "MS", "MD", "List<MP>", "List<ME>", "Map<u8, MP>",
    "Map<u8, ME>", "List<List<u8>>", "Map<u8, List<MP>>", "List<Map<u8, MP>>", "Map<Key, MP>", "Maybe<ME>", "Box<ME>",
    "List<MS>", "Maybe<List<MP>>", "List<Box<MP>>", "List<bool>", "Map<u8, bool>",
    "Maybe<Point>", "Maybe<u8>", "Maybe<Maybe<u8>>", "Maybe<List<Point>>", "Box<Point>", "Box<Shape>", "Box<List<u8>>",
]

# Twins by what they are made of.
TWIN_ROOTS = {"List<ShapeTw>": "List<Shape>", "List<PointTw>": "List<Point>", "Map<u16, PointTw>": "Map<u16, Point>",
              "Map<u32, ShapeTw>": "Map<u32, Shape>", "Maybe<PointTw>": "Maybe<Point>", "Gen<ShapeTw>": "Gen<Shape>",
              "GE<PointTw>": "GE<Point>", "Box<ShapeTw>": "Box<Shape>"}
CORE_ROOTS += list(TWIN_ROOTS)

CORE_CODECS = PRIMS + [
    "String", "Bytes", "Option<u8>", "Option<bool>", "Option<String>", "Option<Pt>", "Option<Option<i16>>", "Vec<u8>",
    "Vec<i64>", "Vec<String>", "Vec<Pt>", "Vec<Option<u8>>", "[u8; 1]", "[i16; 2]", "[bool; 3]", "[Pt; 4]", "[u64; 5]",
    "[String; 6]", "[i8; 7]", "(u8, i16)", "(bool, String, Pt)", "(u8, u8, u8, u8)", "(i64, u64, i8, u16, bool)",
    "(Pt, Vec<u8>, Option<u8>, u8, i8, String)", "(u8, u16, u32, u64, i8, i16, i32)", "HashMap<u8, i16>",
    "HashMap<String, Pt>", "HashMap<i16, Vec<u8>>", "Box<u32>", "Box<i64>", "Box<Pt>", "Box<String>", "Option<Box<Pt>>",
    "Vec<Box<u16>>", "Pt", "PEnum", "PWide", "POpt", "PTup", "PNew", "PUnit", "PGen<u8>", "PGen<Pt>", "PGen<PEnum>",
    "PGen<String>", "PBox<u16>", "PBox<Pt>", "PLate", "Vec<PLate>", "Option<PLate>",
    "PWideTw", "PEnumTw", "POptTw", "LogEntry",
]


# ------------------------------------------------------------------ random schemas

def random_defs(seed, count):
    rng = random.Random(seed)
    defs, names, enums = [], ["Point"], ["Shape"]

    def tags(n):
        pool = list(range(0, 20)) + [127, 128, 2047, 2048, 16383, 2 ** 20, 2 ** 28, 2 ** 29 - 1]
        return rng.sample(pool, n)

    def state_type(depth):
        k = rng.randrange(10)
        if k < 3 or depth <= 0:
            return rng.choice(PRIMS)
        if k < 5:
            return rng.choice(names + enums)
        if k == 5:
            return "List<%s>" % state_type(depth - 1)
        if k == 6:
            return "Map<%s, %s>" % (rng.choice(["u8", "u16", "u32", "Key"]), state_type(depth - 1))
        if k == 7:
            return "Maybe<%s>" % state_type(depth - 1)
        if k == 8:
            return "Box<%s>" % state_type(depth - 1)
        return "List<%s>" % rng.choice(names + enums)

    def plain_type(depth):
        k = rng.randrange(8)
        if k < 3 or depth <= 0:
            return rng.choice(PRIMS + ["String", "Bytes"])
        return rng.choice(["Option<%s>", "Vec<%s>", "Box<%s>", "[%s; 2]", "[%s; 5]"]) % plain_type(depth - 1)

    def fields(n, tup):
        out = []
        for i, tag in enumerate(tags(n)):
            name = "f%d" % i if tup else "a%d" % i
            if rng.random() < 0.15:
                out.append(F(tag, name, plain_type(2), ns=True))
            else:
                out.append(F(tag, name, state_type(2), ns=rng.random() < 0.08))
        return out

    def opts():
        o = {}
        if rng.random() < 0.3:
            o["csharp_name"] = "C%d" % len(names + enums)
        if rng.random() < 0.3:
            o["no_size_cache"] = True
        if rng.random() < 0.3:
            o["ctor_prefix"] = "mk"
        if rng.random() < 0.3:
            o["runtime_renamed"] = "rrr"
        return o

    for i in range(count):
        name = "R%d" % i
        if rng.random() < 0.6:
            tup = rng.random() < 0.25
            defs.append(S(name, fields(rng.randrange(1, 6), tup), opts=opts(), hash=False, tuple_=tup))
            names.append(name)
        else:
            vs = []
            vtags = [0] + rng.sample([1, 2, 3, 7, 127, 128, 300, 2 ** 21, 2 ** 29 - 1], rng.randrange(1, 4))
            rng.shuffle(vtags)
            for j, tag in enumerate(vtags):
                n = rng.randrange(0, 4)
                tup = n > 0 and rng.random() < 0.3
                vs.append(V(tag, "V%d" % j, fields(n, tup), tup))
            defs.append(E(name, vs, opts=opts(), hash=False))
            enums.append(name)
    return defs


def random_twins(seed, defs):
    """The same schemas with random attributes which only tune the generated code."""
    rng = random.Random(seed * 7 + 1)
    there = {d.name for d in defs} | {"Point", "Shape"}
    out = []

    def other(ty):
        return re.sub(r"\b(\w+)\b", lambda m: m[1] + "Tw" if m[1] in there and rng.random() < 0.7 else m[1], ty)

    def field(f):
        return dict(f, ty=other(f["ty"]), cs="c%s" % f["name"] if rng.random() < 0.2 else f["cs"])

    def reserved(tags):
        return rng.sample([t for t in list(range(30)) + [126, 2 ** 29 - 2] if t not in tags], rng.randrange(1, 5))

    for d in defs:
        o = {}
        if rng.random() < 0.4:
            o["csharp_name"] = "D" + d.name
        if rng.random() < 0.5:
            o["no_size_cache"] = True
        elif rng.random() < 0.4:
            o["size_cache_renamed"] = "cached"
        if rng.random() < 0.4:
            o["ctor_prefix"] = "set_up"
        if rng.random() < 0.4:
            o["runtime_renamed"] = "rrr"
        vs = []
        for v in d.variants:
            vo = dict(v["opts"])
            if d.kind == "enum" and rng.random() < 0.3:
                vo["reserved_tags"] = reserved({f["tag"] for f in v["fields"]})
            if d.kind == "enum" and rng.random() < 0.3:
                vo["no_size_cache"] = True
            vs.append(dict(v, fields=[field(f) for f in v["fields"]], opts=vo))
        if rng.random() < 0.4:
            o["reserved_tags"] = reserved({v["tag"] for v in vs} if d.kind == "enum" else {f["tag"] for f in vs[0]["fields"]})
        t = Def(d.name + "Tw", d.kind, vs, d.state, d.params, o, d.name, d.hash, d.tuple)
        out.append(t)
    return out


def core(seed=None, count=0, twins=False):
    defs = core_defs()
    roots = list(CORE_ROOTS)
    if seed is not None:
        extra = random_defs(seed, count)
        if twins:
            extra += random_twins(seed, extra)
        defs += extra
        roots += [d.name for d in extra]
    return Schema(defs, roots, CORE_CODECS)
