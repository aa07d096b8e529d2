"""An interpreter of the part of C# in which the client runtime and generated clients are written.

It resolves names, types and overloads statically, like a compiler (`CsError`), per instantiation of a generic,
turns each body into closures, and runs them with the semantics of C# (sizes of integers, boxing, nullables,
null references, exceptions, static constructors, reflection as far as the client needs it). The class library is
`cs/prelude.cs`; its members without a body are at the end of this file.
"""
import os
import re
import sys

import csparse

HERE = os.path.dirname(os.path.abspath(__file__))
ALIAS = {"bool": "Boolean", "byte": "Byte", "sbyte": "SByte", "char": "Char", "short": "Int16", "ushort": "UInt16", "int": "Int32",
         "uint": "UInt32", "long": "Int64", "ulong": "UInt64", "string": "String", "object": "Object", "void": "Void", "decimal": "Decimal",
         "double": "Double", "float": "Single"}
NUM = {"Byte": (8, False), "SByte": (8, True), "Int16": (16, True), "UInt16": (16, False), "Int32": (32, True), "UInt32": (32, False),
       "Int64": (64, True), "UInt64": (64, False), "Char": (16, False)}


# What the real class library has, and the one here does not.
ELSEWHERE = set("""Math Convert Enumerable Array Buffer BitConverter GC Activator Debug Trace Interlocked Monitor Thread Task Lazy
    Span ReadOnlySpan Memory ReadOnlyMemory ArraySegment Stack Queue HashSet SortedDictionary SortedList LinkedList Stream MemoryStream
    BinaryReader Environment Random DateTime TimeSpan Guid Tuple ValueTuple WeakReference Attribute Obsolete ObsoleteAttribute
    ConcurrentDictionary ImmutableList ImmutableDictionary StringComparer StringComparison Regex CultureInfo Nullable Delegate
    OverflowException FormatException EndOfStreamException IOException InvalidDataException ApplicationException SystemException
    InvalidCastException IndexOutOfRangeException ArgumentOutOfRangeException ArgumentNullException ArgumentException Comparer
    IComparer IEqualityComparer EqualityComparer IEquatable IComparable Comparison Predicate Action Func Serializable Flags
    MethodImpl Conditional DebuggerDisplay CompilerGenerated NonSerialized ThreadStatic IAsyncEnumerable Volatile Unsafe""".split())


class CsError(Exception):
    """What a compiler would refuse."""

    def __init__(self, code, msg, file="", line=0):
        super().__init__("%s: %s (%s:%s)" % (code, msg, os.path.basename(file), line))
        self.code, self.msg, self.file, self.line = code, msg, file, line


class CsMissing(CsError):
    """As far as is known here: the real class library may well have it."""


class Unsupported(Exception):
    """C# which this interpreter doesn't know."""


class Hang(Exception):
    pass


class CsThrow(Exception):
    def __init__(self, obj):
        super().__init__(obj.t.name)
        self.obj = obj

    def __str__(self):
        o = self.obj
        return "%s: %s" % (o.t.name, o.fields.get("message"))


# ---------------------------------------------------------------- values
class Obj:
    __slots__ = ("t", "fields", "n")

    def __init__(self, t):
        self.t, self.fields, self.n = t, {}, None


class Arr:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Box:
    """A value of a value type as an object."""
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Deleg:
    __slots__ = ("t", "fs")

    def __init__(self, t, fs):
        self.t, self.fs = t, fs

    def call(self, args):
        r = None
        for f in self.fs:
            r = f(args)
        return r


class Ref:
    __slots__ = ("get", "set")

    def __init__(self, get, set):
        self.get, self.set = get, set


# ---------------------------------------------------------------- types
class Decl:
    def __init__(self, node, ns, outer):
        self.name, self.ns, self.outer, self.kind = node["name"], ns, outer, node["d"]
        self.params = list(node["params"])
        self.all = (outer.all if outer else []) + self.params
        self.full = (outer.full + "+" if outer else (ns + "." if ns else "")) + self.name + ("`%d" % len(self.params) if self.params else "")
        self.nodes = []
        self.nested = {}
        self.usings = []
        self.file = outer.file if outer else ""


class Type:
    """A closed type: a declaration with arguments, an array or a tuple."""

    def __init__(self, u, decl, args, kind=None):
        self.u, self.decl, self.args = u, decl, args
        self.kind = kind or decl.kind
        self.env = dict(zip(decl.all, args)) if decl else {}
        self.short = decl.name if decl else kind
        self.num = None
        self._members = None
        self._bases = None
        self.state = 0
        self.statics = {}
        self.obj = None
        self.codes = {}
        system = decl is not None and decl.ns == "System" and decl.outer is None
        if system and decl.name in NUM:
            self.num = NUM[decl.name]
        self.isref = self.kind in ("class", "interface", "delegate", "array", "null")
        self.is_null = self.kind == "null"
        self.enum = self.kind == "enum"
        self.nullable = system and decl.name == "Nullable"
        self.user_struct = self.kind == "struct" and not system
        if self.enum:
            self.isref = False

    @property
    def name(self):
        if self.kind == "array":
            return self.args[0].name + "[]"
        if self.kind == "tuple":
            return "(%s)" % ", ".join(a.name for a in self.args)
        if self.is_null:
            return "null"
        n = self.decl.full.replace("+", ".")
        n = re.sub(r"`\d+", "", n)
        return n + ("<%s>" % ", ".join(a.name for a in self.args) if self.args else "")

    @property
    def full(self):
        """As `Type.FullName`."""
        if self.kind == "array":
            return self.args[0].full + "[]"
        if self.kind == "tuple":
            return "System.ValueTuple`%d" % len(self.args)
        return self.decl.full + ("[%s]" % ",".join("[%s]" % a.full for a in self.args) if self.args else "")

    def __repr__(self):
        return self.name

    # bases, nearest first; interfaces included
    @property
    def base(self):
        return self.bases()[0]

    def interfaces(self):
        return self.bases()[1]

    def bases(self):
        if self._bases is None:
            u = self.u
            base, ifs = None, []
            if self.kind == "array":
                base = u.system("Array")
                e = self.args[0]
                ifs = [u.generic("IList", e), u.generic("IReadOnlyList", e)]
            elif self.kind in ("tuple", "null"):
                base = None
            else:
                self._bases = (u.OBJECT if self is not u.OBJECT and self.kind != "interface" else None, [])
                for node in self.decl.nodes:
                    for b in node["bases"]:
                        t = u.resolve(b, self, None, node)
                        if t.kind == "interface":
                            ifs.append(t)
                        elif base is None:
                            base = t
                        elif base is not t:
                            raise CsError("CS1721", "%s has several base classes" % self.name, self.decl.file, node["line"])
                if base is None and self is not u.OBJECT and self.kind != "interface":
                    base = u.OBJECT
            allifs = []

            def add(t):
                if t not in allifs:
                    allifs.append(t)
                    for x in t.interfaces():
                        add(x)
            for i in ifs:
                add(i)
            if base is not None:
                for i in base.interfaces():
                    add(i)
            self._bases = (base, allifs)
        return self._bases

    def chain(self):
        out, t = [], self
        while t is not None:
            out.append(t)
            t = t.base
        return out

    def sub(self, other):
        """Whether a reference to this type is one to the other."""
        if self is other or other is self.u.OBJECT:
            return True
        if self.kind == "array" and other.kind == "array":
            a, b = self.args[0], other.args[0]
            return a.isref and b.isref and a.sub(b)
        if other in self.chain() or other in self.interfaces():
            return True
        if other.kind == "interface" and len(other.args) == 1 and other.short in ("IEnumerable", "IReadOnlyList", "IReadOnlyCollection"):
            return any(i.decl is other.decl and i.args[0].isref and i.args[0].sub(other.args[0]) for i in self.interfaces())
        return False

    # ------------------------------------------------------------ members
    def members(self):
        if self._members is None:
            self._members = m = dict(fields={}, props={}, methods={}, ctors=[], indexers=[], order=[], cctor=[], errors=[])
            if self.decl is None:
                return m
            names = {}

            def declare(n, what, node, line):
                if n == self.decl.name and self.kind in ("class", "struct") and what != "method of interface":
                    m["errors"].append(CsError("CS0542", "%s: a member is named like its type" % n, self.decl.file, line))
                if n in names and not (what == names[n] == "method"):
                    m["errors"].append(CsError("CS0102", "%s already contains %s" % (self.name, n), self.decl.file, line))
                names.setdefault(n, what)
            for node in self.decl.nodes:
                if self.enum:
                    continue
                for x in node["members"]:
                    k = x["m"]
                    if k == "field":
                        for name, init in x["decls"]:
                            declare(name, "field", node, x["line"])
                            f = Field(self, name, x, init, node)
                            m["fields"][name] = f
                            m["order"].append(f)
                    elif k == "property":
                        declare(x["name"], "property", node, x["line"])
                        p = Prop(self, x, node)
                        m["props"][x["name"]] = p
                        m["order"].append(p)
                    elif k == "method":
                        declare(x["name"], "method", node, x["line"])
                        m["methods"].setdefault(x["name"], []).append(Method(self, x, node))
                    elif k == "indexer":
                        m["indexers"].append(Prop(self, x, node))
                    elif k == "ctor":
                        me = Method(self, x, node, ctor=True)
                        if "static" in x["mods"]:
                            m["cctor"].append(me)
                        else:
                            m["ctors"].append(me)
                    elif k == "type":
                        d = x["decl"]
                        if (d["name"], len(d["params"])) in names and "partial" not in d.get("mods", ()):
                            m["errors"].append(CsError("CS0102", "%s already contains %s" % (self.name, d["name"]), self.decl.file, d["line"]))
                        names[d["name"], len(d["params"])] = 1
                        if d["name"] in names:
                            m["errors"].append(CsError("CS0102", "%s already contains %s" % (self.name, d["name"]), self.decl.file, d["line"]))
            if not m["ctors"] and self.kind in ("class", "struct"):
                m["ctors"].append(Method(self, dict(m="ctor", mods={"public"}, params=[], init=None, body=[], line=0), self.decl.nodes[0], ctor=True))
            elif self.kind == "struct" and all(c.params() for c in m["ctors"]):
                m["ctors"].append(Method(self, dict(m="ctor", mods={"public"}, params=[], init=None, body=[], line=0), self.decl.nodes[0], ctor=True))
        return self._members

    def find(self, name):
        """Field, property or methods of that name, in this type or its bases."""
        for t in (self.chain() if self.kind != "interface" else [self] + self.interfaces() + [self.u.OBJECT]):
            m = t.members()
            if name in m["fields"]:
                return m["fields"][name]
            if name in m["props"]:
                return m["props"][name]
            if name in m["methods"]:
                out, seen = [], set()
                for b in (self.chain() if self.kind != "interface" else [self] + self.interfaces() + [self.u.OBJECT]):
                    for me in b.members()["methods"].get(name, []):
                        key = (me.name, tuple(p["ty"] for p in me.params()) if not me.tparams else ("g", len(me.params())))
                        if "override" in me.node["mods"]:
                            pass
                        if key not in seen or me.tparams:
                            seen.add(key)
                            out.append(me)
                return out
        return None

    def indexers(self):
        for t in (self.chain() if self.kind != "interface" else [self] + self.interfaces()):
            if t.members()["indexers"]:
                return t.members()["indexers"]
        return []

    def nested(self, name, n):
        t = self
        while t is not None and t.decl is not None:
            d = t.decl.nested.get((name, n))
            if d is not None:
                return t, d
            t = t.base
        return None

    # ------------------------------------------------------------ initialization
    def init(self):
        """Static fields, then the static constructor, before the first use."""
        if self.state:
            if self.state == 3:
                raise CsThrow(self.failed)
            return
        self.state = 1
        try:
            m = self.members()
            for x in m["order"]:
                if x.static and not x.const:
                    if isinstance(x, Field) or x.auto:
                        self.statics[x.name] = x.initial(None) if x.init else self.u.default(x.ty())
            for c in m["cctor"]:
                c.code()(None, [])
        except CsThrow as e:
            self.state = 3
            self.failed = self.u.exception("TypeInitializationException", str(e), e.obj)
            raise CsThrow(self.failed)
        self.state = 2

    def enums(self):
        if not hasattr(self, "_enums"):
            self._enums = {}
            node = self.decl.nodes[0]
            last = -1
            for n, e in node["values"]:
                if e is not None:
                    c = Comp(self.u, self, None, node).expr(e)
                    last = c.constant()
                else:
                    last += 1
                self._enums[n] = last
        return self._enums

    def underlying(self):
        return self.u.resolve(self.decl.nodes[0]["base"], self, None, self.decl.nodes[0])

    def signature(self):
        node = self.decl.nodes[0]
        return self.u.resolve(node["ret"], self, None, node), [dict(p, ty=self.u.resolve(p["ty"], self, None, node)) for p in node["sig"]]


class Member:
    def __init__(self, owner, node, where):
        self.owner, self.node, self.where = owner, node, where
        self.static = "static" in node["mods"] or "const" in node["mods"]
        self.const = "const" in node["mods"]
        self.line = node["line"]
        self._ty = None

    def ty(self):
        if self._ty is None:
            self._ty = self.owner.u.resolve(self.node["ty"], self.owner, None, self.where, self.line)
        return self._ty

    @property
    def private(self):
        return not (self.node["mods"] & {"public", "internal", "protected"}) and self.owner.kind != "interface"


class Field(Member):
    def __init__(self, owner, name, node, init, where):
        super().__init__(owner, node, where)
        self.name, self.init = name, init
        self.auto = True
        self.event = "event" in node["mods"]
        self.readonly = "readonly" in node["mods"]

    def initial(self, this):
        u = self.owner.u
        if not hasattr(self, "_init"):
            c = Comp(u, self.owner, None, self.where, static=self.static)
            self._init = c.frame(c.convert(c.expr(self.init, self.ty()), self.ty(), self.line))
        return self._init(this)

    def constant(self):
        if not hasattr(self, "_const"):
            c = Comp(self.owner.u, self.owner, None, self.where, static=True)
            e = c.convert(c.expr(self.init, self.ty()), self.ty(), self.line)
            if e.const is NOCONST:
                raise CsError("CS0133", "%s is not constant" % self.name, self.owner.decl.file, self.line)
            self._const = e.const
        return self._const


class Prop(Member):
    def __init__(self, owner, node, where):
        super().__init__(owner, node, where)
        self.name = node.get("name", "this[]")
        self.init = node.get("init")
        acc = node["acc"]
        self.has_get, self.has_set = "get" in acc, "set" in acc
        self.native = "extern" in node["mods"]
        self.abstract = owner.kind == "interface" or "abstract" in node["mods"]
        self.auto = not self.native and not self.abstract and all(acc.get(k) is None for k in ("get", "set") if k in acc)
        self.set_private = "private" in acc.get("mods set", ())
        self.virtual = self.abstract or bool(node["mods"] & {"virtual", "override"})
        self.field = None
        self.event = False
        if self.native:
            self.has_set = self.has_set

    def params(self):
        u = self.owner.u
        if not hasattr(self, "_params"):
            self._params = [dict(p, ty=u.resolve(p["ty"], self.owner, None, self.where, self.line)) for p in self.node.get("params", [])]
        return self._params

    initial = Field.initial

    def accessor(self, which):
        """A Method for a written accessor."""
        key = "_" + which
        if not hasattr(self, key):
            params = list(self.node.get("params", []))
            if which == "set":
                params.append(dict(how="", ty=self.node["ty"], name="value", default=None))
            node = dict(m="method", mods=self.node["mods"] - {"extern"}, ty=self.node["ty"] if which == "get" else ("void", []), tparams=[],
                        name=which + "_" + self.name, params=params, body=self.node["acc"][which], line=self.line)
            setattr(self, key, Method(self.owner, node, self.where))
        return getattr(self, key)

    def getter(self):
        """f(this, args)"""
        if not hasattr(self, "_getter"):
            u, name = self.owner.u, self.name
            if self.native:
                f = native(self.owner, "get " + name, self)
                self._getter = lambda this, args: f(self, this, *args)
            elif self.auto:
                owner = self.owner
                if self.static:
                    def g(this, args):
                        owner.init()
                        return owner.statics[name]
                    self._getter = g
                else:
                    self._getter = lambda this, args: this.fields[name]
            else:
                self._getter = self.accessor("get").code()
        return self._getter

    def setter(self):
        if not hasattr(self, "_setter"):
            name = self.name
            if self.native:
                f = native(self.owner, "set " + name, self)
                self._setter = lambda this, args: f(self, this, *args)
            elif self.auto:
                owner = self.owner
                if self.static:
                    def g(this, args):
                        owner.init()
                        owner.statics[name] = args[-1]
                    self._setter = g
                else:
                    def g(this, args):
                        this.fields[name] = args[-1]
                    self._setter = g
            else:
                self._setter = self.accessor("set").code()
        return self._setter


class Method:
    def __init__(self, owner, node, where, ctor=False, targs=()):
        self.owner, self.node, self.where, self.ctor = owner, node, where, ctor
        self.name = ".ctor" if ctor else node["name"]
        self.tparams = [] if ctor else node["tparams"]
        self.targs = tuple(targs)
        self.static = "static" in node["mods"]
        self.line = node["line"]
        self.env = dict(zip(self.tparams, self.targs))
        self.native = (node["body"] is None) and owner.kind != "interface" and "abstract" not in node["mods"]
        self.virtual = owner.kind == "interface" or bool(node["mods"] & {"virtual", "override", "abstract"})
        self._bound = {}
        self._code = None

    def bind(self, targs):
        targs = tuple(targs)
        if targs not in self._bound:
            self._bound[targs] = Method(self.owner, self.node, self.where, targs=targs)
        return self._bound[targs]

    @property
    def private(self):
        return not (self.node["mods"] & {"public", "internal", "protected"}) and self.owner.kind != "interface"

    @property
    def extension(self):
        p = self.node["params"]
        return self.static and bool(p) and p[0]["how"] == "this"

    def params(self):
        """Parameters with types (type parameters of the method which are not bound are ("!", name))."""
        if not hasattr(self, "_params"):
            u = self.owner.u
            env = self.env if self.targs or not self.tparams else {n: ("!", n) for n in self.tparams}
            self._params = [dict(p, ty=u.resolve(p["ty"], self.owner, env, self.where, self.line)) for p in self.node["params"]]
        return self._params

    def ret(self):
        u = self.owner.u
        if self.ctor:
            return self.owner
        if not hasattr(self, "_ret"):
            env = self.env if self.targs or not self.tparams else {n: ("!", n) for n in self.tparams}
            self._ret = u.resolve(self.node["ty"], self.owner, env, self.where, self.line)
        return self._ret

    def code(self):
        """f(this, args) with all arguments given."""
        if self._code is None:
            if self.native:
                f = native(self.owner, ("new " if self.ctor else "") + (self.owner.short if self.ctor else self.name), self)
                self._code = lambda this, args: f(self, this, *args)
            else:
                cell = []

                def late(this, args):
                    return cell[0](this, args)
                self._code = late
                try:
                    self._code = Comp.function(self)
                except Exception:
                    self._code = None
                    raise
                cell.append(self._code)
        return self._code

    def find_override(self, t):
        """The method of a class which a call of this one reaches."""
        key = (id(self.node), self.owner, self.targs)
        if key not in t.codes:
            ps = [p["ty"] for p in self.params()]
            for c in t.chain():
                for m in c.members()["methods"].get(self.name, []):
                    if m.static or len(m.params()) != len(ps) or len(m.tparams) != len(self.tparams):
                        continue
                    b = m.bind(self.targs) if self.targs else m
                    if [p["ty"] for p in b.params()] == ps and (c.kind != "interface"):
                        t.codes[key] = b
                        break
                if key in t.codes:
                    break
            else:
                t.codes[key] = None
        return t.codes[key]


NOCONST = object()


class E:
    """A compiled expression."""
    __slots__ = ("t", "f", "const", "set", "names", "lambda_", "free", "event")

    def __init__(self, t, f, const=NOCONST, set=None):
        self.t, self.f, self.const, self.set = t, f, const, set
        self.lambda_ = None
        self.event = None

    def constant(self):
        return self.const if self.const is not NOCONST else self.f(None)


class TE:
    def __init__(self, t):
        self.t = t


class NE:
    def __init__(self, name):
        self.name = name


class MG:
    """Methods of a name."""

    def __init__(self, target, t, methods, targs, name, base=False):
        self.target, self.t, self.methods, self.targs, self.name, self.base = target, t, methods, targs, name, base


def const(t, v):
    return E(t, lambda fr: v, v)


def wrap(v, num):
    bits, signed = num
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def fits(v, num):
    bits, signed = num
    return -(1 << bits - 1) <= v < (1 << bits - 1) if signed else 0 <= v < (1 << bits)


class Universe:
    STEPS = 2000000

    def __init__(self):
        self.decls = {}
        self.namespaces = set()
        self.types = {}
        self.steps = 0
        self.log = []
        self.extension_hosts = []
        self.add(open(os.path.join(HERE, "cs", "prelude.cs")).read(), "prelude.cs")
        self.OBJECT = self.system("Object")
        self.NULL = Type(self, None, (), "null")
        for n in ("String", "Boolean", "Int32", "UInt32", "Int64", "UInt64", "Char", "Byte", "Double", "Void", "Type", "Exception"):
            setattr(self, n.upper(), self.system(n))

    # ------------------------------------------------------------ declarations
    def add(self, text, file):
        for node in csparse.parse(text, file):
            self.declare(node, node["ns"].strip("."), None, node["usings"], file)

    def declare(self, node, ns, outer, usings, file):
        table = outer.nested if outer else self.decls
        key = (node["name"], len(node["params"])) if outer else (ns, node["name"], len(node["params"]))
        d = table.get(key)
        if d is None:
            d = table[key] = Decl(node, ns, outer)
            parts = ns.split(".")
            for i in range(len(parts)):
                self.namespaces.add(".".join(parts[:i + 1]))
        elif "partial" not in node["mods"]:
            raise CsError("CS0101", "%s is declared twice" % d.full, file, node["line"])
        d.file = file
        node["usings"], node["file"] = usings, file
        d.nodes.append(node)
        for m in node["members"]:
            if m["m"] == "type":
                self.declare(m["decl"], ns, d, usings, file)
            if m["m"] == "method" and m["params"] and m["params"][0]["how"] == "this" and d not in self.extension_hosts:
                self.extension_hosts.append(d)
        return d

    # ------------------------------------------------------------ types
    def make(self, decl, args):
        key = (decl, tuple(args))
        if key not in self.types:
            self.types[key] = Type(self, decl, tuple(args))
        return self.types[key]

    def system(self, name, *args, ns="System"):
        return self.make(self.decls[ns, name, len(args)], args)

    def generic(self, name, *args):
        return self.system(name, *args, ns="System.Collections.Generic")

    def array(self, t):
        key = ("[]", t)
        if key not in self.types:
            self.types[key] = Type(self, None, (t,), "array")
        return self.types[key]

    def nullable(self, t):
        return self.system("Nullable", t)

    def tuple(self, ts, names):
        key = ("()", tuple(ts), tuple(names))
        if key not in self.types:
            t = self.types[key] = Type(self, None, tuple(ts), "tuple")
            t.names = list(names)
        return self.types[key]

    def type(self, full, *args):
        """A type by its full name, for the drivers."""
        ns, _, name = full.rpartition(".")
        return self.make(self.decls[ns, name, len(args)], args)

    def lookup(self, name, n, cls, env, node):
        """The type a simple name means: (outer type, declaration), a type, a namespace or None."""
        if n == 0 and env and name in env:
            return env[name]
        d = cls
        if cls is not None:
            if n == 0 and name in cls.env:
                return cls.env[name]
            t = cls
            while t is not None and t.decl is not None:
                found = t.nested(name, n)
                if found:
                    return found
                if t.decl.name == name and len(t.decl.params) == n and n == 0 and t.decl.outer is not None:
                    return t
                o = t.decl.outer
                t = self.make(o, t.args[:len(o.all)]) if o else None
        ns = node.get("ns", "").strip(".") if node else ""
        if cls is not None and cls.decl is not None:
            ns = cls.decl.ns
        while True:
            d = self.decls.get((ns, name, n))
            if d is not None:
                return (None, d)
            if n == 0 and (ns + "." if ns else "") + name in self.namespaces:
                return NE((ns + "." if ns else "") + name)
            if not ns:
                break
            ns = ns.rpartition(".")[0]
        usings = cls.decl.nodes[0]["usings"] if cls is not None and cls.decl is not None else node.get("usings", []) if node else []
        if node and "usings" in node:
            usings = node["usings"]
        found = []
        for u in usings:
            if "=" in u:
                a, _, b = u.partition("=")
                if a == name and n == 0:
                    u2, _, b2 = b.rpartition(".")
                    d = self.decls.get((u2, b2, 0))
                    if d:
                        found.append((None, d))
                continue
            d = self.decls.get((u, name, n))
            if d is not None and (None, d) not in found:
                found.append((None, d))
        if len(found) > 1:
            raise CsError("CS0104", "%s is ambiguous" % name, node.get("file", "") if node else "", 0)
        return found[0] if found else None

    def resolve(self, te, cls, env, node, line=0):
        """The type an expression of a type means in a class (and a method)."""
        name, args = te[0], te[1]
        if name == "!":
            return te
        file = (cls.decl.file if cls is not None and cls.decl is not None else "")
        if name == "[]":
            t = self.resolve(args[0], cls, env, node, line)
            return ("[]", t) if isinstance(t, tuple) else self.array(t)
        if name == "?":
            t = self.resolve(args[0], cls, env, node, line)
            if isinstance(t, tuple):
                return ("?", t)
            return t if t.isref else self.nullable(t)
        if name == "()":
            ts = [self.resolve(a, cls, env, node, line) for a in args]
            if any(isinstance(t, tuple) for t in ts):
                raise Unsupported("tuples of type parameters")
            return self.tuple(ts, te[2])
        if name == "void" and not args:
            return self.VOID
        if name in ALIAS and not args and len(te) == 2:
            return self.system(ALIAS[name])
        targs = [self.resolve(a, cls, env, node, line) for a in args]
        if len(te) > 2:
            outer = self.resolve_name(te[2], cls, env, node, line)
            if isinstance(outer, NE):
                d = self.decls.get((outer.name, name, len(args)))
                if d is None:
                    if not args and outer.name + "." + name in self.namespaces:
                        return NE(outer.name + "." + name)
                    if outer.name.split(".")[0] == "System":
                        raise CsMissing("CS0234", "%s.%s" % (outer.name, name), file, line)
                    raise CsError("CS0234", "%s is not in namespace %s" % (name, outer.name), file, line)
                found = (None, d)
            else:
                found = outer.nested(name, len(args))
                if not found:
                    raise CsError("CS0426", "%s has no type %s" % (outer.name, name), file, line)
        else:
            found = self.lookup(name, len(args), cls, env, node)
        if found is None:
            for n in range(5):
                if n != len(args):
                    try:
                        other = self.lookup(name, n, cls, env, node)
                    except CsError:
                        other = None
                    if other is not None and not isinstance(other, NE):
                        raise CsError("CS0305", "%s takes %d type arguments, not %d" % (name, n, len(args)), file, line)
            if name in ELSEWHERE:
                raise CsMissing("CS0246", name, file, line)
            raise CsError("CS0246", "type %s is not found" % name, file, line)
        if isinstance(found, NE):
            return found
        if isinstance(found, Type) or (isinstance(found, tuple) and found[0] == "!"):
            return found
        o, d = found
        targs = list(o.args[:len(o.decl.all)] if o is not None else []) + targs
        if any(isinstance(t, tuple) for t in targs):
            return ("<>", d, tuple(targs))
        if any(t is self.VOID for t in targs):
            raise CsError("CS1547", "void as a type argument", file, line)
        return self.make(d, targs)

    def resolve_name(self, te, cls, env, node, line):
        try:
            return self.resolve(te, cls, env, node, line)
        except CsError:
            if len(te) == 2 and not te[1] and te[0] in self.namespaces:
                return NE(te[0])
            raise

    def subst(self, t, env):
        """An open type with type parameters of a method replaced."""
        if not isinstance(t, tuple):
            return t
        if t[0] == "!":
            if env.get(t[1]) is None:
                raise KeyError(t[1])
            return env[t[1]]
        if t[0] == "[]":
            return self.array(self.subst(t[1], env))
        if t[0] == "?":
            x = self.subst(t[1], env)
            return x if x.isref else self.nullable(x)
        return self.make(t[1], [self.subst(a, env) for a in t[2]])

    def unify(self, t, actual, env):
        """Infer type parameters from an argument's type."""
        if not isinstance(t, tuple) or actual is None or actual.is_null:
            return
        if t[0] == "!":
            old = env.get(t[1])
            if old is None:
                env[t[1]] = actual
            elif old is not actual and old.sub(actual):
                env[t[1]] = actual
            elif old is not actual and old.num and actual.num and actual.num[0] > old.num[0]:
                env[t[1]] = actual
        elif t[0] == "[]":
            if actual.kind == "array":
                self.unify(t[1], actual.args[0], env)
        elif t[0] == "?":
            self.unify(t[1], actual.args[0] if actual.nullable else actual, env)
        else:
            for c in [actual] + (actual.chain() if actual.kind != "interface" else []) + actual.interfaces():
                if c.decl is t[1]:
                    for a, b in zip(t[2], c.args):
                        self.unify(a, b, env)
                    return

    def default(self, t):
        if t.isref or t.nullable:
            return None
        if t is self.BOOLEAN:
            return False
        if t.num or t.enum:
            return 0
        if t.short in ("Double", "Single", "Decimal") and t.decl.ns == "System":
            return 0.0
        if t.kind == "tuple":
            return tuple(self.default(a) for a in t.args)
        if t.kind == "struct":
            o = Obj(t)
            self.fill(o)
            return o
        return None

    def fill(self, o):
        for c in o.t.chain():
            for x in c.members()["order"]:
                if not x.static and x.auto:
                    o.fields[x.name] = self.default(x.ty())

    def type_of(self, v):
        if isinstance(v, (Obj, Arr, Deleg, Box)):
            return v.t
        if isinstance(v, str):
            return self.STRING
        raise Unsupported("type of %r" % (v,))

    def is_a(self, v, t):
        """Whether a reference (objects boxed) is of the type."""
        if v is None:
            return False
        if t.nullable:
            t = t.args[0]
        return self.type_of(v).sub(t)

    def box(self, v, t):
        if v is None or t.isref:
            return v
        if t.nullable:
            t = t.args[0]
        return Box(t, v)

    def unbox(self, v, t):
        """An object as a value of a type, or an InvalidCastException."""
        if t.isref or t is self.OBJECT:
            if v is not None and not self.is_a(v, t):
                self.throw("InvalidCastException", "%s is no %s" % (self.type_of(v).name, t.name))
            return v
        if v is None:
            if t.nullable:
                return None
            self.throw("NullReferenceException", "unboxing null")
        want = t.args[0] if t.nullable else t
        if not isinstance(v, Box) or v.t is not want and not (v.t.enum and v.t.underlying() is want or want.enum and want.underlying() is v.t):
            self.throw("InvalidCastException", "%s is no %s" % (self.type_of(v).name, t.name))
        return v.v

    def type_object(self, t):
        if t.obj is None:
            t.obj = Obj(self.TYPE)
            t.obj.n = t
        return t.obj

    # ------------------------------------------------------------ objects
    def exception(self, name, message="", inner=None, ns="System"):
        t = self.system(name, ns=ns)
        o = Obj(t)
        self.fill(o)
        o.fields["message"] = message
        o.fields["InnerException"] = inner
        return o

    def throw(self, name, message="", ns="System"):
        raise CsThrow(self.exception(name, message, ns=ns))

    def construct(self, t, ctor, args):
        o = Obj(t)
        self.fill(o)
        t.init()
        ctor.code()(o, args)
        return o

    def tick(self):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Hang()

    def seq(self, v):
        """The items of something enumerable."""
        if v is None:
            self.throw("NullReferenceException", "enumerating null")
        if isinstance(v, Arr):
            return v.v
        if isinstance(v, str):
            return [ord(c) for c in v]
        if isinstance(v.n, (list, tuple)):
            return v.n
        if isinstance(v.n, dict):
            kv = self.pair(v)
            return [self.make_pair(kv, k, x) for k, x in v.n.items()]
        if isinstance(v.n, (Obj, Arr)):
            return self.seq(v.n)
        ms = v.t.find("GetEnumerator")
        if isinstance(ms, list):
            return self.seq(ms[0].code()(v, []))
        raise Unsupported("enumerating %s" % v.t.name)

    def pair(self, v):
        for i in v.t.interfaces():
            if i.short == "IDictionary":
                return self.generic("KeyValuePair", *i.args)
        raise Unsupported("pairs of %s" % v.t.name)

    def make_pair(self, t, k, x):
        o = Obj(t)
        o.fields = {"Key": k, "Value": x}
        return o

    def list(self, elem, items):
        o = Obj(self.generic("List", elem))
        o.n = list(items)
        return o

    def bytes(self, data):
        return Arr(self.array(self.BYTE), list(data))

    def invoke_virtual(self, m, this, args):
        if this is None:
            self.throw("NullReferenceException", "%s of null" % m.name)
        if isinstance(this, Obj):
            t = this.t
        else:
            t = self.type_of(this)
        o = m.find_override(t)
        if o is None:
            if m.owner is self.OBJECT or t.kind in ("interface",):
                return m.code()(this, args)
            f = NATIVE.get((m.owner.short, m.name))
            if f:
                return f(m, this, *args)
            self.throw("NotSupportedException", "%s of %s" % (m.name, t.name))
        return o.code()(this, args)

    def to_string(self, v, t=None):
        """A value as text."""
        if v is None:
            return ""
        if isinstance(v, Box):
            return self.to_string(v.v, v.t)
        if isinstance(v, str):
            return v
        if t is not None and not t.isref:
            if t.nullable:
                t = t.args[0]
            if t is self.BOOLEAN:
                return "True" if v else "False"
            if t is self.CHAR:
                return chr(v)
            if t.enum:
                for n, x in t.enums().items():
                    if x == v:
                        return n
                return str(v)
            if t.num:
                return str(v)
            if t.kind == "tuple":
                return "(%s)" % ", ".join(self.to_string(x, a) for x, a in zip(v, t.args))
            if not isinstance(v, Obj):
                return str(v)
        if isinstance(v, Arr):
            return v.t.full
        if isinstance(v, Deleg):
            return v.t.full
        m = self.OBJECT.members()["methods"]["ToString"][0]
        return self.invoke_virtual(m, v, [])

    def format(self, fmt, args):
        out = []
        if fmt is None:
            self.throw("ArgumentNullException", "format")
        pos = 0
        for m in re.finditer(r"\{\{|\}\}|\{(\d+)(?:,-?\d+)?(?::([^}]*))?\}|[{}]", fmt):
            out.append(fmt[pos:m.start()])
            pos = m.end()
            s = m.group()
            if s in ("{{", "}}"):
                out.append(s[0])
            elif m.group(1) is None:
                self.throw("FormatException", "a brace which is not closed")
            else:
                i = int(m.group(1))
                if i >= len(args):
                    self.throw("FormatException", "argument %d is missing" % i)
                a = args[i]
                if m.group(2) and isinstance(a, Box) and a.t.num:
                    spec = m.group(2)
                    s = "%x" % a.v if spec[0] in "xX" else str(a.v)
                    out.append(s.upper().rjust(int(spec[1:] or 1), "0") if spec[0] == "X" else s.rjust(int(spec[1:] or 1), "0"))
                else:
                    out.append(self.to_string(a))
        out.append(fmt[pos:])
        return "".join(out)

    # ------------------------------------------------------------ drivers
    def partly_known(self, t):
        """Whether a type, or some base of it, is of the class library, of which only a part is here."""
        if not isinstance(t, Type):
            return False
        if t.decl is None:
            return t.kind == "array"
        return any(b.decl is not None and b.decl.file == "prelude.cs" and b is not self.OBJECT
                   for b in list(t.chain()) + list(t.interfaces()))

    def find_static(self, t, name, n=None):
        ms = t.find(name)
        ms = [m for m in ms if n is None or len(m.params()) == n]
        return ms[0]

    def call(self, t, name, args, n=None, targs=()):
        """A static method, all arguments given."""
        self.steps = 0
        m = self.find_static(t, name, n if n is not None else len(args))
        if targs:
            m = m.bind(targs)
        t.init()
        return m.code()(None, args)

    def new(self, t, args):
        self.steps = 0
        for c in t.members()["ctors"]:
            if len(c.params()) == len(args):
                return self.construct(t, c, args)
        raise Unsupported("no constructor of %s with %d arguments" % (t.name, len(args)))

    def get(self, o, name):
        p = o.t.find(name)
        if isinstance(p, Prop):
            return p.getter()(o, [])
        if isinstance(p, Field):
            return o.fields[name]
        raise CsError("CS1061", "%s has no property %s" % (o.t.name, name))

    def check(self, t, errors=None):
        """Compile every member of a closed type; the errors."""
        errors = [] if errors is None else errors

        at = [""]

        def guard(f, *args):
            try:
                return f(*args)
            except CsError as e:
                e.member = "%s.%s" % (t.decl.name, at[0]) if t.decl and at[0] else t.name
                errors.append(e)
        if guard(t.bases) is None and not t.decl:
            return errors
        if t.enum:
            guard(t.enums)
            return errors
        if t.kind == "delegate":
            guard(t.signature)
            return errors
        m = guard(t.members)
        if m is None:
            return errors
        errors += m["errors"]
        for x in m["order"] + m["indexers"]:
            at[0] = x.name
            ty = guard(x.ty)
            if ty is None:
                continue
            if x.const:
                guard(x.constant)
            elif x.init:
                c = Comp(self, t, None, x.where, static=x.static)
                guard(lambda: c.convert(c.expr(x.init, ty), ty, x.line))
            if isinstance(x, Prop) and not x.auto and not x.native and not x.abstract:
                for k in ("get", "set"):
                    if k in x.node["acc"]:
                        guard(lambda: Comp.function(x.accessor(k)))
        for me in [y for ys in m["methods"].values() for y in ys] + m["ctors"] + m["cctor"]:
            at[0] = me.name
            if me.tparams:
                continue
            if guard(me.params) is None or guard(me.ret) is None:
                continue
            if me.node["body"] is not None:
                guard(lambda: Comp.function(me))
        at[0] = ""
        sigs = set()
        for me in [y for ys in m["methods"].values() for y in ys] + m["ctors"]:
            try:
                sig = (me.name, len(me.tparams), tuple(p["ty"] for p in me.params()))
            except CsError:
                continue
            if sig in sigs:
                errors.append(CsError("CS0111", "%s has two methods %s with the same parameters" % (t.name, me.name), t.decl.file, me.line))
            sigs.add(sig)
        if t.kind in ("class", "struct") and not any("abstract" in n["mods"] for n in t.decl.nodes):
            for i in t.interfaces():
                for ms in i.members()["methods"].values():
                    for me in ms:
                        o = None if i.decl.ns.startswith("System") else me.find_override(t)
                        if not i.decl.ns.startswith("System") and (o is None or o.ret() is not me.ret()):
                            errors.append(CsError("CS0535", "%s does not implement %s.%s" % (t.name, i.name, me.name), t.decl.file, t.decl.nodes[0]["line"]))
                for p in i.members()["props"].values():
                    q = t.find(p.name)
                    if not i.decl.ns.startswith("System") and (not isinstance(q, Prop) or guard(q.ty) is not p.ty() or p.has_set and not q.has_set):
                        errors.append(CsError("CS0535", "%s does not implement %s.%s" % (t.name, i.name, p.name), t.decl.file, t.decl.nodes[0]["line"]))
        for (n, k), d in t.decl.nested.items():
            if k == 0:
                self.check(self.make(d, t.args), errors)
        return errors


BREAK, CONTINUE = object(), object()


class Return:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class Scope:
    """The variables of a function; a frame is [this, parent frame, variables ...]."""

    def __init__(self, parent=None, ret=None, name=""):
        self.parent, self.ret, self.name = parent, ret, name
        self.blocks = [{}]
        self.n = 2
        self.yields = None

    def declare(self, name, t, ref=False):
        i = self.n
        self.n += 1
        self.blocks[-1][name] = (i, t, ref)
        return i

    def find(self, name):
        for b in reversed(self.blocks):
            if name in b:
                return 0, b[name]
        if self.parent:
            f = self.parent.find(name)
            if f:
                return f[0] + 1, f[1]
        return None


class Comp:
    def __init__(self, u, cls, method, node, static=False, scope=None):
        self.u, self.cls, self.method, self.node = u, cls, method, node
        self.static = static
        self.env = method.env if method else None
        self.scope = scope or Scope()
        self.file = cls.decl.file if cls is not None and cls.decl is not None else ""
        self.hole = None

    def frame(self, e):
        n = self.scope
        return lambda this: e.f([this, None] + [None] * (n.n - 2))

    def fail(self, code, msg, line=0):
        raise CsError(code, msg, self.file, line)

    def lacking(self, code, msg, line, t=None, name=None):
        """Something isn't there: it may be just that the class library here is but a part of the real one."""
        if name in ELSEWHERE or t is not None and self.u.partly_known(t):
            raise CsMissing(code, msg, self.file, line)
        self.fail(code, msg, line)

    def type(self, te, line=0):
        t = self.u.resolve(te, self.cls, self.env, self.node, line)
        if isinstance(t, NE):
            self.fail("CS0118", "%s is a namespace" % t.name, line)
        return t

    # ------------------------------------------------------------ functions
    @staticmethod
    def function(m):
        u, node = m.owner.u, m.node
        c = Comp(u, m.owner, m, m.where, static=m.static)
        ret = u.VOID if m.ctor else m.ret()
        sc = c.scope
        sc.ret, sc.name = ret, m.owner.name + "." + m.name
        ps = m.params()
        seen = set()
        for p in ps:
            if p["name"] in seen:
                c.fail("CS0100", "two parameters %s" % p["name"], m.line)
            seen.add(p["name"])
            sc.declare(p["name"], p["ty"], p["how"] in ("ref", "out"))
        pre = []
        if m.ctor and not m.static:
            init = node["init"]
            if init is None or init[0] == "base":
                for x in m.owner.members()["order"]:
                    if not x.static and x.init and x.auto:
                        pre.append((lambda x: lambda fr: fr[0].fields.__setitem__(x.name, x.initial(fr[0])))(x))
                base = m.owner.base
                if base is not None and base.kind == "class":
                    if init or base is not u.OBJECT:
                        me, args = c.pick(base.members()["ctors"], init[1] if init else [], base.name, m.line)
                        pre.append((lambda me, args: lambda fr: me.code()(fr[0], [a(fr) for a in args]))(me, args))
            else:
                me, args = c.pick(m.owner.members()["ctors"], init[1], m.owner.name, m.line)
                pre.append((lambda me, args: lambda fr: me.code()(fr[0], [a(fr) for a in args]))(me, args))
        if has_yield(node["body"] or []):
            sc.yields = ret.args[0] if ret.args else u.OBJECT
            sc.ret = None
        body = c.block_body(node["body"] or [], arrow=ret)
        name = sc.name
        depth = [0]
        void = ret is u.VOID

        def run(this, args):
            depth[0] += 1
            if depth[0] > 400:
                depth[0] = 0
                u.throw("StackOverflowException", name)
            try:
                fr = [this, None]
                fr += args
                fr += [None] * (sc.n - len(fr))
                if sc.yields:
                    fr[yslot] = []
                for p in pre:
                    p(fr)
                r = body(fr)
                if sc.yields:
                    o = Obj(u.generic("List", sc.yields))
                    o.n = fr[yslot]
                    return o
                if r is None:
                    if not void:
                        raise CsError("CS0161", "not all code paths of %s return a value" % name)
                    return None
                return r.v
            finally:
                depth[0] = max(0, depth[0] - 1)
        if sc.yields:
            yslot = sc.yslot
        elif not void and node["body"] is not None and falls_through(node["body"]):
            c.fail("CS0161", "not all code paths of %s return a value" % name, m.line)
        return run

    def block_body(self, stmts, arrow=None):
        if self.scope.yields and not hasattr(self.scope, "yslot"):
            self.scope.yslot = self.scope.declare("<yield>", None)
        if len(stmts) == 1 and stmts[0][0] == "arrow":
            _, e, line = stmts[0]
            if e[0] == "throw":
                x = self.expr(e)
                return x.f
            if arrow is self.u.VOID:
                x = self.expr(e)
                return lambda fr: (x.f(fr), None)[1]
            x = self.expr(e, arrow)
            if arrow is not None:
                x = self.convert(x, arrow, line)
            self.arrow_type = x.t
            return lambda fr: Return(x.f(fr))
        return self.stmts(stmts)

    def stmts(self, stmts):
        self.scope.blocks.append({})
        try:
            # local functions are visible before they are declared
            for s in stmts:
                if s[0] == "function":
                    self.scope.declare(s[2], ("fn", s))
            fs = [self.stmt(s) for s in stmts]
        finally:
            self.scope.blocks.pop()
        fs = [f for f in fs if f is not None]
        if len(fs) == 1:
            return fs[0]

        def run(fr):
            for f in fs:
                r = f(fr)
                if r is not None:
                    return r
        return run

    def boolean(self, e, line=0):
        return self.convert(self.expr(e, self.u.BOOLEAN), self.u.BOOLEAN, line)

    def stmt(self, s):
        u = self.u
        k = s[0]
        if k == "block":
            return self.stmts(s[1])
        if k == "expr":
            if s[1][0] not in ("assign", "call", "post", "un", "new", "?.", "throw") and not (s[1][0] == "paren"):
                self.fail("CS0201", "not a statement", s[2])
            x = self.expr(s[1])
            f = x.f

            def run(fr):
                f(fr)
            return run
        if k == "local":
            _, te, decls, line = s
            fs = []
            for name, init in decls:
                if te is None:
                    if init is None:
                        self.fail("CS0818", "var %s without a value" % name, line)
                    x = self.expr(init)
                    if x.t.is_null or x.t is u.VOID or x.lambda_:
                        self.fail("CS0815", "var %s = %s" % (name, x.t.name), line)
                else:
                    t = self.type(te, line)
                    if init is not None:
                        x = self.convert(self.expr(init, t) if init[0] != "array" or init[1] else self.array_expr(init, t, line), t, line)
                    else:
                        x = const(t, u.default(t))
                        if t.user_struct:
                            x = E(t, (lambda t: lambda fr: u.default(t))(t))
                t = x.t if te is None else t
                lv, found = (self.scope.find(name) or (1, None))
                if found and lv == 0:
                    self.fail("CS0128", "%s is declared twice" % name, line)
                i = self.scope.declare(name, t)
                fs.append((i, self.copied(x)))
            if len(fs) == 1:
                i, f = fs[0]

                def run(fr):
                    fr[i] = f(fr)
                return run

            def run(fr):
                for i, f in fs:
                    fr[i] = f(fr)
            return run
        if k == "deconstruct":
            _, names, e, line = s
            x = self.expr(e)
            if x.t.kind != "tuple" or len(x.t.args) != len(names):
                self.fail("CS8129", "%s is not deconstructed into %d" % (x.t.name, len(names)), line)
            idx = [self.scope.declare(n, t) if n != "_" else None for n, t in zip(names, x.t.args)]

            def run(fr):
                for i, v in zip(idx, x.f(fr)):
                    if i is not None:
                        fr[i] = v
            return run
        if k == "if":
            _, c, a, b, line = s
            self.scope.blocks.append({})
            c = self.boolean(c, line).f
            a = self.stmts(a)
            b = self.stmts(b) if b else None
            self.leak()

            def run(fr):
                if c(fr):
                    return a(fr)
                if b:
                    return b(fr)
            return run
        if k in ("while", "do"):
            if k == "while":
                _, c, b, line = s
            else:
                _, b, c, line = s
            b = self.stmts(b)
            c = self.boolean(c, line).f
            first = k == "do"

            def run(fr):
                go = first
                while go or c(fr):
                    go = False
                    u.tick()
                    r = b(fr)
                    if r is not None:
                        if r is BREAK:
                            return None
                        if r is not CONTINUE:
                            return r
            return run
        if k == "for":
            _, init, c, step, b, line = s
            self.scope.blocks.append({})
            init = [self.stmt(x) for x in init]
            c = self.boolean(c, line).f if c else lambda fr: True
            step = [self.stmt(x) for x in step]
            b = self.stmts(b)
            self.scope.blocks.pop()

            def run(fr):
                for f in init:
                    f(fr)
                while c(fr):
                    u.tick()
                    r = b(fr)
                    if r is not None:
                        if r is BREAK:
                            return None
                        if r is not CONTINUE:
                            return r
                    for f in step:
                        f(fr)
            return run
        if k == "foreach":
            _, te, name, e, b, line = s
            x = self.expr(e)
            elem = self.element(x.t, line)
            self.scope.blocks.append({})
            t = elem if te == ("var", []) else self.type(te, line)
            i = self.scope.declare(name, t)
            conv = self.conversion(elem, t, True)
            if conv is None:
                self.fail("CS0030", "%s is no %s" % (elem.name, t.name), line)
            b = self.stmts(b)
            self.scope.blocks.pop()

            def run(fr):
                v = x.f(fr)
                items = u.seq(v)
                n = len(items)
                at = 0
                while at < len(items):
                    u.tick()
                    fr[i] = conv(items[at])
                    at += 1
                    r = b(fr)
                    if r is not None:
                        if r is BREAK:
                            return None
                        if r is not CONTINUE:
                            return r
                    now = u.seq(v) if not isinstance(v, Arr) else items
                    if now is not items and isinstance(getattr(v, "n", None), list) or len(now) != n and not isinstance(v, Arr):
                        u.throw("InvalidOperationException", "Collection was modified")
            return run
        if k == "switch":
            return self.switch(s)
        if k == "return":
            _, e, line = s
            ret = self.scope.ret
            if e is None:
                if ret is not None and ret is not u.VOID and not self.scope.yields:
                    self.fail("CS0126", "return without a value", line)
                r = Return(None)
                return lambda fr: r
            if ret is u.VOID:
                self.fail("CS0127", "a value is returned", line)
            x = self.expr(e, ret)
            if ret is not None:
                x = self.convert(x, ret, line)
            else:
                self.returned = x.t if not x.t.is_null else getattr(self, "returned", None)
            f = self.copied(x)
            return lambda fr: Return(f(fr))
        if k == "yield":
            x = self.convert(self.expr(s[1], self.scope.yields), self.scope.yields, s[2])
            i = self.scope.yslot

            def run(fr):
                u.tick()
                fr[i].append(x.f(fr))
            return run
        if k == "break":
            return lambda fr: BREAK
        if k == "continue":
            return lambda fr: CONTINUE
        if k == "throw":
            _, e, line = s
            if e is None:
                def run(fr):
                    raise u.current
                return run
            x = self.expr(("throw", e))
            return x.f
        if k == "try":
            _, body, catches, final, line = s
            body = self.stmts(body)
            cs = []
            for te, name, b in catches:
                self.scope.blocks.append({})
                t = self.type(te, line) if te else u.EXCEPTION
                i = self.scope.declare(name, t) if name else None
                cs.append((t, i, self.stmts(b)))
                self.scope.blocks.pop()
            final = self.stmts(final) if final else None

            def run(fr):
                try:
                    try:
                        return body(fr)
                    except CsThrow as e:
                        for t, i, b in cs:
                            if e.obj.t.sub(t):
                                if i is not None:
                                    fr[i] = e.obj
                                old, u.current = getattr(u, "current", None), e
                                try:
                                    return b(fr)
                                finally:
                                    u.current = old
                        raise
                finally:
                    if final:
                        final(fr)
            return run
        if k == "function":
            _, te, name, params, body, line = s
            ret = self.type(te, line)
            ps = [dict(p, ty=self.type(p["ty"], line)) for p in params]
            found = self.scope.find(name)
            i = found[1][0]
            sc = Scope(self.scope, ret, name)
            sub = Comp(u, self.cls, self.method, self.node, self.static, sc)
            for p in ps:
                sc.declare(p["name"], p["ty"], p["how"] in ("ref", "out"))
            cell = []
            sub_body = sub.block_body(body, arrow=ret)
            cell.append(sub_body)

            def run(fr):
                def call(args):
                    f2 = [fr[0], fr] + list(args)
                    f2 += [None] * (sc.n - len(f2))
                    r = sub_body(f2)
                    return r.v if r is not None else None
                fr[i] = call
            return run
        if k == "arrow":
            return self.block_body([s], self.scope.ret)
        raise Unsupported("statement %s" % k)

    def leak(self):
        """Variables of patterns stay visible after the statement."""
        b = self.scope.blocks.pop()
        for n, v in b.items():
            self.scope.blocks[-1].setdefault(n, v)

    def switch(self, s):
        u = self.u
        _, e, sections, line = s
        x = self.expr(e)
        self.scope.blocks.append({})
        tests, default = [], None
        seen = set()
        bodies = []
        for n, (labels, body) in enumerate(sections):
            self.scope.blocks.append({})
            for l in labels:
                if l is None:
                    default = n
                    continue
                guard = None
                if l[0] == "when":
                    _, l, g = l
                    guard = g
                if l[0] == "pattern":
                    t = self.type(l[1], line) if l[1] != ("var", []) else x.t
                    i = self.scope.declare(l[2], t)
                    isit = self.is_test(x.t, t)
                    g = self.boolean(guard, line).f if guard else None
                    tests.append(((lambda isit, i, g: lambda v, fr: isit(v) and (fr.__setitem__(i, isit.value(v)) or not g or g(fr)))(isit, i, g), n))
                    continue
                y = self.expr(l, x.t)
                if isinstance(y, E) and y.t.is_null:
                    tests.append((lambda v, fr: v is None, n))
                    continue
                y = self.convert(y, x.t, line)
                if y.const is NOCONST:
                    self.fail("CS0150", "a case is not constant", line)
                if y.const in seen and not guard:
                    self.fail("CS0152", "case %s appears twice" % y.const, line)
                seen.add(y.const)
                g = self.boolean(guard, line).f if guard else None
                tests.append(((lambda c, g: lambda v, fr: v == c and (not g or g(fr)))(y.const, g), n))
            bodies.append(self.stmts(body))
            if falls_through(body, switch=True):
                self.fail("CS0163", "control falls through from a case", line)
            self.scope.blocks.pop()
        self.scope.blocks.pop()

        def run(fr):
            v = x.f(fr)
            n = default
            for test, i in tests:
                if test(v, fr):
                    n = i
                    break
            if n is None:
                return None
            r = bodies[n](fr)
            return None if r is BREAK else r
        return run

    def element(self, t, line):
        if t.kind == "array":
            return t.args[0]
        if t is self.u.STRING:
            return self.u.CHAR
        for i in [t] + t.interfaces():
            if i.short == "IEnumerable" and i.args:
                return i.args[0]
        ms = t.find("GetEnumerator")
        if isinstance(ms, list):
            return self.element(ms[0].ret(), line)
        for i in [t] + t.interfaces():
            if i.short == "IEnumerator" and i.args:
                return i.args[0]
        self.fail("CS1579", "%s cannot be enumerated" % t.name, line)

    def copied(self, x):
        if x.t.user_struct:
            def f(fr):
                v = x.f(fr)
                o = Obj(v.t)
                o.fields, o.n = dict(v.fields), v.n
                return o
            return f
        return x.f

    # ------------------------------------------------------------ conversions
    def conversion(self, a, b, explicit=False, c=NOCONST):
        """A function which converts values of a type to another, or None."""
        u = self.u
        same = lambda v: v
        if a is b:
            return same
        if a.is_null:
            return same if b.isref or b.nullable else None
        if a is u.VOID or b is u.VOID:
            return None
        if b.nullable and not a.nullable:
            if c is not NOCONST and a.num and b.args[0].num and fits(c, b.args[0].num):
                return same
            return self.conversion(a, b.args[0], explicit)
        if a.nullable and b.nullable:
            f = self.conversion(a.args[0], b.args[0], explicit)
            return f and (lambda v: None if v is None else f(v))
        if a.nullable and not b.isref:
            if explicit:
                f = self.conversion(a.args[0], b, True)
                if f:
                    def g(v):
                        if v is None:
                            u.throw("InvalidOperationException", "Nullable object must have a value.")
                        return f(v)
                    return g
            return None
        if b.isref and not a.isref:
            base = a.args[0] if a.nullable else a
            if b is u.OBJECT or base.sub(b):
                return lambda v: u.box(v, a)
            return None
        if a.isref and b.isref:
            if a.sub(b):
                return same
            if explicit and (b.sub(a) or a.kind == "interface" or b.kind == "interface"):
                return lambda v: u.unbox(v, b)
            return None
        if a.isref:
            if explicit and (a is u.OBJECT or a.kind == "interface"):
                return lambda v: u.unbox(v, b)
            return None
        if a.kind == "tuple" and b.kind == "tuple" and len(a.args) == len(b.args):
            fs = [self.conversion(x, y, explicit) for x, y in zip(a.args, b.args)]
            return None if None in fs else (lambda v: tuple(f(x) for f, x in zip(fs, v)))
        if a.num and b.num:
            (n, s), (m, t) = a.num, b.num
            if b is not u.CHAR and (m > n and (t or not s) or m == n and s == t):
                return same
            if a is u.CHAR and m >= 16 and not (m == 16 and t):
                return same
            if explicit:
                return lambda v: wrap(v, b.num)
            if c is not NOCONST and a is u.INT32 and b is not u.CHAR and fits(c, b.num):
                return same
            if c is not NOCONST and a is u.INT64 and b is u.UINT64 and fits(c, b.num):
                return same
            return None
        fl = ("Double", "Single", "Decimal")
        if b.short in fl and a.num:
            return float
        if a.short in fl and b.num:
            return (lambda v: wrap(int(v), b.num)) if explicit else None
        if a.short in fl and b.short in fl:
            return same
        if a.enum or b.enum:
            if explicit and (a.enum or a.num) and (b.enum or b.num):
                t = b.underlying() if b.enum else b
                return lambda v: wrap(v, t.num)
            if b.enum and c is not NOCONST and a.num and c == 0:
                return same
        return None

    def convert(self, x, t, line=0, explicit=False):
        u = self.u
        if isinstance(x, MG):
            return self.method_delegate(x, t, line)
        if not isinstance(x, E):
            self.fail("CS0119", "a type or namespace is used as a value", line)
        if x.lambda_:
            if t.kind != "delegate":
                self.fail("CS1660", "a lambda is no %s" % t.name, line)
            return x.lambda_(t)
        if x.t is t:
            return x
        f = self.conversion(x.t, t, explicit, x.const)
        if f is None:
            self.fail("CS0029", "%s is no %s" % (x.t.name, t.name), line)
        g = x.f
        if x.const is not NOCONST and not (t.isref and not x.t.isref):
            return const(t, f(x.const) if not x.t.is_null else None)
        if self.conversion.__code__ is None:
            pass
        return E(t, lambda fr: f(g(fr)))

    def method_delegate(self, mg, t, line):
        u = self.u
        if t.kind != "delegate":
            self.fail("CS0428", "a method is no %s" % t.name, line)
        ret, ps = t.signature()
        for m in mg.methods:
            if m.tparams:
                if mg.targs:
                    m = m.bind(mg.targs)
                else:
                    env = {}
                    for p, q in zip(m.params(), ps):
                        u.unify(p["ty"], q["ty"], env)
                    try:
                        m = m.bind([env[n] for n in m.tparams])
                    except KeyError:
                        continue
            if len(m.params()) == len(ps) and all(self.conversion(q["ty"], p["ty"]) for p, q in zip(m.params(), ps)):
                if not m.static and mg.target is None and self.static:
                    self.fail("CS0120", "%s needs an object" % m.name, line)
                tgt = mg.target

                def f(fr):
                    this = tgt.f(fr) if tgt is not None and not m.static else fr[0]
                    if m.static:
                        m.owner.init()
                        return Deleg(t, [lambda args: m.code()(None, list(args))])
                    return Deleg(t, [lambda args: self.invoke(m, this, list(args))])
                return E(t, f)
        self.fail("CS0123", "no method %s fits %s" % (mg.name, t.name), line)

    def invoke(self, m, this, args):
        if m.virtual:
            return self.u.invoke_virtual(m, this, args)
        return m.code()(this, args)

    # ------------------------------------------------------------ expressions
    def expr(self, e, hint=None):
        k = e[0]
        x = getattr(self, "x_" + {"?.": "cond_access", "??": "coalesce", "assign": "assign", "is": "is", "as": "as"}.get(k, k))(e, hint)
        return x

    def value(self, e, hint=None, line=0):
        x = self.expr(e, hint)
        if isinstance(x, MG) and hint is not None:
            return self.convert(x, hint, line)
        if not isinstance(x, E):
            self.fail("CS0119", "%s is not a value" % (e[1] if len(e) > 1 else e,), line)
        return x

    def x_paren(self, e, hint):
        return self.expr(e[1], hint)

    def x_num(self, e, hint):
        u = self.u
        s = e[1].replace("_", "")
        m = re.match(r"(0[xX][0-9a-fA-F]+|\d+)([uUlL]*)$", s)
        if not m:
            return const(u.system("Double"), float(re.match(r"[\d.]+", s).group()))
        v, suf = int(m.group(1), 0) if m.group(1)[:2].lower() == "0x" else int(m.group(1)), m.group(2).lower()
        if suf == "":
            t = next((t for t in (u.INT32, u.UINT32, u.INT64, u.UINT64) if fits(v, t.num)), None)
        elif suf == "u":
            t = next((t for t in (u.UINT32, u.UINT64) if fits(v, t.num)), None)
        elif suf == "l":
            t = next((t for t in (u.INT64, u.UINT64) if fits(v, t.num)), None)
        else:
            t = u.UINT64 if fits(v, u.UINT64.num) else None
        if t is None:
            self.fail("CS1021", "%s is too large" % s)
        return const(t, v)

    def x_str(self, e, hint):
        return const(self.u.STRING, e[1])

    def x_char(self, e, hint):
        return const(self.u.CHAR, ord(e[1]))

    def x_interp(self, e, hint):
        u = self.u
        xs = [self.value(x) for x in e[1]]
        return E(u.STRING, lambda fr: "".join(u.to_string(x.f(fr), x.t) for x in xs))

    def x_lit(self, e, hint):
        if e[1] is None:
            return E(self.u.NULL, lambda fr: None, None)
        return const(self.u.BOOLEAN, e[1])

    def x_this(self, e, hint):
        if self.static:
            self.fail("CS0026", "this in a static member")
        return self.this()

    def this(self):
        d, s = 0, self.scope
        while s.parent is not None:
            s = s.parent
        return E(self.cls, lambda fr: fr[0])

    def x_base(self, e, hint):
        x = self.this()
        return E(self.cls.base, x.f)

    def x_hole(self, e, hint):
        return self.hole

    def x_typeof(self, e, hint):
        t = self.type(e[1], e[2])
        u = self.u
        return E(u.TYPE, lambda fr: u.type_object(t))

    def x_default(self, e, hint):
        u = self.u
        t = self.type(e[1]) if e[1] else hint
        if t is None:
            self.fail("CS8716", "default without a type")
        if isinstance(t, tuple):
            raise Unsupported("default of an open type")
        if t.user_struct:
            return E(t, lambda fr: u.default(t))
        return const(t, u.default(t))

    def array_expr(self, e, t, line=0):
        u = self.u
        _, te, n, items = e
        if te is not None:
            t = u.array(self.type(te, line))
        elif t is None or t.kind != "array":
            xs = [self.value(x) for x in items]
            et = next((x.t for x in xs if not x.t.is_null), u.OBJECT)
            t = u.array(et)
        et = t.args[0]
        if n is not None:
            n = self.convert(self.value(n), u.INT32, line) if self.conversion(self.value(n).t, u.INT32, False, self.value(n).const) else self.convert(self.value(n), u.INT64, line)

            def f(fr):
                k = n.f(fr)
                if k < 0:
                    u.throw("OverflowException", "an array of %d" % k)
                if k > 1 << 26:
                    u.throw("SystemException", "out of memory")
                return Arr(t, [u.default(et) for _ in range(k)])
            return E(t, f)
        xs = [self.convert(self.expr(x, et), et, line) for x in items]
        return E(t, lambda fr: Arr(t, [x.f(fr) for x in xs]))

    def x_array(self, e, hint):
        return self.array_expr(e, hint if e[1] is None and e[2] is None and hint is not None and hint.kind == "array" else None)

    def x_tuple(self, e, hint):
        hs = hint.args if hint is not None and hint.kind == "tuple" and len(hint.args) == len(e[1]) else [None] * len(e[1])
        xs = [self.value(x, h) for x, h in zip(e[1], hs)]
        xs = [self.convert(x, h) if h is not None else x for x, h in zip(xs, hs)]
        names = hint.names if hint is not None and hint.kind == "tuple" else [x[1] if x[0] == "name" else None for x in e[1]]
        t = self.u.tuple([x.t for x in xs], names)
        return E(t, lambda fr: tuple(x.f(fr) for x in xs))

    def x_throw(self, e, hint):
        u = self.u
        x = self.value(e[1])
        if not x.t.is_null and not x.t.sub(u.EXCEPTION):
            self.fail("CS0029", "%s is no exception" % x.t.name)

        def f(fr):
            o = x.f(fr)
            if o is None:
                u.throw("NullReferenceException", "throwing null")
            raise CsThrow(o)
        r = E(u.NULL, f)
        return r

    def x_new(self, e, hint):
        _, te, args, init, line = e
        u = self.u
        t = self.type(te, line)
        if t.kind == "delegate":
            return self.convert(self.expr(args[0][2], t), t, line)
        if t.kind == "interface" or any("abstract" in n["mods"] or "static" in n["mods"] for n in t.decl.nodes):
            self.fail("CS0144", "%s cannot be constructed" % t.name, line)
        if t.num or t.enum:
            return const(t, 0)
        if t.nullable:
            return const(t, None) if not args else self.convert(self.value(args[0][2]), t, line)
        ctors = [c for c in t.members()["ctors"] if self.visible(c)]
        me, fs = self.pick(ctors, args, t.name, line)

        def f(fr):
            return u.construct(t, me, [a(fr) for a in fs])
        x = E(t, f)
        if init:
            sets = []
            for n, v in init:
                if n is None:
                    add = t.find("Add")
                    m, a = self.pick(add, [(None, "", v)], "Add", line)
                    sets.append((lambda m, a: lambda o, fr: m.code()(o, [y(fr) for y in a]))(m, a))
                else:
                    p = t.find(n)
                    v = self.convert(self.expr(v, p.ty()), p.ty(), line)
                    if isinstance(p, Field):
                        sets.append((lambda n, v: lambda o, fr: o.fields.__setitem__(n, v.f(fr)))(n, v))
                    else:
                        sets.append((lambda p, v: lambda o, fr: p.setter()(o, [v.f(fr)]))(p, v))

            def g(fr):
                o = f(fr)
                for s in sets:
                    s(o, fr)
                return o
            return E(t, g)
        return x

    def x_cast(self, e, hint):
        _, te, x, line = e
        t = self.type(te, line)
        x = self.expr(x, t)
        return self.convert(x, t, line, explicit=True)

    def is_test(self, a, t):
        """Whether a value of static type a is a t; .value gives it as one."""
        u = self.u
        box = (lambda v: v) if a.isref else (lambda v: u.box(v, a))

        def test(v):
            return u.is_a(box(v), t)
        test.value = lambda v: u.unbox(box(v), t)
        return test

    def x_is(self, e, hint):
        _, x, te, name, line = e
        u = self.u
        x = self.value(x)
        try:
            t = self.type(te, line)
        except CsError:
            # a constant pattern
            y = self.value(("name", te[0], [], line) if len(te) == 2 else ("member", ("name", te[2][0], [], line), te[0], [], line))
            y = self.convert(y, x.t, line)
            return E(u.BOOLEAN, lambda fr: x.f(fr) == y.f(fr))
        test = self.is_test(x.t, t)
        if name:
            i = self.scope.declare(name, t)

            def f(fr):
                v = x.f(fr)
                if test(v):
                    fr[i] = test.value(v)
                    return True
                return False
            return E(u.BOOLEAN, f)
        return E(u.BOOLEAN, lambda fr: test(x.f(fr)))

    def x_as(self, e, hint):
        _, x, te, name, line = e
        u = self.u
        x = self.value(x)
        t = self.type(te, line)
        if not t.isref and not t.nullable:
            self.fail("CS0077", "as %s" % t.name, line)
        if x.t.isref and t.isref and not (x.t.sub(t) or t.sub(x.t) or x.t.kind == "interface" or t.kind == "interface"):
            self.fail("CS0039", "%s as %s" % (x.t.name, t.name), line)
        test = self.is_test(x.t, t)

        def f(fr):
            v = x.f(fr)
            return test.value(v) if test(v) else None
        return E(t, f)

    def x_cond(self, e, hint):
        _, c, a, b = e
        u = self.u
        c = self.boolean(c).f
        a, b = self.value(a, hint), self.value(b, hint)
        throws = (e[2][0] == "throw", e[3][0] == "throw")
        if throws[0]:
            t = b.t
        elif throws[1]:
            t = a.t
        elif a.lambda_ or b.lambda_:
            t = hint
        elif a.t is b.t:
            t = a.t
        elif not b.t.is_null and self.conversion(a.t, b.t, False, a.const) and not (self.conversion(b.t, a.t, False, b.const) and a.const is not NOCONST and False):
            t = b.t
            if self.conversion(b.t, a.t, False, b.const) and b.const is not NOCONST and a.const is NOCONST:
                t = a.t
        elif not a.t.is_null and self.conversion(b.t, a.t, False, b.const):
            t = a.t
        else:
            self.fail("CS0173", "no common type of %s and %s" % (a.t.name, b.t.name))
        if not throws[0]:
            a = self.convert(a, t)
        if not throws[1]:
            b = self.convert(b, t)
        af, bf = a.f, b.f
        r = E(t, lambda fr: af(fr) if c(fr) else bf(fr))
        return r

    def x_coalesce(self, e, hint):
        _, a, b = e
        a = self.value(a, hint)
        if not a.t.isref and not a.t.nullable:
            self.fail("CS0019", "?? of %s" % a.t.name)
        if b[0] == "throw":
            b = self.expr(b)
            t = a.t.args[0] if a.t.nullable else a.t
        else:
            b = self.value(b, hint if a.t.is_null else a.t)
            if b.lambda_:
                t = a.t
            elif a.t.nullable and self.conversion(b.t, a.t.args[0], False, b.const):
                t = a.t.args[0]
            elif self.conversion(b.t, a.t, False, b.const):
                t = a.t
            else:
                t = b.t
                conv = self.conversion(a.t, t)
                if conv is None:
                    self.fail("CS0019", "%s ?? %s" % (a.t.name, b.t.name))
            b = self.convert(b, t)
        af, bf = a.f, b.f

        def f(fr):
            v = af(fr)
            return bf(fr) if v is None else v
        return E(t, f)

    def x_cond_access(self, e, hint):
        u = self.u
        x = self.value(e[1])
        if not x.t.isref and not x.t.nullable:
            self.fail("CS0023", "?. of %s" % x.t.name)
        i = self.scope.declare("<hole %d>" % self.scope.n, x.t)
        old = self.hole
        self.hole = E(x.t.args[0] if x.t.nullable else x.t, lambda fr: fr[i])
        try:
            r = self.expr(e[2])
        finally:
            self.hole = old
        if not isinstance(r, E):
            self.fail("CS0119", "not a value")
        t = r.t if r.t.isref or r.t.nullable or r.t is u.VOID else u.nullable(r.t)

        def f(fr):
            v = x.f(fr)
            if v is None:
                return None
            fr[i] = v
            return r.f(fr)
        return E(t, f)

    # ------------------------------------------------------------ operators
    def promote(self, a, b, op, line):
        """The type in which an arithmetic operation is done."""
        u = self.u
        fl = ("Double", "Single", "Decimal")
        if a.t.short in fl or b.t.short in fl:
            return u.system("Double")
        if not a.t.num or not b.t.num:
            self.fail("CS0019", "%s %s %s" % (a.t.name, op, b.t.name), line)

        def nonneg(x):
            return x.const is not NOCONST and x.t.num[1] and x.const >= 0
        ts = (a.t, b.t)
        if u.UINT64 in ts:
            o = b if a.t is u.UINT64 else a
            if o.t.num[1] and o.t is not u.CHAR and not nonneg(o):
                self.fail("CS0034", "%s %s %s is ambiguous" % (a.t.name, op, b.t.name), line)
            return u.UINT64
        if u.INT64 in ts:
            return u.INT64
        if u.UINT32 in ts:
            o = b if a.t is u.UINT32 else a
            if o.t.num[1] and not nonneg(o):
                return u.INT64
            return u.UINT32
        return u.INT32

    def arithmetic(self, op, a, b, line):
        u = self.u
        if op in ("<<", ">>"):
            if not a.t.num:
                self.fail("CS0019", "%s %s" % (a.t.name, op), line)
            t = a.t if a.t in (u.INT32, u.UINT32, u.INT64, u.UINT64) else u.INT32
            b = self.convert(b, u.INT32, line)
            mask = t.num[0] - 1
            num = t.num
            af, bf = a.f, b.f
            if op == "<<":
                return E(t, lambda fr: wrap(af(fr) << (bf(fr) & mask), num))
            return E(t, lambda fr: wrap(af(fr) >> (bf(fr) & mask), num))
        if a.t.enum or b.t.enum:
            et = a.t if a.t.enum else b.t
            if op in ("&", "|", "^") and (a.t is b.t or self.conversion(b.t, a.t, False, b.const) or self.conversion(a.t, b.t, False, a.const)):
                r = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[op]
                return E(et, lambda fr: r(a.f(fr), b.f(fr)))
            if op in ("+", "-"):
                return E(et if a.t is not b.t else et.underlying(), lambda fr: a.f(fr) + b.f(fr) if op == "+" else a.f(fr) - b.f(fr))
            self.fail("CS0019", "%s %s %s" % (a.t.name, op, b.t.name), line)
        t = self.promote(a, b, op, line)
        a, b = self.convert(a, t, line, True), self.convert(b, t, line, True)
        af, bf, num = a.f, b.f, t.num
        if op == "+":
            f = lambda fr: wrap(af(fr) + bf(fr), num)
        elif op == "-":
            f = lambda fr: wrap(af(fr) - bf(fr), num)
        elif op == "*":
            f = lambda fr: wrap(af(fr) * bf(fr), num)
        elif op == "&":
            f = lambda fr: af(fr) & bf(fr)
        elif op == "|":
            f = lambda fr: af(fr) | bf(fr)
        elif op == "^":
            f = lambda fr: af(fr) ^ bf(fr)
        elif op in ("/", "%"):
            def f(fr):
                x, y = af(fr), bf(fr)
                if y == 0:
                    u.throw("DivideByZeroException", "")
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return wrap(q if op == "/" else x - q * y, num)
        else:
            raise Unsupported(op)
        if num is None:
            r = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}.get(op)
            if r is None:
                self.fail("CS0019", op, line)
            f = lambda fr: r(af(fr), bf(fr))
        return E(t, f)

    def fold(self, r, *xs):
        if all(x.const is not NOCONST for x in xs):
            return const(r.t, r.f(None))
        return r

    def binary(self, op, a, b, line):
        u = self.u
        if op in ("&&", "||"):
            a, b = self.convert(a, u.BOOLEAN, line), self.convert(b, u.BOOLEAN, line)
            af, bf = a.f, b.f
            return self.fold(E(u.BOOLEAN, (lambda fr: af(fr) and bf(fr)) if op == "&&" else (lambda fr: af(fr) or bf(fr))), a, b)
        if op in ("==", "!="):
            return self.equality(op, a, b, line)
        if op == "+" and (a.t is u.STRING or b.t is u.STRING):
            return self.fold(E(u.STRING, lambda fr: u.to_string(a.f(fr), a.t) + u.to_string(b.f(fr), b.t)), a, b)
        if op in ("+", "-") and a.t.kind == "delegate":
            b = self.convert(b, a.t, line)
            return E(a.t, lambda fr: combine(op, a.f(fr), b.f(fr)))
        if op in ("&", "|", "^") and a.t is u.BOOLEAN and b.t is u.BOOLEAN:
            r = {"&": lambda x, y: x and y, "|": lambda x, y: x or y, "^": lambda x, y: x != y}[op]
            return self.fold(E(u.BOOLEAN, lambda fr: r(a.f(fr), b.f(fr))), a, b)
        if op in ("<", ">", "<=", ">="):
            r = {"<": lambda x, y: x < y, ">": lambda x, y: x > y, "<=": lambda x, y: x <= y, ">=": lambda x, y: x >= y}[op]
            lift = a.t.nullable or b.t.nullable
            if lift:
                ua, ub = (E(x.t.args[0] if x.t.nullable else x.t, x.f, x.const) for x in (a, b))
                self.promote(ua, ub, op, line)
                return E(u.BOOLEAN, lambda fr: (lambda x, y: x is not None and y is not None and r(x, y))(a.f(fr), b.f(fr)))
            if not (a.t.enum and b.t is a.t):
                t = self.promote(a, b, op, line)
                a, b = self.convert(a, t, line, True), self.convert(b, t, line, True)
            af, bf = a.f, b.f
            return self.fold(E(u.BOOLEAN, lambda fr: r(af(fr), bf(fr))), a, b)
        if a.t.nullable or b.t.nullable:
            ua, ub = (E(x.t.args[0] if x.t.nullable else x.t, x.f, x.const) for x in (a, b))
            sa, sb = self.scope.declare("<l%d>" % self.scope.n, ua.t), self.scope.declare("<l%d>" % self.scope.n, ub.t)
            r = self.arithmetic(op, E(ua.t, lambda fr: fr[sa]), E(ub.t, lambda fr: fr[sb], ub.const), line)

            def f(fr):
                x, y = a.f(fr), b.f(fr)
                if x is None or y is None:
                    return None
                fr[sa], fr[sb] = x, y
                return r.f(fr)
            return E(u.nullable(r.t), f)
        return self.fold(self.arithmetic(op, a, b, line), a, b)

    def equality(self, op, a, b, line):
        u = self.u
        if a.lambda_ or b.lambda_:
            self.fail("CS0019", "comparing lambdas", line)
        if a.t.is_null or b.t.is_null:
            o = b if a.t.is_null else a
            if not o.t.isref and not o.t.nullable and not o.t.is_null:
                self.fail("CS0019", "%s %s null" % (o.t.name, op), line)
            f = o.f
            return E(u.BOOLEAN, (lambda fr: f(fr) is None) if op == "==" else (lambda fr: f(fr) is not None))
        x, y = (t.args[0] if t.nullable else t for t in (a.t, b.t))
        if x.num and y.num:
            self.promote(E(x, a.f, a.const), E(y, b.f, b.const), op, line)
            eq = lambda v, w: v == w
        elif x is u.BOOLEAN and y is u.BOOLEAN or x is u.STRING and y is u.STRING or x.short in ("Double", "Single") and (y.num or y is x):
            eq = lambda v, w: v == w
        elif x.enum or y.enum:
            if x is not y and not (x.enum and b.const == 0 and y.num) and not (y.enum and a.const == 0 and x.num):
                self.fail("CS0019", "%s %s %s" % (a.t.name, op, b.t.name), line)
            eq = lambda v, w: v == w
        elif x.kind == "tuple" and y.kind == "tuple" and len(x.args) == len(y.args):
            eq = lambda v, w: v == w
        elif x.isref and y.isref:
            if not (x.sub(y) or y.sub(x) or x.kind == "interface" or y.kind == "interface"):
                self.fail("CS0019", "%s %s %s" % (a.t.name, op, b.t.name), line)
            eq = lambda v, w: v is w or isinstance(v, Deleg) and isinstance(w, Deleg) and v.fs == w.fs or \
                (isinstance(v, str) and v == w and x is u.STRING and y is u.STRING)
        else:
            self.fail("CS0019", "%s %s %s" % (a.t.name, op, b.t.name), line)
        af, bf = a.f, b.f
        return self.fold(E(u.BOOLEAN, (lambda fr: eq(af(fr), bf(fr))) if op == "==" else (lambda fr: not eq(af(fr), bf(fr)))), a, b)

    def x_bin(self, e, hint):
        _, op, a, b, line = e
        a = self.value(a)
        return self.binary(op, a, self.value(b), line)

    def x_un(self, e, hint):
        _, op, x, line = e
        u = self.u
        if op in ("++", "--"):
            return self.increment(x, op, False, line)
        if op == "-" and x[0] == "num" and x[1] in ("2147483648", "9223372036854775808"):
            return const(u.INT32 if x[1] == "2147483648" else u.INT64, -int(x[1]))
        x = self.value(x)
        if op == "!":
            x = self.convert(x, u.BOOLEAN, line)
            f = x.f
            return self.fold(E(u.BOOLEAN, lambda fr: not f(fr)), x)
        if x.t.nullable:
            raise Unsupported("unary operators of nullables")
        if not x.t.num and not (op == "~" and x.t.enum) and x.t.short not in ("Double", "Single"):
            self.fail("CS0023", "%s %s" % (op, x.t.name), line)
        if x.t.enum:
            num = x.t.underlying().num
            return E(x.t, lambda fr: wrap(~x.f(fr), num))
        if not x.t.num:
            return E(x.t, lambda fr: -x.f(fr) if op == "-" else x.f(fr))
        t = x.t if x.t in (u.UINT32, u.INT64, u.UINT64) else u.INT32
        if op == "-":
            if t is u.UINT64:
                self.fail("CS0023", "- %s" % x.t.name, line)
            if t is u.UINT32:
                t = u.INT64
        f, num = x.f, t.num
        g = {"-": lambda fr: wrap(-f(fr), num), "+": f, "~": lambda fr: wrap(~f(fr), num)}[op]
        return self.fold(E(t, g), x)

    # ------------------------------------------------------------ places
    def place(self, e, line):
        """(type, prepare) where prepare(frame) gives (get, set) of a variable, evaluating its parts once."""
        u = self.u
        while e[0] == "paren":
            e = e[1]
        if e[0] == "index":
            _, target, ix, line = e
            x = self.value(target)
            if x.t.kind == "array":
                i = self.index(ix[0], line)

                def prep(fr):
                    a, k = x.f(fr), i(fr)
                    if a is None:
                        u.throw("NullReferenceException", "an array is null")
                    if not 0 <= k < len(a.v):
                        u.throw("IndexOutOfRangeException", "")
                    return (lambda: a.v[k]), (lambda v: a.v.__setitem__(k, v))
                return x.t.args[0], prep
            p, fs = self.pick_indexer(x.t, ix, line)
            if not p.has_set:
                self.fail("CS0200", "the indexer of %s is read-only" % x.t.name, line)
            if p.set_private and not self.inside(p.owner):
                self.fail("CS0272", "the indexer of %s cannot be set here" % x.t.name, line)

            def prep(fr):
                o = x.f(fr)
                args = [f(fr) for f in fs]
                return (lambda: self.get_prop(p, o, args)), (lambda v: self.set_prop(p, o, args + [v]))
            return p.ty(), prep
        if e[0] == "name":
            found = self.scope.find(e[1])
            if found:
                d, (i, t, ref) = found
                up = self.up(d)
                if ref:
                    return t, (lambda fr: (lambda r: (r.get, r.set))(up(fr)[i]))
                return t, (lambda fr: (lambda g: ((lambda: g[i]), (lambda v: g.__setitem__(i, v))))(up(fr)))
        x = self.expr(e)
        if not isinstance(x, E) or x.set is None:
            self.fail("CS0131", "this cannot be assigned", line)
        return x.t, x.set

    @staticmethod
    def up(d):
        if d == 0:
            return lambda fr: fr
        if d == 1:
            return lambda fr: fr[1]

        def f(fr):
            for _ in range(d):
                fr = fr[1]
            return fr
        return f

    def x_assign(self, e, hint):
        _, op, left, right, line = e
        u = self.u
        if op == "=" and left[0] == "tuple":
            ps = [self.place(l, line) for l in left[1]]
            x = self.convert(self.value(right, u.tuple([t for t, _ in ps], [None] * len(ps))), u.tuple([t for t, _ in ps], [None] * len(ps)), line)

            def f(fr):
                gs = [p(fr) for _, p in ps]
                v = x.f(fr)
                for (g, s), w in zip(gs, v):
                    s(w)
                return v
            return E(x.t, f)
        if op == "=" and left == ("name", "_", [], left[-1] if len(left) > 3 else 0) and not self.scope.find("_"):
            return self.value(right)
        t, prep = self.place(left, line)
        if op == "=":
            x = self.convert(self.expr(right, t), t, line)
            xf = self.copied(x)

            def f(fr):
                g, s = prep(fr)
                v = xf(fr)
                s(v)
                return v
            return E(t, f)
        i = self.scope.declare("<op %d>" % self.scope.n, t)
        cur = E(t, lambda fr: fr[i])
        if op == "??=":
            x = self.convert(self.expr(right, t), t, line)

            def f(fr):
                g, s = prep(fr)
                v = g()
                if v is None:
                    v = x.f(fr)
                    s(v)
                return v
            return E(t, f)
        x = self.expr(right, t)
        if t.kind == "delegate":
            r = self.convert(x, t, line)
            rf = lambda fr: combine(op[0], fr[i], r.f(fr))
        else:
            if not isinstance(x, E):
                self.fail("CS0119", "not a value", line)
            y = self.binary(op[:-1], cur, x, line)
            if y.t.num and t.num and not self.conversion(x.t, t, False, x.const) and op not in ("<<=", ">>="):
                self.fail("CS0266", "%s %s %s" % (t.name, op, x.t.name), line)
            rf = self.convert(y, t, line, explicit=True).f

        def f(fr):
            g, s = prep(fr)
            fr[i] = g()
            v = rf(fr)
            s(v)
            return v
        return E(t, f)

    def increment(self, x, op, post, line):
        t, prep = self.place(x, line)
        if not t.num:
            self.fail("CS0023", "%s %s" % (op, t.name), line)
        d = 1 if op == "++" else -1
        num = t.num

        def f(fr):
            g, s = prep(fr)
            v = g()
            w = wrap(v + d, num)
            s(w)
            return v if post else w
        return E(t, f)

    def x_post(self, e, hint):
        return self.increment(e[2], e[1], True, e[3])

    def index(self, e, line):
        x = self.value(e)
        if not x.t.num or x.t.num is None:
            self.fail("CS0029", "%s is no index" % x.t.name, line)
        return x.f

    # ------------------------------------------------------------ names and members
    def inside(self, t):
        """Whether this code is in the text of a type."""
        d = self.cls.decl if self.cls is not None else None
        while d is not None:
            if d is t.decl:
                return True
            d = d.outer
        return False

    def visible(self, m):
        mods = m.node["mods"]
        if m.owner.kind == "interface" or mods & {"public", "internal"} or self.inside(m.owner):
            return True
        if "protected" in mods:
            d = self.cls
            while d is not None and d.decl is not None:
                if any(c.decl is m.owner.decl for c in d.chain()):
                    return True
                o = d.decl.outer
                d = self.u.make(o, d.args[:len(o.all)]) if o else None
        return False

    def x_name(self, e, hint):
        x = self.simple_name(e)
        if x is None:
            self.lacking("CS0103", "%s is not defined here" % e[1], e[3], name=e[1])
        return x

    def simple_name(self, e, types=True):
        u = self.u
        _, name, targs, line = e
        if not targs:
            found = self.scope.find(name)
            if found:
                d, (i, t, ref) = found
                up = self.up(d)
                if isinstance(t, tuple) and t and t[0] == "fn":
                    s = t[1]
                    ret = self.type(s[1], line)
                    ps = [dict(p, ty=self.type(p["ty"], line)) for p in s[3]]
                    return LocalFunction(ret, ps, lambda fr: up(fr)[i], name)
                if ref:
                    return E(t, lambda fr: up(fr)[i].get())
                if d == 0:
                    return E(t, lambda fr: fr[i])
                return E(t, lambda fr: up(fr)[i])
        c = self.cls
        depth = 0
        while c is not None and c.decl is not None:
            m = c.find(name)
            if m is not None:
                if depth == 0:
                    return self.member_of(None, c, name, targs, line, implicit=True)
                return self.member_of(TE(c), c, name, targs, line)
            if c.nested(name, len(targs)) or (not targs and name in c.env):
                break
            o = c.decl.outer
            c = u.make(o, c.args[:len(o.all)]) if o else None
            depth += 1
        return self.type_name(name, targs, line)

    def type_name(self, name, targs, line):
        u = self.u
        if name in ALIAS and not targs:
            return TE(u.system(ALIAS[name]))
        found = u.lookup(name, len(targs), self.cls, self.env, self.node)
        if found is None:
            if not targs:
                for n in range(1, 4):
                    if u.lookup(name, n, self.cls, self.env, self.node):
                        self.fail("CS0305", "%s takes %d type arguments, not 0" % (name, n), line)
            return None
        if isinstance(found, NE):
            return found
        return TE(self.type((name, targs), line))

    def get_prop(self, p, o, args):
        if p.static:
            return p.getter()(None, args)
        if o is None:
            self.u.throw("NullReferenceException", "%s of null" % p.name)
        if p.virtual:
            return self.u.virtual_prop(p, o, "get", args)
        return p.getter()(o, args)

    def set_prop(self, p, o, args):
        if p.static:
            return p.setter()(None, args)
        if o is None:
            self.u.throw("NullReferenceException", "%s of null" % p.name)
        if p.virtual:
            return self.u.virtual_prop(p, o, "set", args)
        return p.setter()(o, args)

    def member_of(self, target, t, name, targs, line, implicit=False):
        """A member: target is E (an object), TE (a type) or None (this, or static)."""
        u = self.u
        m = t.find(name)
        if m is None:
            return None
        static_only = isinstance(target, TE)
        if isinstance(m, list):
            ms = [x for x in m if self.visible(x)]
            if not ms:
                self.fail("CS0122", "%s.%s is not accessible" % (t.name, name), line)
            return MG(target if isinstance(target, E) else None, t, ms, targs, name, static_only)
        if not self.visible(m):
            self.fail("CS0122", "%s.%s is not accessible" % (t.name, name), line)
        if static_only and not m.static:
            self.fail("CS0120", "%s.%s needs an object" % (t.name, name), line)
        if isinstance(target, E) and m.static:
            self.fail("CS0176", "%s.%s is static" % (t.name, name), line)
        if implicit and not m.static and self.static:
            self.fail("CS0120", "%s needs an object" % name, line)
        ty = m.ty()
        in_ctor = self.method is not None and self.method.ctor and self.method.owner is m.owner and self.method.static == m.static
        owner = m.owner
        if isinstance(m, Field):
            if m.const:
                return const(ty, m.constant())
            if m.static:
                def get(fr):
                    owner.init()
                    return owner.statics[name]

                def prep(fr):
                    owner.init()
                    return (lambda: owner.statics[name]), (lambda v: owner.statics.__setitem__(name, v))
            else:
                tf = target.f if target is not None else (lambda fr: fr[0])

                def get(fr):
                    o = tf(fr)
                    if o is None:
                        u.throw("NullReferenceException", "%s of null" % name)
                    return o.fields[name]

                def prep(fr):
                    o = tf(fr)
                    if o is None:
                        u.throw("NullReferenceException", "%s of null" % name)
                    return (lambda: o.fields[name]), (lambda v: o.fields.__setitem__(name, v))
            x = E(ty, get)
            if m.event and not self.inside(owner):
                # only += and -=
                x.set = prep
                x.event = m
            elif not m.readonly or in_ctor:
                x.set = prep
            return x
        if not m.has_get:
            self.fail("CS0154", "%s cannot be read" % name, line)
        if m.static:
            g = m.getter
            x = E(ty, lambda fr: g()(None, []))
            obj = lambda fr: None
        else:
            obj = target.f if target is not None else (lambda fr: fr[0])
            if m.auto and not m.virtual:
                def get(fr):
                    o = obj(fr)
                    if o is None:
                        u.throw("NullReferenceException", "%s of null" % name)
                    return o.fields[name]
                x = E(ty, get)
            else:
                x = E(ty, lambda fr: self.get_prop(m, obj(fr), []))
        settable = m.has_set and (not m.set_private or self.inside(owner)) or m.auto and in_ctor and not m.has_set
        if settable:
            def prep(fr):
                o = obj(fr)
                if m.auto and not m.has_set:
                    if m.static:
                        return (lambda: owner.statics[name]), (lambda v: owner.statics.__setitem__(name, v))
                    return (lambda: o.fields[name]), (lambda v: o.fields.__setitem__(name, v))
                return (lambda: self.get_prop(m, o, [])), (lambda v: self.set_prop(m, o, [v]))
            x.set = prep
        return x

    def x_member(self, e, hint):
        _, left, name, targs, line = e
        u = self.u
        if left[0] == "base":
            x = self.x_base(left, None)
            r = self.member_of(x, x.t, name, targs, line)
            if isinstance(r, MG):
                r.base = "base"
            return r
        alt = None
        if left[0] == "name" and not left[2]:
            try:
                x = self.simple_name(left)
            except CsError as err:
                x = self.type_name(left[1], [], line) if err.code == "CS0120" else None
                if x is None:
                    raise
            if x is None:
                self.lacking("CS0103", "%s is not defined here" % left[1], line, name=left[1])
            if isinstance(x, E):
                try:
                    alt = self.type_name(left[1], [], line)
                except CsError:
                    alt = None
                if not (isinstance(alt, TE) and alt.t is x.t):
                    alt = None
            elif self.cls is not None:
                pass
        else:
            try:
                x = self.expr(left)
            except CsError as err:
                # Color Color, where the instance member is not accessible without an object
                raise
        if isinstance(x, NE):
            full = x.name + "." + name
            d = u.decls.get((x.name, name, len(targs)))
            if d:
                return TE(u.make(d, [self.type(t, line) for t in targs]))
            if full in u.namespaces:
                return NE(full)
            if x.name.split(".")[0] == "System":
                raise CsMissing("CS0234", full, self.file, line)
            self.fail("CS0234", "%s is not in %s" % (name, x.name), line)
        if isinstance(x, TE):
            t = x.t
            if t.enum and name in t.enums():
                return const(t, t.enums()[name])
            r = self.member_of(x, t, name, targs, line)
            if r is None:
                n = t.nested(name, len(targs))
                if n:
                    return TE(u.make(n[1], list(n[0].args[:len(n[0].decl.all)]) + [self.type(a, line) for a in targs]))
                self.lacking("CS0117", "%s has no %s" % (t.name, name), line, t)
            return r
        if isinstance(x, (MG, LocalFunction)):
            self.fail("CS0119", "%s is a method" % getattr(x, "name", ""), line)
        if x.t.is_null:
            self.fail("CS0023", "a member of null", line)
        if alt is not None:
            m = x.t.find(name)
            static = m is not None and (any(y.static for y in m) and all(y.static for y in m) if isinstance(m, list) else m.static)
            if static or (m is None and not self.has_extension(x.t, name)):
                if x.t.nested(name, len(targs)) or static:
                    return self.member_of(alt, alt.t, name, targs, line) or TE(self.type((name, targs, (left[1], [])), line))
            if isinstance(m, list) and any(y.static for y in m):
                r = self.member_of(x, x.t, name, targs, line)
                r.alt = alt
                return r
        return self.instance_member(x, name, targs, line)

    def has_extension(self, t, name):
        return any(name in self.u.make(d, ()).members()["methods"] for d in self.u.extension_hosts)

    def instance_member(self, x, name, targs, line):
        u = self.u
        t = x.t
        if t.kind == "tuple":
            names = list(t.names)
            i = names.index(name) if name in names else int(name[4:]) - 1 if re.match(r"Item\d+$", name) else -1
            if not 0 <= i < len(t.args):
                self.fail("CS1061", "%s has no %s" % (t.name, name), line)
            return E(t.args[i], lambda fr: x.f(fr)[i])
        if t.kind == "delegate" and name == "Invoke":
            return DelegateInvoke(x)
        if isinstance(t, tuple):
            raise Unsupported("open type")
        if t.find(name) is None:
            ext = self.extensions(name)
            if ext:
                return MG(x, t, ext, targs, name, "extension")
            self.lacking("CS1061", "%s has no %s" % (t.name, name), line, t)
        if not t.isref and not t.nullable and not t.user_struct:
            # members of primitives are those of the boxed value
            m = t.find(name)
            if isinstance(m, list):
                return MG(E(t, lambda fr: u.box(x.f(fr), t)), t, m, targs, name, "boxed")
        if t.kind == "class" and t is u.STRING or t.kind == "array":
            pass
        return self.member_of(x, t, name, targs, line)

    def extensions(self, name):
        u = self.u
        out = []
        usings = self.node.get("usings", []) if self.node else []
        ns = self.cls.decl.ns if self.cls is not None and self.cls.decl is not None else ""
        for d in u.extension_hosts:
            if d.ns in usings or ns == d.ns or ns.startswith(d.ns + ".") or d.ns == "":
                out += [m for m in u.make(d, ()).members()["methods"].get(name, []) if m.extension and self.visible(m)]
        return out

    def x_index(self, e, hint):
        u = self.u
        _, target, ix, line = e
        x = self.value(target)
        if x.t.kind == "array":
            i = self.index(ix[0], line)

            def f(fr):
                a, k = x.f(fr), i(fr)
                if a is None:
                    u.throw("NullReferenceException", "an array is null")
                if not 0 <= k < len(a.v):
                    u.throw("IndexOutOfRangeException", "")
                return a.v[k]
            return E(x.t.args[0], f)
        p, fs = self.pick_indexer(x.t, ix, line)
        return E(p.ty(), lambda fr: self.get_prop(p, x.f(fr), [f(fr) for f in fs]))

    def pick_indexer(self, t, ix, line):
        for p in t.indexers():
            ps = p.params()
            if len(ps) == len(ix):
                xs = [self.value(i, q["ty"]) for i, q in zip(ix, ps)]
                if all(self.conversion(x.t, q["ty"], False, x.const) for x, q in zip(xs, ps)):
                    return p, [self.convert(x, q["ty"], line).f for x, q in zip(xs, ps)]
        self.fail("CS0021", "%s has no such indexer" % t.name, line)

    # ------------------------------------------------------------ calls
    def x_lambda(self, e, hint):
        _, names, body = e
        u = self.u
        outer = self

        def make(t):
            ret, ps = t.signature()
            if len(ps) != len(names):
                outer.fail("CS1593", "%s takes %d parameters" % (t.name, len(ps)))
            sc = Scope(outer.scope, ret, "lambda")
            c = Comp(u, outer.cls, outer.method, outer.node, outer.static, sc)
            for n, p in zip(names, ps):
                sc.declare(n, p["ty"])
            f = c.block_body(body, arrow=ret)

            def create(fr):
                def call(args):
                    g = [fr[0], fr] + list(args)
                    g += [None] * (sc.n - len(g))
                    r = f(g)
                    return r.v if isinstance(r, Return) else None
                return Deleg(t, [call])
            return E(t, create)

        def infer(types):
            """The type a lambda returns for parameters of these types."""
            sc = Scope(outer.scope, None, "lambda")
            c = Comp(u, outer.cls, outer.method, outer.node, outer.static, sc)
            for n, t in zip(names, types):
                sc.declare(n, t)
            c.block_body(body)
            return getattr(c, "arrow_type", None) or getattr(c, "returned", None) or u.VOID
        x = E(u.NULL, None)
        x.lambda_ = make
        x.free = infer
        if hint is not None and not isinstance(hint, tuple) and hint.kind == "delegate":
            return make(hint)
        return x

    def x_call(self, e, hint):
        u = self.u
        _, f, args, line = e
        if f[0] == "name":
            x = self.simple_name(f)
            if x is None:
                self.fail("CS0103", "%s is not defined here" % f[1], line)
        else:
            x = self.expr(f)
        if isinstance(x, LocalFunction):
            ps, fs = self.fit_or_fail(x.ps, args, x.name, line)
            return E(x.ret, lambda fr: x.f(fr)([g(fr) for g in fs]))
        if isinstance(x, DelegateInvoke):
            x = x.x
        if isinstance(x, E):
            if x.t.kind != "delegate":
                self.fail("CS0149", "%s is not called" % x.t.name, line)
            if x.event and not self.inside(x.event.owner):
                self.fail("CS0070", "an event is raised outside its class", line)
            ret, ps = x.t.signature()
            ps, fs = self.fit_or_fail(ps, args, x.t.name, line)

            def call(fr):
                d = x.f(fr)
                a = [g(fr) for g in fs]
                if d is None:
                    u.throw("NullReferenceException", "a delegate is null")
                return d.call(a)
            return E(ret, call)
        if not isinstance(x, MG):
            self.fail("CS0149", "not a method", line)
        if x.base == "extension":
            return self.call_extension(x, args, line)
        targs = [self.type(t, line) for t in x.targs]
        try:
            m, fs = self.pick(x.methods, args, x.name, line, targs)
        except CsError:
            ext = self.extensions(x.name) if x.target is not None else []
            if ext:
                return self.call_extension(MG(x.target, x.t, ext, x.targs, x.name, "extension"), args, line)
            raise
        ret = m.ret()
        if m.static:
            if x.target is not None and getattr(x, "alt", None) is None:
                self.fail("CS0176", "%s is static" % m.name, line)
            owner = m.owner

            def call(fr):
                a = [g(fr) for g in fs]
                owner.init()
                return m.code()(None, a)
            return E(ret, call)
        if x.target is None:
            if self.static or x.base is True:
                self.fail("CS0120", "%s needs an object" % m.name, line)
            tf = lambda fr: fr[0]
        else:
            tf = x.target.f
        virtual = m.virtual and x.base != "base"

        def call(fr):
            o = tf(fr)
            a = [g(fr) for g in fs]
            if o is None and not (x.t.nullable):
                u.throw("NullReferenceException", "%s of null" % m.name)
            if virtual:
                return u.invoke_virtual(m, o, a)
            return m.code()(o, a)
        return E(ret, call)

    def call_extension(self, x, args, line):
        targs = [self.type(t, line) for t in x.targs]
        m, fs = self.pick(x.methods, [(None, "", ("given", x.target))] + args, x.name, line, targs)
        owner = m.owner

        def call(fr):
            a = [g(fr) for g in fs]
            owner.init()
            return m.code()(None, a)
        return E(m.ret(), call)

    def x_given(self, e, hint):
        return e[1]

    def fit_or_fail(self, ps, args, name, line):
        r = self.fit(ps, args, {}, line)
        if r is None:
            self.fail("CS1501", "%s is called with wrong arguments" % name, line)
        return ps, r[1]

    def pick(self, methods, args, name, line, targs=()):
        """Overload resolution: the method and its arguments, all given."""
        best, why = [], None
        for m in methods:
            if targs and len(m.tparams) != len(targs):
                continue
            if m.tparams:
                if targs:
                    b = m.bind(targs)
                else:
                    b = self.infer(m, args)
                    if b is None:
                        continue
            else:
                b = m
            try:
                r = self.fit(b.params(), args, {}, line)
            except CsError as e:
                why = why or e
                continue
            if r is not None:
                best.append((r[0], bool(m.tparams), b, r[1]))
        if not best:
            if why is not None and why.code not in ("CS0029",):
                raise why
            self.lacking("CS1501", "no %s takes these arguments" % name, line, methods[0].owner if methods else None)
        best.sort(key=lambda x: (x[0], x[1]))
        # a method of a derived class hides those of its bases
        return best[0][2], best[0][3]

    def infer(self, m, args):
        u = self.u
        env = {}
        ps = m.params()
        later = []
        try:
            for (n, how, a), p in zip(args, ps):
                if n is not None:
                    p = next((q for q in ps if q["name"] == n), None)
                    if p is None:
                        return None
                if how == "outvar":
                    continue
                if a[0] == "lambda":
                    later.append((a, p["ty"]))
                    continue
                x = self.expr(a)
                if isinstance(x, MG):
                    later.append((x, p["ty"]))
                    continue
                if not isinstance(x, E):
                    return None
                u.unify(p["ty"], x.t, env)
            for a, ty in later:
                if isinstance(ty, tuple) and ty[0] == "<>" and ty[1].kind == "delegate":
                    node = ty[1].nodes[0]
                    names = dict(zip(ty[1].all, ty[2]))
                    ins = []
                    for p in node["sig"]:
                        t = names.get(p["ty"][0]) if not p["ty"][1] else None
                        if t is None:
                            t = u.resolve(p["ty"], u.make(ty[1], [u.OBJECT] * len(ty[1].all)), None, node)
                        ins.append(u.subst(t, env))
                    ret = names.get(node["ret"][0])
                    if ret is not None and isinstance(ret, tuple):
                        if isinstance(a, MG):
                            u.unify(ret, a.methods[0].ret(), env)
                        else:
                            u.unify(ret, self.x_lambda(a, None).free(ins), env)
            return m.bind([env[n] for n in m.tparams])
        except KeyError:
            return None

    def fit(self, ps, args, env, line):
        """(cost, [function giving each argument]) if the arguments fit the parameters."""
        u = self.u
        slots = [None] * len(ps)
        names = [p["name"] for p in ps]
        expanded = False
        named = False
        for i, (n, how, a) in enumerate(args):
            if n is not None:
                if n not in names:
                    return None
                j = names.index(n)
                named = True
            else:
                j = i
            if j >= len(ps):
                expanded = True
                break
            if slots[j] is not None:
                return None
            slots[j] = (how, a)
        last = ps[-1] if ps and ps[-1]["how"] == "params" else None
        if expanded and not last:
            return None
        if last is not None:
            k = len(ps) - 1
            normal = not expanded and slots[k] is not None
            if normal:
                x = self.expr(slots[k][1], last["ty"])
                normal = isinstance(x, E) and not x.lambda_ and self.conversion(x.t, last["ty"]) is not None
            if not normal:
                rest = [a for n, how, a in args[k:]]
                head = self.fit(ps[:k], args[:k], env, line)
                if head is None:
                    return None
                et = last["ty"].args[0]
                cost, fs = head
                items = []
                for a in rest:
                    c, f = self.fit_one(a, "", dict(last, ty=et, how=""), line) or (None, None)
                    if f is None:
                        return None
                    cost += c
                    items.append(f)
                at = last["ty"]
                return cost + 50, fs + [lambda fr: Arr(at, [f(fr) for f in items])]
        cost, out = 0, []
        for s, p in zip(slots, ps):
            if s is None:
                if p["default"] is None:
                    return None
                x = self.default_value(p, line)
                out.append(x.f)
                cost += 20
                continue
            how, a = s
            r = self.fit_one(a, how, p, line)
            if r is None:
                return None
            cost += r[0]
            out.append(r[1])
        return cost, out

    def default_value(self, p, line):
        return self.convert(self.expr(p["default"], p["ty"]), p["ty"], line)

    def fit_one(self, a, how, p, line):
        u = self.u
        t = p["ty"]
        if how == "outvar":
            if p["how"] != "out":
                return None
            i = self.scope.declare(a, t)
            return 0, lambda fr: Ref(lambda: fr[i], lambda v: fr.__setitem__(i, v))
        if (p["how"] in ("ref", "out")) != (how in ("ref", "out")) or how and how != p["how"]:
            return None
        if how in ("ref", "out"):
            pt, prep = self.place(a, line)
            if pt is not t:
                return None
            return 0, lambda fr: (lambda gs: Ref(gs[0], gs[1]))(prep(fr))
        if a[0] == "lambda":
            if t.kind != "delegate" or len(t.signature()[1]) != len(a[1]):
                return None
            return 0, self.x_lambda(a, t).f
        x = self.expr(a, t)
        if isinstance(x, (MG, LocalFunction)):
            try:
                if isinstance(x, LocalFunction):
                    if t.kind != "delegate":
                        return None
                    return 1, lambda fr: Deleg(t, [x.f(fr)])
                return 1, self.convert(x, t, line).f
            except CsError:
                return None
        if not isinstance(x, E):
            self.fail("CS0119", "not a value", line)
        f = self.conversion(x.t, t, False, x.const)
        if f is None:
            return None
        return self.cost(x.t, t), self.copied(self.convert(x, t, line))

    def cost(self, a, b):
        if a is b:
            return 0
        if a.is_null:
            return 1 if b is not self.u.OBJECT else 2
        if a.num and b.num:
            return 1 + abs(b.num[0] - a.num[0]) // 8 + (a.num[1] != b.num[1])
        if b is self.u.OBJECT:
            return 15
        if b in a.chain():
            return 1 + a.chain().index(b)
        if b.kind == "interface":
            return 8
        return 5


class LocalFunction:
    def __init__(self, ret, ps, f, name):
        self.ret, self.ps, self.f, self.name = ret, ps, f, name


class DelegateInvoke:
    def __init__(self, x):
        self.x = x


def combine(op, a, b):
    if op == "+":
        if a is None or b is None:
            return a or b
        return Deleg(a.t, a.fs + b.fs)
    if a is None or b is None:
        return a
    fs = list(a.fs)
    for f in b.fs:
        if f in fs:
            fs.reverse()
            fs.remove(f)
            fs.reverse()
    return Deleg(a.t, fs) if fs else None


def has_yield(stmts):
    for s in stmts:
        if isinstance(s, tuple):
            if s and s[0] == "yield":
                return True
            if s and s[0] in ("function", "expr", "arrow"):
                continue
            if has_yield(s):
                return True
        elif isinstance(s, list) and has_yield(s):
            return True
    return False


def falls_through(stmts, switch=False):
    """Whether control can reach the end of statements."""
    return not any(ends(s, switch) for s in stmts) and not (len(stmts) == 1 and stmts[0][0] == "arrow")


def ends(s, switch=False):
    k = s[0]
    if k in ("return", "throw"):
        return True
    if k in ("break", "continue"):
        return True
    if k == "block":
        return not falls_through(s[1], switch)
    if k == "if":
        return bool(s[3]) and not falls_through(s[2], switch) and not falls_through(s[3], switch)
    if k == "while":
        return s[1] == ("lit", True) and not breaks(s[2])
    if k == "for":
        return (s[2] is None or s[2] == ("lit", True)) and not breaks(s[4])
    if k == "do":
        return s[2] == ("lit", True) and not breaks(s[1]) or not falls_through(s[1])
    if k == "switch":
        return any(None in labels for labels, _ in s[2]) and all(not breaks(b) and not falls_through(b) for _, b in s[2])
    if k == "try":
        return bool(s[3]) and not falls_through(s[3]) or \
            not falls_through(s[1], switch) and all(not falls_through(b, switch) for _, _, b in s[2])
    return False


def breaks(stmts):
    """Whether statements leave the loop or switch around them."""
    for s in stmts:
        k = s[0]
        if k == "break":
            return True
        if k == "block" and breaks(s[1]):
            return True
        if k == "if" and (breaks(s[2]) or breaks(s[3])):
            return True
        if k == "try" and (breaks(s[1]) or breaks(s[3]) or any(breaks(b) for _, _, b in s[2])):
            return True
    return False


def virtual_prop(u, p, o, which, args):
    t = o.t if isinstance(o, Obj) else u.type_of(o)
    key = (p.name, which, len(args), "prop", id(p.node))
    if key not in t.codes:
        q = None
        for c in t.chain():
            if p.name == "this[]":
                for x in c.members()["indexers"]:
                    if [a["ty"] for a in x.params()] == [a["ty"] for a in p.params()]:
                        q = x
                        break
            elif p.name in c.members()["props"]:
                q = c.members()["props"][p.name]
            if q is not None:
                break
        t.codes[key] = q
    q = t.codes[key]
    if q is None or which == "set" and not q.has_set:
        if which == "get" and isinstance(o, Arr):
            return NATIVE["Array", "get " + p.name](p, o, *args)
        if which == "set" and isinstance(o, Arr):
            return NATIVE["Array", "set " + p.name](p, o, *args)
        u.throw("NotSupportedException", "%s of %s" % (p.name, t.name))
    return (q.getter() if which == "get" else q.setter())(o, args)


Universe.virtual_prop = virtual_prop


# ---------------------------------------------------------------- the class library
NATIVE = {}


def native(t, name, m):
    for c in t.chain() if t.kind != "interface" else [t]:
        f = NATIVE.get((c.short, name))
        if f:
            return f
    raise Unsupported("%s.%s" % (t.name, name))


def lib(*names):
    def deco(f):
        for n in names:
            cls, _, mem = n.partition(".")
            NATIVE[cls, mem] = f
        return f
    return deco


def lower(v):
    """A value as a key of a Python dict."""
    return v


@lib("Object.ToString")
def _(m, this):
    u = m.owner.u
    if isinstance(this, Box):
        return u.to_string(this.v, this.t)
    if isinstance(this, str):
        return this
    return u.type_of(this).full


@lib("Object.Equals")
def _(m, this, *args):
    if len(args) == 1:
        return same(this, args[0])
    u, (a, b) = m.owner.u, args
    if a is None or b is None or a is b:
        return a is b
    return u.invoke_virtual(u.find_static(u.OBJECT, "Equals", 1), a, [b])


def same(a, b):
    if isinstance(a, Box) and isinstance(b, Box):
        return a.t is b.t and a.v == b.v
    if isinstance(a, (str, int, bool)) and not isinstance(b, (Obj, Arr, Box)):
        return a == b
    return a is b


@lib("Object.GetHashCode")
def _(m, this):
    return hash(this.v if isinstance(this, Box) else this if isinstance(this, str) else id(this)) & 0x7fffffff


@lib("Object.GetType")
def _(m, this):
    u = m.owner.u
    return u.type_object(u.type_of(this))


@lib("Object.ReferenceEquals")
def _(m, this, a, b):
    return a is b


@lib("Boolean.Equals")
def _(m, this, o):
    return (this.v if isinstance(this, Box) else this) == o


NATIVE["Char", "IsUpper"] = lambda m, this, c: chr(c).isupper()
NATIVE["Char", "IsLower"] = lambda m, this, c: chr(c).islower()
NATIVE["Char", "ToUpper"] = lambda m, this, c: ord(chr(c).upper())
NATIVE["Char", "ToLower"] = lambda m, this, c: ord(chr(c).lower())

# strings
NATIVE["String", "get Empty"] = lambda p, this: ""
NATIVE["String", "get Length"] = lambda p, this: len(this.encode("utf-16-le", "surrogatepass")) // 2


@lib("String.get this[]")
def _(p, this, i):
    if not 0 <= i < len(this):
        p.owner.u.throw("IndexOutOfRangeException", "")
    return ord(this[i])


@lib("String.Format")
def _(m, this, fmt, args):
    return m.owner.u.format(fmt, args.v)


@lib("String.Join")
def _(m, this, sep, xs):
    u = m.owner.u
    if m.targs:
        return (sep or "").join(u.to_string(x, m.targs[0]) for x in u.seq(xs))
    return (sep or "").join(u.to_string(x) for x in xs.v)


NATIVE["String", "Concat"] = lambda m, this, xs: "".join(m.owner.u.to_string(x) for x in xs.v)
NATIVE["String", "IsNullOrEmpty"] = lambda m, this, s: not s
NATIVE["String", "StartsWith"] = lambda m, this, s: this.startswith(s)
NATIVE["String", "EndsWith"] = lambda m, this, s: this.endswith(s)
NATIVE["String", "Contains"] = lambda m, this, s: s in this
NATIVE["String", "ToLower"] = lambda m, this: this.lower()
NATIVE["String", "ToUpper"] = lambda m, this: this.upper()
NATIVE["String", "Trim"] = lambda m, this: this.strip()
NATIVE["String", "Replace"] = lambda m, this, a, b: this.replace(a, b or "")
NATIVE["String", "IndexOf"] = lambda m, this, a: this.find(a)
NATIVE["String", "ToCharArray"] = lambda m, this: Arr(m.owner.u.array(m.owner.u.CHAR), [ord(c) for c in this])


@lib("String.Substring")
def _(m, this, start, length=None):
    length = len(this) - start if length is None else length
    if start < 0 or length < 0 or start + length > len(this):
        m.owner.u.throw("ArgumentOutOfRangeException", "")
    return this[start:start + length]


# arrays
NATIVE["Array", "get Length"] = lambda p, this: len(this.v)
NATIVE["Array", "Empty"] = lambda m, this: Arr(m.owner.u.array(m.targs[0]), [])
NATIVE["Array", "get Count"] = lambda p, this: len(this.v)
NATIVE["Array", "Reverse"] = lambda m, this, a: a.v.reverse()
NATIVE["Array", "IndexOf"] = lambda m, this, a, x: next((i for i, y in enumerate(a.v) if same(x, y)), -1)
NATIVE["Array", "Clone"] = lambda m, this: Arr(this.t, list(this.v))


@lib("Array.get this[]")
def _(p, this, i):
    if not 0 <= i < len(this.v):
        p.owner.u.throw("IndexOutOfRangeException", "")
    return this.v[i]


@lib("Array.set this[]")
def _(p, this, i, v):
    if not 0 <= i < len(this.v):
        p.owner.u.throw("IndexOutOfRangeException", "")
    this.v[i] = v


@lib("Array.AsReadOnly")
def _(m, this, a):
    u = m.owner.u
    if a is None:
        u.throw("ArgumentNullException", "array")
    o = Obj(u.system("ReadOnlyCollection", m.targs[0], ns="System.Collections.ObjectModel"))
    o.n = a
    return o


@lib("Array.Copy", "Buffer.BlockCopy")
def _(m, this, a, *rest):
    u = m.owner.u
    if len(rest) == 2:
        i, b, j, n = 0, rest[0], 0, rest[1]
    else:
        i, b, j, n = rest
    if a is None or b is None:
        u.throw("ArgumentNullException", "")
    if min(i, j, n) < 0 or i + n > len(a.v) or j + n > len(b.v):
        u.throw("ArgumentException", "")
    b.v[j:j + n] = a.v[i:i + n]


@lib("Array.CopyTo")
def _(m, this, b, j):
    if j + len(this.v) > len(b.v):
        m.owner.u.throw("ArgumentException", "")
    b.v[j:j + len(this.v)] = this.v


@lib("Array.Resize")
def _(m, this, ref, n):
    u = m.owner.u
    a = ref.get()
    old = a.v if a is not None else []
    ref.set(Arr(u.array(m.targs[0]), old[:n] + [u.default(m.targs[0]) for _ in range(n - len(old))]))


NATIVE["Math", "Min"] = lambda m, this, a, b: min(a, b)
NATIVE["Math", "Max"] = lambda m, this, a, b: max(a, b)
NATIVE["Math", "Abs"] = lambda m, this, a: abs(a)


def convert_to(m, this, o):
    u = m.owner.u
    t = m.ret()
    v = o.v if isinstance(o, Box) else o
    if v is None:
        v = 0
    if t is u.BOOLEAN:
        return bool(v)
    if isinstance(v, str):
        try:
            v = int(v)
        except ValueError:
            u.throw("FormatException", v)
    v = int(v)
    if not fits(v, t.num):
        u.throw("OverflowException", "")
    return v


for _n in ("Byte", "UInt16", "UInt32", "UInt64", "SByte", "Int16", "Int32", "Int64", "Boolean"):
    NATIVE["Convert", "To" + _n] = convert_to

# nullables
NATIVE["Nullable", "get HasValue"] = lambda p, this: this is not None


@lib("Nullable.get Value")
def _(p, this):
    if this is None:
        p.owner.u.throw("InvalidOperationException", "Nullable object must have a value.")
    return this


@lib("Nullable.GetValueOrDefault")
def _(m, this, other=None):
    if this is not None:
        return this
    return other if other is not None else m.owner.u.default(m.owner.args[0])


_member = Comp.get_prop


def _get_prop(self, p, o, args):
    if p.owner.nullable:
        return p.getter()(o, args)
    return _member(self, p, o, args)


Comp.get_prop = _get_prop


# console
def write(m, this, *args):
    u = m.owner.u
    if not args:
        s = ""
    elif len(args) == 2:
        s = u.format(args[0], args[1].v)
    else:
        s = u.to_string(args[0])
    u.log.append(s)
    if len(u.log) > 10000:
        del u.log[:5000]


for _c in ("Console", "TextWriter"):
    NATIVE[_c, "WriteLine"] = NATIVE[_c, "Write"] = write


# text
@lib("StringBuilder.new StringBuilder")
def _(m, this, s=""):
    this.n = [s]


NATIVE["StringBuilder", "get Length"] = lambda p, this: sum(map(len, this.n))


@lib("StringBuilder.Append")
def _(m, this, o):
    this.n.append(m.owner.u.to_string(o))
    return this


@lib("StringBuilder.AppendLine")
def _(m, this, s):
    this.n.append(s + "\n")
    return this


@lib("StringBuilder.AppendFormat")
def _(m, this, fmt, args):
    this.n.append(m.owner.u.format(fmt, args.v))
    return this


@lib("StringBuilder.Insert")
def _(m, this, at, o):
    s = "".join(this.n)
    this.n = [s[:at] + m.owner.u.to_string(o) + s[at:]]
    return this


NATIVE["StringBuilder", "ToString"] = lambda m, this: "".join(this.n)


@lib("Encoding.new Encoding")
def _(m, this, utf8):
    this.n = utf8


@lib("Encoding.GetString")
def _(m, this, data, *span):
    u = m.owner.u
    if data is None:
        u.throw("ArgumentNullException", "bytes")
    b = data.v
    if span:
        i, n = span
        if i < 0 or n < 0 or i + n > len(b):
            u.throw("ArgumentOutOfRangeException", "")
        b = b[i:i + n]
    return bytes(b).decode("utf-8" if this.n else "ascii", "replace")


@lib("Encoding.GetBytes")
def _(m, this, s):
    return m.owner.u.bytes(s.encode("utf-8" if this.n else "ascii", "replace"))


# reflection
NATIVE["Type", "get FullName"] = lambda p, this: this.n.full
NATIVE["Type", "get Name"] = lambda p, this: this.n.full.rpartition(".")[2].rpartition("+")[2] if not this.n.args else this.n.decl.name + "`%d" % len(this.n.args)
NATIVE["Type", "get IsGenericType"] = lambda p, this: bool(this.n.args) and this.n.decl is not None
NATIVE["Type", "get IsValueType"] = lambda p, this: not this.n.isref
NATIVE["Type", "get IsEnum"] = lambda p, this: this.n.enum
NATIVE["Type", "get IsInterface"] = lambda p, this: this.n.kind == "interface"
NATIVE["Type", "get BaseType"] = lambda p, this: p.owner.u.type_object(this.n.base) if this.n.base else None
NATIVE["Type", "IsAssignableFrom"] = lambda m, this, o: o is not None and o.n.sub(this.n)
NATIVE["Type", "IsInstanceOfType"] = lambda m, this, o: m.owner.u.is_a(o, this.n)
NATIVE["Type", "IsSubclassOf"] = lambda m, this, o: o.n is not this.n and o.n in this.n.chain()
NATIVE["Type", "GetGenericArguments"] = lambda m, this: Arr(m.owner.u.array(m.owner), [m.owner.u.type_object(t) for t in this.n.args])


def accepts(m, types):
    ps = m.params()
    return len(ps) == len(types) and all(t.n is p["ty"] or t.n.isref and p["ty"].isref and t.n.sub(p["ty"]) for t, p in zip(types, ps))


@lib("Type.GetConstructor")
def _(m, this, types):
    u = m.owner.u
    if this.n.kind not in ("class", "struct"):
        return None
    for c in this.n.members()["ctors"]:
        if "public" in c.node["mods"] and accepts(c, types.v):
            o = Obj(u.system("ConstructorInfo", ns="System.Reflection"))
            o.n = c
            return o
    return None


@lib("Type.GetMethod")
def _(m, this, name, types=None):
    u = m.owner.u
    ms = this.n.find(name)
    found = [x for x in (ms if isinstance(ms, list) else []) if "public" in x.node["mods"] and (not x.static or x.owner is this.n) and
             (types is None or not x.tparams and accepts(x, types.v))]
    if not found:
        return None
    if len(found) > 1 and types is None:
        u.throw("Exception", "Ambiguous match found.")
    o = Obj(u.system("MethodInfo", ns="System.Reflection"))
    o.n = found[0]
    return o


NATIVE["MethodBase", "get Name"] = lambda p, this: this.n.name


def reflected(u, f, ps, args):
    args = args.v if args is not None else []
    if len(args) != len(ps):
        u.throw("Exception", "Parameter count mismatch.")
    vals = []
    for p, a in zip(ps, args):
        if a is None:
            vals.append(u.default(p["ty"]))
        elif p["ty"].isref:
            if not u.is_a(a, p["ty"]):
                u.throw("ArgumentException", "")
            vals.append(a)
        else:
            if not isinstance(a, Box) or a.t is not (p["ty"].args[0] if p["ty"].nullable else p["ty"]):
                u.throw("ArgumentException", "")
            vals.append(a.v)
    try:
        return f(vals)
    except CsThrow as e:
        raise CsThrow(u.exception("TargetInvocationException", "Exception has been thrown by the target of an invocation: %s" % e, e.obj, ns="System.Reflection"))


@lib("ConstructorInfo.Invoke")
def _(m, this, args):
    u, c = m.owner.u, this.n
    return u.box(reflected(u, lambda vals: u.construct(c.owner, c, vals), c.params(), args), c.owner)


@lib("MethodInfo.Invoke")
def _(m, this, target, args):
    u, f = m.owner.u, this.n
    if f.static:
        f.owner.init()
    elif target is None:
        u.throw("Exception", "Non-static method requires a target.")
    r = reflected(u, lambda vals: u.invoke_virtual(f, target, vals) if f.virtual else f.code()(None if f.static else target, vals), f.params(), args)
    return None if f.ret() is u.VOID else u.box(r, f.ret())


@lib("MethodInfo.MakeGenericMethod")
def _(m, this, types):
    o = Obj(this.t)
    o.n = this.n.bind([t.n for t in types.v])
    return o


@lib("Activator.CreateInstance")
def _(m, this, type=None, args=None):
    u = m.owner.u
    t = m.targs[0] if m.targs else type.n
    args = args.v if args is not None else []
    for c in t.members()["ctors"]:
        ps = c.params()
        if "public" in c.node["mods"] and len(ps) == len(args) and all(a is None or u.is_a(a, p["ty"]) for a, p in zip(args, ps)):
            r = reflected(u, lambda vals: u.construct(t, c, vals), ps, Arr(None, args))
            return r if m.targs else u.box(r, t)
    u.throw("MissingMethodException", "No constructor of %s" % t.name)


# collections
@lib("ListEnumerator.new ListEnumerator")
def _(m, this, items):
    this.n = m.owner.u.seq(items)


def new_list(m, this, arg=None):
    u = m.owner.u
    if isinstance(arg, int):
        if arg < 0:
            u.throw("ArgumentOutOfRangeException", "capacity")
        this.n = []
    elif arg is None:
        if m.params():
            u.throw("ArgumentNullException", "collection")
        this.n = []
    else:
        this.n = list(u.seq(arg))


for _c in ("List", "HashSet", "Queue", "Stack"):
    NATIVE[_c, "new " + _c] = new_list
    NATIVE[_c, "get Count"] = lambda p, this: len(this.n)
    NATIVE[_c, "Clear"] = lambda m, this: this.n.clear()
    NATIVE[_c, "Contains"] = lambda m, this, x: any(same(x, y) for y in this.n)
    NATIVE[_c, "GetEnumerator"] = lambda m, this: m.owner.u.list(m.owner.args[0], this.n)
NATIVE["List", "get Capacity"] = lambda p, this: len(this.n)
NATIVE["List", "set Capacity"] = lambda p, this, v: None
NATIVE["List", "Add"] = lambda m, this, x: this.n.append(x)
NATIVE["List", "AddRange"] = lambda m, this, xs: this.n.extend(list(m.owner.u.seq(xs)))
NATIVE["List", "IndexOf"] = lambda m, this, x: next((i for i, y in enumerate(this.n) if same(x, y)), -1)
NATIVE["List", "ToArray"] = lambda m, this: Arr(m.owner.u.array(m.owner.args[0]), list(this.n))
NATIVE["List", "Reverse"] = lambda m, this: this.n.reverse()
NATIVE["Stack", "Push"] = lambda m, this, x: this.n.insert(0, x)
NATIVE["Queue", "Enqueue"] = lambda m, this, x: this.n.append(x)


@lib("Stack.Pop", "Queue.Dequeue")
def _(m, this):
    if not this.n:
        m.owner.u.throw("InvalidOperationException", "empty")
    return this.n.pop(0)


@lib("Stack.Peek", "Queue.Peek")
def _(m, this):
    if not this.n:
        m.owner.u.throw("InvalidOperationException", "empty")
    return this.n[0]


@lib("HashSet.Add")
def _(m, this, x):
    if not any(same(x, y) for y in this.n):
        this.n.append(x)


@lib("List.Remove", "HashSet.Remove")
def _(m, this, x):
    for i, y in enumerate(this.n):
        if same(x, y):
            del this.n[i]
            return True
    return False


@lib("List.RemoveAll")
def _(m, this, p):
    keep = [x for x in this.n if not p.call([x])]
    n = len(this.n) - len(keep)
    this.n[:] = keep
    return n


@lib("List.ForEach")
def _(m, this, f):
    for x in list(this.n):
        f.call([x])


@lib("List.get this[]")
def _(p, this, i):
    if not 0 <= i < len(this.n):
        p.owner.u.throw("ArgumentOutOfRangeException", "index")
    return this.n[i]


@lib("List.set this[]")
def _(p, this, i, v):
    if not 0 <= i < len(this.n):
        p.owner.u.throw("ArgumentOutOfRangeException", "index")
    this.n[i] = v


@lib("List.RemoveAt")
def _(m, this, i):
    if not 0 <= i < len(this.n):
        m.owner.u.throw("ArgumentOutOfRangeException", "index")
    del this.n[i]


@lib("List.Insert")
def _(m, this, i, x):
    if not 0 <= i <= len(this.n):
        m.owner.u.throw("ArgumentOutOfRangeException", "index")
    this.n.insert(i, x)


@lib("List.RemoveRange")
def _(m, this, i, n):
    if i < 0 or n < 0 or i + n > len(this.n):
        m.owner.u.throw("ArgumentException", "")
    del this.n[i:i + n]


@lib("List.GetRange")
def _(m, this, i, n):
    u = m.owner.u
    if i < 0 or n < 0:
        u.throw("ArgumentOutOfRangeException", "")
    if i + n > len(this.n):
        u.throw("ArgumentException", "")
    return u.list(m.owner.args[0], this.n[i:i + n])


@lib("List.AsReadOnly")
def _(m, this):
    u = m.owner.u
    o = Obj(u.system("ReadOnlyCollection", m.owner.args[0], ns="System.Collections.ObjectModel"))
    o.n = this
    return o


@lib("ReadOnlyCollection.new ReadOnlyCollection", "ReadOnlyDictionary.new ReadOnlyDictionary")
def _(m, this, items):
    if items is None:
        m.owner.u.throw("ArgumentNullException", "")
    this.n = items


def inner_list(u, v):
    return u.seq(v.n)


NATIVE["ReadOnlyCollection", "get Count"] = lambda p, this: len(p.owner.u.seq(this.n))
NATIVE["ReadOnlyCollection", "get Items"] = lambda p, this: this.n
NATIVE["ReadOnlyCollection", "Contains"] = lambda m, this, x: any(same(x, y) for y in m.owner.u.seq(this.n))
NATIVE["ReadOnlyCollection", "IndexOf"] = lambda m, this, x: next((i for i, y in enumerate(m.owner.u.seq(this.n)) if same(x, y)), -1)
NATIVE["ReadOnlyCollection", "GetEnumerator"] = lambda m, this: m.owner.u.list(m.owner.args[0], m.owner.u.seq(this.n))


@lib("ReadOnlyCollection.get this[]")
def _(p, this, i):
    xs = p.owner.u.seq(this.n)
    if not 0 <= i < len(xs):
        p.owner.u.throw("ArgumentOutOfRangeException", "index")
    return xs[i]


@lib("ReadOnlyCollection.CopyTo")
def _(m, this, b, j):
    xs = m.owner.u.seq(this.n)
    if j < 0 or j + len(xs) > len(b.v):
        m.owner.u.throw("ArgumentException", "")
    b.v[j:j + len(xs)] = xs


def table(v):
    return v.n if isinstance(v.n, dict) else table(v.n)


@lib("Dictionary.new Dictionary")
def _(m, this, other=None):
    this.n = dict(table(other)) if other is not None else {}


@lib("SortedDictionary.new SortedDictionary")
def _(m, this):
    this.n = {}


for _c in ("Dictionary", "ReadOnlyDictionary"):
    NATIVE[_c, "get Count"] = lambda p, this: len(table(this))
    NATIVE[_c, "ContainsKey"] = lambda m, this, k: k in table(this)
    NATIVE[_c, "get Keys"] = lambda p, this: p.owner.u.list(p.owner.args[0], list(table(this)))
    NATIVE[_c, "get Values"] = lambda p, this: p.owner.u.list(p.owner.args[1], list(table(this).values()))

    @lib(_c + ".get this[]")
    def _(p, this, k):
        t = table(this)
        if k not in t:
            p.owner.u.throw("KeyNotFoundException", "", ns="System.Collections.Generic")
        return t[k]

    @lib(_c + ".TryGetValue")
    def _(m, this, k, out):
        t = table(this)
        out.set(t[k] if k in t else m.owner.u.default(m.owner.args[1]))
        return k in t

    @lib(_c + ".GetEnumerator")
    def _(m, this):
        u = m.owner.u
        kv = u.generic("KeyValuePair", *m.owner.args)
        return u.list(kv, [u.make_pair(kv, k, v) for k, v in table(this).items()])

NATIVE["ReadOnlyDictionary", "get Dictionary"] = lambda p, this: this.n
NATIVE["Dictionary", "Clear"] = lambda m, this: this.n.clear()


@lib("Dictionary.set this[]")
def _(p, this, k, v):
    this.n[k] = v


@lib("Dictionary.Add")
def _(m, this, k, *v):
    if not v:
        k, v = k.fields["Key"], [k.fields["Value"]]
    if k in this.n:
        m.owner.u.throw("ArgumentException", "An item with the same key has already been added.")
    this.n[k] = v[0]


@lib("Dictionary.Remove")
def _(m, this, k):
    if isinstance(k, Obj) and k.t.short == "KeyValuePair":
        k = k.fields["Key"]
    return this.n.pop(k, NOCONST) is not NOCONST


sys.setrecursionlimit(20000)
