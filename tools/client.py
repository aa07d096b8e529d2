"""The client: its runtime and the code generated for it, interpreted."""
import os, random, re, shutil, tempfile
from pathlib import Path

import csharp, csparse, impl, wirefmt
from schema import INTS

SRC = impl.REPO / "steit-csharp" / "src"
NS = "Conform.Types"
NUMS = {"u8": "Byte", "u16": "UInt16", "u32": "UInt32", "u64": "UInt64", "i8": "SByte", "i16": "Int16", "i32": "Int32",
        "i64": "Int64", "bool": "Boolean", "string": "String"}
BUILTINS = {"Maybe": "Steit.Builtins", "LogEntry": "Steit.State"}

DRIVER = """
using System;
using System.Collections.Generic;
using Steit.Builtins;
using Steit.Codec;
using Steit.Collections;
using Steit.State;
using Steit.State.Event;

namespace Conform {
    public sealed class Note {
        public string Kind;
        public object Sender;
        public object Container;
        public UInt32 Tag;
        public UInt32 OldTag;
        public object Old;
        public object New;
    }

    public static class Driver {
        private static List<Note> notes = new List<Note>();

        public static List<Note> Take() {
            var taken = notes;
            notes = new List<Note>();
            return taken;
        }

        private static void Told(string kind, object sender, object container, UInt32 tag, UInt32 oldTag, object old, object now) {
            notes.Add(new Note { Kind = kind, Sender = sender, Container = container, Tag = tag, OldTag = oldTag, Old = old, New = now });
        }
%s
    }
}
"""
ONE = """
        public static %(t)s Load%(i)d(byte[] bytes) { return %(t)s.Deserialize(new ByteReader(bytes)); }
        public static %(t)s New%(i)d() { return new %(t)s(); }
        public static %(t)s Replay%(i)d(%(t)s root, byte[] bytes) {
            StateReplayer.Replay(ref root, new ByteReader(bytes));
            return root;
        }
        public static WireType? Wire%(i)d(%(t)s state, UInt32 tag) { return state.GetWireType(tag); }
        public static IState Nested%(i)d(%(t)s state, UInt32 tag) { return state.GetNested(tag); }
"""
VARIED = """
        public static %(t)s Tagged%(i)d(UInt32 tag) { return new %(t)s(Path.Root.GetNested(5), tag); }
"""
# What tells of changes. Where a class has a name of its own for something, it is asked for it.
WATCH = """
        public static void Watch%(i)d(bool each) {
            if (each) { %(clears)s } else { %(clear)s }
            %(adds)s
        }
"""
CLEAR = "%s.ClearUpdateHandlers();"
CLEARS = "%(t)s.Clear%(p)sUpdateHandlers();"
ADD = "%(t)s.On%(p)sUpdate += (sender, args) => Told(\"update\", sender, args.Container, args.Tag, 0, args.OldValue, args.NewValue);"
VARY = ("%s.OnUpdate += (sender, args) => Told(\"variant\", sender, args.Container, args.NewTag, args.OldTag, args.OldVariant, "
        "args.NewVariant);")
WATCH_LIST = """
        public static void Watch%(i)d(%(t)s list) {
            list.ClearUpdateHandlers();
            list.ClearPushHandlers();
            list.ClearPopHandlers();
            list.OnUpdate += (sender, args) => Told("update", sender, args.Container, args.Tag, 0, args.OldValue, args.NewValue);
            list.OnPush += (sender, args) => Told("push", sender, args.List, args.Tag, 0, null, args.Item);
            list.OnPop += (sender, args) => Told("pop", sender, args.List, args.Tag, 0, args.Item, null);
        }
"""
WATCH_MAP = """
        public static void Watch%(i)d(%(t)s map) {
            map.ClearUpdateHandlers();
            map.ClearInsertHandlers();
            map.ClearRemoveHandlers();
            map.OnUpdate += (sender, args) => Told("update", sender, args.Container, args.Tag, 0, args.OldValue, args.NewValue);
            map.OnInsert += (sender, args) => Told("insert", sender, args.Map, args.Tag, 0, null, args.Value);
            map.OnRemove += (sender, args) => Told("remove", sender, args.Map, args.Tag, 0, args.Value, null);
        }
"""
ANY = """
        public static string At(IState state) { return state.Path.ToString(); }
        public static WireType? Wire(IState state, UInt32 tag) { return state.GetWireType(tag); }
        public static IState Nested(IState state, UInt32 tag) { return state.GetNested(tag); }
"""


class Broken(Exception):
    """The client is not valid, or cannot do what it is for."""


class Emitter:
    """Runs the real generator in a scratch directory."""

    def __init__(self, harness):
        self.harness = harness

    def emit(self, ty, bad=(), how="", again=0, **settings):
        """`bad` names files which cannot be written."""
        impl.BUILD.mkdir(exist_ok=True)
        d = tempfile.mkdtemp(prefix="emit", dir=impl.BUILD)
        try:
            for name in bad:
                f = Path(d) / (name + ".cs")
                if how == "full":
                    f.symlink_to("/dev/full")
                else:
                    f.mkdir()
            out = d + "/gone" if how == "gone" else d
            r = self.harness.raw({"c": "emit", "ty": ty, "set": dict(dict(ns=NS, dir=out), **settings)})
            files = {f.name: f.read_text() for f in sorted(Path(d).iterdir()) if f.is_file() and not f.is_symlink()}
            if again:
                # Once more, over what is there.
                for f in files:
                    with open(Path(d) / f, "a") as out:
                        out.write("}" * 3000)
                self.harness.raw({"c": "emit", "ty": ty, "set": dict(dict(ns=NS, dir=d), **settings)})
                r["fresh"] = all((Path(d) / f).read_text() == text for f, text in files.items())
        finally:
            shutil.rmtree(d)
        return r, files


def emittable(schema):
    """The types which can be generated code for."""
    def meta(d, seen=()):
        k = d["k"]
        if k in ("tuple", "hashmap"):
            return False
        if k == "ref":
            x = schema["defs"][d["n"]]
            return d["n"] in seen or x["meta"] and all(
                meta(f["t"], seen + (d["n"],)) for v in x["variants"] for f in v["fields"])
        return meta(d["t"], seen) if "t" in d else True
    return [t for t in schema["types"] if meta(schema["types"][t])]


def name_of(schema, d, space=None):
    """The client's name for a type: (full name, arguments); `space` tells where definitions are."""
    k = d["k"]
    if k in NUMS:
        return ("System." + NUMS[k], [])
    if k == "box":
        return name_of(schema, d["t"], space)
    if k == "bytes":
        return ("Steit.Builtins.Bytes", [])
    if k == "option":
        return ("Steit.Builtins.Option", [name_of(schema, d["t"], space)])
    if k in ("vec", "array", "list", "map"):
        return ("Steit.Collections." + {"vec": "Vector", "array": "Vector", "list": "StateList", "map": "StateMap"}[k],
                [name_of(schema, d["t"], space)])
    x = schema["defs"][d["n"]]
    return ((BUILTINS.get(x["rust"]) or (space or {}).get(x["rust"], NS)) + "." + x["cs"],
            [name_of(schema, a, space) for a in x["args"]])


def text_of(n):
    return n[0] + ("<%s>" % ", ".join(text_of(a) for a in n[1]) if n[1] else "")


class Client:
    """A universe with the runtime, and the code generated for all types of a schema.

    `u` is which one: odd ones have the builtins generated anew, and those from 2 have the types in two
    namespaces."""

    def __init__(self, built, harness, u=0):
        self.schema = built.schema
        self.u = csharp.Universe()
        rng = random.Random(u)
        gen = Emitter(harness)
        self.old_maybe = u % 2 == 0   # the class which comes with the runtime
        self.types = emittable(self.schema)
        self.sources = {}
        for f in sorted(SRC.rglob("*.cs")):
            self.sources[str(f.relative_to(impl.REPO))] = f.read_text()
        roots = [t for t in self.types if self.schema["types"][t]["k"] not in NUMS and self.schema["types"][t]["k"] != "bytes"]
        rng.shuffle(roots)
        own = sorted({x["rust"]: x["cs"] for x in self.schema["defs"].values() if not x["builtin"]}.items())
        spaces = [NS + ".A", NS + ".B"] if u >= 2 else [NS]
        self.space = {rust: rng.choice(spaces) for rust, _ in own}
        if "Lock3" in self.space:
            # The client has a class of this name, too: it is ambiguous elsewhere.
            self.space["Lock1"] = self.space["Lock3"]
        for t in roots:
            for ns in spaces:
                r, files = gen.emit(t, ns=ns, using=[x for x in spaces if x != ns],
                                    skip=[cs for rust, cs in own if self.space[rust] != ns])
                for f, text in files.items():
                    self.sources["generated/" + f] = text
        if u % 2:
            for t, name in (("Maybe<u8>", "Maybe"), ("LogEntry", "LogEntry")):
                r, files = gen.emit(t, ns=BUILTINS[name], skip_builtins=0)
                for f in list(self.sources):
                    if os.path.basename(f) == name + ".cs":
                        del self.sources[f]
                self.sources["generated/%s.cs" % name] = files.get(name + ".cs", "")
        for f, text in self.sources.items():
            try:
                self.u.add(text, f)
            except csparse.CsSyntax as e:
                raise csharp.Unsupported("syntax: %s" % e)
            except csparse.NotAName as e:
                raise csharp.CsError("CS1041", "%s is a keyword" % e, f)
        parts = [ANY]
        self.index = {}
        for i, t in enumerate(self.types):
            d = self.unbox(self.schema["types"][t])
            if d["k"] in NUMS:
                continue
            self.index[t] = i
            what = dict(t=text_of(name_of(self.schema, d, self.space)), i=i)
            parts.append(ONE % what)
            if d["k"] == "ref" and self.schema["defs"][d["n"]]["kind"] == "enum":
                parts.append(VARIED % what)
        self.watched = {}
        for t in self.types:
            self.watch_types(self.schema["types"][t], parts)
        self.u.add(DRIVER % "".join(parts), "Driver.cs")
        self.driver = self.u.type("Conform.Driver")

    # ------------------------------------------------------------ being told
    def watch_types(self, d, parts):
        """Code which listens to the states of a type, and of those it is made of."""
        d = self.unbox(d)
        k = d["k"]
        if k in ("option", "vec", "array"):
            return self.watch_types(d["t"], parts)
        if k not in ("ref", "list", "map"):
            return
        text = text_of(name_of(self.schema, d, self.space))
        if text in self.watched:
            return
        i = self.watched[text] = len(self.watched)
        what = dict(i=i, t=text)
        if k != "ref":
            parts.append((WATCH_LIST if k == "list" else WATCH_MAP) % what)
            return self.watch_types(d["t"], parts)
        x = self.schema["defs"][d["n"]]
        clear, clears, adds = [], [], []
        if x["kind"] == "enum":
            clear.append(CLEAR % text)
            clears.append(CLEAR % text)
            adds.append(VARY % text)
        for w in x["variants"]:
            inner = text + ("." + w["cs"] if x["kind"] == "enum" else "")
            clear.append(CLEAR % inner)
            for f in w["fields"]:
                what = dict(t=inner, p=f["cs"])
                if text.startswith("Steit.Builtins.Maybe") and f["cs"] == "Value" and self.old_maybe:
                    what["p"] = "F0"
                clears.append(CLEARS % what)
                adds.append(ADD % what)
                self.watch_types(f["t"], parts)
        parts.append(WATCH % dict(i=i, clears=" ".join(clears), clear=" ".join(clear), adds="\n            ".join(adds)))

    def watch(self, d, each, done=None):
        """Listens to the classes a type is made of; what listened before no longer does."""
        done = set() if done is None else done
        d = self.unbox(d)
        if d["k"] in ("list", "map", "option", "vec", "array"):
            return self.watch(d["t"], each, done)
        if d["k"] == "ref" and d["n"] not in done:
            done.add(d["n"])
            self.u.call(self.driver, "Watch%d" % self.watched[text_of(name_of(self.schema, d, self.space))], [each])
            for w in self.schema["defs"][d["n"]]["variants"]:
                for f in w["fields"]:
                    self.watch(f["t"], each, done)

    def walk(self, d, v, path, out):
        """The states within a state: by identity, where they are and what."""
        d, u = self.unbox(d), self.u
        k = d["k"]
        if k not in ("ref", "list", "map") or v is None:
            return out
        out[id(v)] = (v, path, d, None)
        if k == "list":
            for i, x in enumerate(u.seq(v)):
                self.walk(d["t"], x, path + [i], out)
        elif k == "map":
            for e in u.seq(v):
                self.walk(d["t"], e.fields["Value"], path + [e.fields["Key"]], out)
        else:
            x = self.schema["defs"][d["n"]]
            inner, w = v, x["variants"][0]
            if x["kind"] == "enum":
                t = u.get(v, "Tag")
                w, inner, path = [w for w in x["variants"] if w["tag"] == t][0], u.get(v, "Variant"), path + [t]
                out[id(inner)] = (inner, path, d, w)
            for f in w["fields"]:
                self.walk(f["t"], u.get(inner, self.prop(inner, f)), path + [f["tag"]], out)
        return out

    def listen(self, ty, root, data):
        """Replays an entry, listening to the lists and maps there are: the new root, and what was told."""
        d = self.schema["types"][ty]
        there = self.walk(d, root, [], {})
        for v, path, e, w in there.values():
            if e["k"] != "ref":
                self.u.call(self.driver, "Watch%d" % self.watched[text_of(name_of(self.schema, e, self.space))], [v])
        self.u.call(self.driver, "Take", [])
        root = self.call("Replay", ty, root, self.u.bytes(data))
        return root, [self.told(there, n.fields) for n in self.u.seq(self.u.call(self.driver, "Take", []))]

    def told(self, there, n):
        at = there.get(id(n["Container"]))
        if at is None or n["Sender"] is not n["Container"]:
            return dict(k="%s from elsewhere" % n["Kind"], at=[], tag=n["Tag"], old=[], new=[])
        v, path, d, w = at
        out = dict(k=n["Kind"], at=path, tag=n["Tag"], old=[], new=[])
        if n["Kind"] == "variant":
            for k, t, x in (("old", n["OldTag"], n["Old"]), ("new", n["Tag"], n["New"])):
                ws = [w for w in self.schema["defs"][d["n"]]["variants"] if w["tag"] == t]
                if not ws or x is None or x.t.decl.name != ws[0]["cs"]:
                    return dict(out, k="variant without its contents")
                out[k] = [dict(t=t, f=self.fields(ws[0], x))]
            return out
        if d["k"] == "ref":
            fs = [f for f in (w or self.schema["defs"][d["n"]]["variants"][0])["fields"] if f["tag"] == n["Tag"]]
            if not fs:
                return dict(out, k="%s of nothing" % n["Kind"])
            inner = fs[0]["t"]
        else:
            inner = d["t"]
        for k, x in (("old", n["Old"]), ("new", n["New"])):
            if k == "old" and n["Kind"] in ("update", "pop", "remove") or k == "new" and n["Kind"] in ("update", "push", "insert"):
                out[k] = [self.obs(inner, x.v if isinstance(x, csharp.Box) else x)]
        return out

    @staticmethod
    def unbox(d):
        while d["k"] == "box":
            d = d["t"]
        return d

    def type(self, d):
        def go(n):
            return self.u.type(n[0], *[go(a) for a in n[1]])
        return go(name_of(self.schema, d, self.space))

    def call(self, what, ty, *args):
        return self.u.call(self.driver, "%s%d" % (what, self.index[ty]), list(args))

    # ------------------------------------------------------------ values
    def obs(self, d, v):
        """A value of the client, as the specification writes values."""
        u, k = self.u, d["k"]
        if k == "bool":
            return bool(v)
        if k in INTS:
            return list(v.to_bytes(INTS[k], "little", signed=k[0] == "i"))
        if k == "string":
            return list((v or "").encode("utf-8", "surrogatepass"))
        if k == "box":
            return self.obs(d["t"], v)
        if v is None:
            raise Broken("nothing where a %s should be" % k)
        if k == "bytes":
            return list(u.seq(v))
        if k == "option":
            return [self.obs(d["t"], u.get(v, "ValueOrDefault"))] if u.get(v, "IsSome") else []
        if k in ("vec", "array", "list"):
            return [self.obs(d["t"], x) for x in u.seq(v)]
        if k == "map":
            return [dict(k=e.fields["Key"], v=self.obs(d["t"], e.fields["Value"])) for e in u.seq(v)]
        x = self.schema["defs"][d["n"]]
        if x["kind"] == "struct":
            return self.fields(x["variants"][0], v)
        tag = u.get(v, "Tag")
        for w in x["variants"]:
            if w["tag"] == tag:
                inner = u.get(v, "Variant")
                if inner is None or inner.t.decl.name != w["cs"]:
                    raise Broken("variant %d is a %s" % (tag, inner and inner.t.decl.name))
                return dict(t=tag, f=self.fields(w, inner))
        raise Broken("variant %d of %s" % (tag, x["cs"]))

    @staticmethod
    def prop(state, f):
        """The property of a field. That of `Maybe` has another name in the class which comes with the runtime."""
        if f["cs"] == "Value" and state.t.decl.full.startswith("Steit.Builtins.Maybe") and state.t.find("F0") is not None:
            return "F0"
        return f["cs"]

    def fields(self, w, v):
        return [self.obs(f["t"], self.u.get(v, self.prop(v, f))) for f in w["fields"]]

    def attempt(self, f):
        """Something done with the client: its outcome, and what comes of it. What cannot be told raises Unsupported."""
        try:
            return "ok", f()
        except csharp.CsThrow as e:
            return "threw %s" % e, None
        except csharp.CsMissing as e:
            raise csharp.Unsupported(str(e))
        except csharp.CsError as e:
            # The runtime compiles, or nobody could use it: what doesn't, here, is what is not known here.
            if e.file.startswith("steit-csharp/"):
                raise csharp.Unsupported(str(e))
            return "error %s" % e, None
        except csharp.Hang:
            return "no answer", None
        except Broken as e:
            return "broken: %s" % e, None
        except csharp.Unsupported:
            raise
        except RecursionError:
            return "stack overflow", None
        except Exception as e:
            raise csharp.Unsupported("%s: %s" % (type(e).__name__, e))

    def load(self, ty, data):
        return self.attempt(lambda: self.call("Load", ty, self.u.bytes(data)))

    def replay(self, ty, root, data):
        return self.attempt(lambda: self.call("Replay", ty, root, self.u.bytes(data)))

    def look(self, ty, root):
        return self.attempt(lambda: self.obs(self.schema["types"][ty], root))

    # ------------------------------------------------------------ classes
    def tree(self, t):
        return dict(n=re.sub(r"`\d+", "", t.decl.full.replace("+", ".")) if t.decl else t.kind, a=[self.tree(a) for a in t.args])

    def here(self, state):
        return [int(x) for x in self.u.call(self.driver, "At", [state]).split("/") if x]

    def wires(self, state, probes):
        out = []
        for p in probes:
            w = self.u.call(self.driver, "Wire", [state, p])
            out.append(-1 if w is None else w)
        return out

    def table(self, w, state, probes):
        props, inside, where = [], [], []
        for f in w["fields"]:
            p = state.t.find(self.prop(state, f))
            ok = p is not None and not isinstance(p, list)
            props.append(dict(n=f["cs"], t=self.tree(p.ty()) if ok else dict(n="", a=[])))
        for p in probes:
            x = self.u.call(self.driver, "Nested", [state, p])
            hit = [f["cs"] for f in w["fields"] if x is not None and self.u.get(state, self.prop(state, f)) is x]
            inside.append("" if x is None else hit[0] if len(hit) == 1 else "?")
            where.append([] if x is None else self.here(x))
        return dict(props=props, wires=self.wires(state, probes), inside=inside, paths=where)

    def klass(self, ty, probes):
        """All that can be seen of the class of a type."""
        u, d = self.u, self.unbox(self.schema["types"][ty])
        t, x = self.type(d), self.schema["defs"][d["n"]]
        new = self.call("New", ty)
        out = dict(content=self.obs(d, new))
        if x["kind"] == "struct":
            out["vars"] = [dict(table=self.table(x["variants"][0], new, probes))]
            return out
        consts = [t.find(w["cs"] + "Tag") for w in x["variants"]]
        out["consts"] = [c.constant() if isinstance(c, csharp.Field) else -1 for c in consts]
        out["first"] = u.get(new, "Tag")
        out["wires"] = self.wires(new, probes)
        out["vars"] = []
        for w in x["variants"]:
            made = self.call("Tagged", ty, w["tag"])
            inner = u.get(made, "Variant")
            views = [v["cs"] for v in x["variants"] if u.get(made, v["cs"] + "Variant") is not None]
            out["vars"].append(dict(
                tag=u.get(made, "Tag"), name=inner.t.decl.name, same=u.get(made, w["cs"] + "Variant") is inner, views=views,
                at=self.here(inner), inside=[p for p in probes if u.call(self.driver, "Nested", [made, p]) is inner],
                beside=[p for p in probes if u.call(self.driver, "Nested", [made, p]) is not None],
                table=self.table(w, inner, probes)))
        return out

    def errors(self, ty):
        """What a compiler would say about the class of a type."""
        found = []
        self.u.check(self.type(self.unbox(self.schema["types"][ty])), found)
        res = []
        for e in found:
            if isinstance(e, csharp.CsMissing) or e.file.startswith("steit-csharp/") and not e.file.endswith("/Maybe.cs"):
                raise csharp.Unsupported(str(e))
            text = "%s: %s" % (getattr(e, "member", "?"), e.code)
            if text not in res:
                res.append(text)
        return res


class Side:
    """The clients' side of a trace."""

    def __init__(self, built, harness):
        self.built, self.harness = built, harness
        self.universes = {}
        self.types = [t for t in emittable(built.schema) if Client.unbox(built.schema["types"][t])["k"] not in NUMS]
        self.roots = {}
        self.undecided = []

    def reset(self):
        self.roots = {}

    def drop(self, id):
        self.roots.pop(id, None)

    def client(self, u):
        if u not in self.universes:
            try:
                self.universes[u] = Client(self.built, self.harness, u)
            except Exception as e:
                self.universes[u] = e
        c = self.universes[u]
        if isinstance(c, csharp.CsError) and not isinstance(c, csharp.CsMissing) and not c.file.startswith("steit-csharp/"):
            raise Broken(str(c))
        if isinstance(c, Exception):
            raise csharp.Unsupported("%s: %s" % (type(c).__name__, c))
        return c

    def do(self, cmd):
        try:
            return getattr(self, cmd["c"])(cmd)
        except csharp.Unsupported as e:
            if str(e) not in self.undecided:
                self.undecided.append(str(e))
            return {"undecided": str(e)}
        except Broken as e:
            return {"res": "broken: %s" % e, "errors": ["broken: %s" % e]}

    def told(self, c, ty, res, root, **more):
        out = dict(more, res=res)
        if res == "ok":
            out["res"], obs = c.look(ty, root)
            if out["res"] == "ok":
                out["obs"] = obs
        return out

    def csnap(self, cmd):
        b = self.harness.raw({"c": "look", "s": cmd["s"]})["b"]
        c = self.client(cmd["u"])
        res, root = c.load(cmd["ty"], b)
        self.roots[cmd["f"]] = (cmd["u"], cmd["ty"], root)
        return self.told(c, cmd["ty"], res, root)

    def creplay(self, cmd):
        u, ty, root = self.roots[cmd["s"]]
        c = self.client(u)
        more = {}
        if "watch" in cmd:
            more["seen"], root2 = [], root
            res, _ = c.attempt(lambda: c.watch(c.schema["types"][ty], bool(cmd["watch"])))
            for e in wirefmt.entries(cmd["b"]):
                if res == "ok":
                    res, got = c.attempt(lambda: c.listen(ty, root2, e))
                    if res == "ok":
                        root2 = got[0]
                        more["seen"].append(got[1])
        else:
            res, root2 = c.replay(ty, root, cmd["b"])
        if res == "ok":
            self.roots[cmd["s"]] = (u, ty, root2)
        return self.told(c, ty, res, root2, **more)

    def cread(self, cmd):
        if "b" in cmd:
            c = self.client(cmd["u"])
            res, root = c.load(cmd["ty"], cmd["b"])
            return self.told(c, cmd["ty"], res, root)
        r = self.harness.raw({"c": "codec", "ty": cmd["ty"], "op": {"c": "ser", "v": cmd["v"]}})
        if "b" not in r:
            raise csharp.Unsupported("nothing to read")
        c = self.client(cmd["u"])
        res, root = c.load(cmd["ty"], r["b"])
        return self.told(c, cmd["ty"], res, root, b=r["b"])

    def klass(self, cmd):
        c = self.client(cmd["u"])
        res, out = c.attempt(lambda: c.klass(cmd["ty"], cmd["probes"]))
        return dict(out or {}, res=res, errors=c.errors(cmd["ty"]), space=c.space)

    def emit(self, cmd):
        r, files = Emitter(self.harness).emit(cmd["ty"], **cmd["set"])
        return dict(names=r.get("names", []), files=sorted(files), err=r.get("err", ""), fresh=r.get("fresh", True))
