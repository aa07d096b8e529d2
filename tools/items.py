"""Declarations: renders those of spec/Derive.tla as Rust, and asks the compiler about them."""
import json, os, random, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
import impl

PRE = '''#![allow(warnings)]
pub use std::collections::HashMap;
pub use steit::{state::State, steit_derive, types::*};
#[steit_derive(State, PartialEq, Clone, Debug, Hash)]
pub enum Maybe<T: State> { #[steit(tag = 0)] No, #[steit(tag = 1)] Yes { #[steit(tag = 0)] value: T } }
'''
TYPES = dict(u8="u8", i32="i32", u64="u64", bool="bool", MaybeInt="Maybe<u8>", ListInt="List<u8>", BoxInt="Box<u8>",
             MapInt="Map<u16, List<u8>>", String="String", Bytes="Bytes", Option="Option<u8>", Vec="Vec<u16>", Array="[u8; 3]",
             Tuple="(u8, bool)", HashMap="HashMap<u8, u8>", Param="T")
BIG, HUGE = "3000000000", "5000000000"


def lit(l):
    return {"int": lambda: str(l["v"]), "big": lambda: BIG, "huge": lambda: HUGE, "str": lambda: '"%s"' % l["s"],
            "bool": lambda: "true" if l["v"] else "false", "float": lambda: "1.5"}[l["k"]]()


def meta(m):
    if m["m"] == "path":
        return m["n"]
    if m["m"] == "value":
        return "%s = %s" % (m["n"], lit(m["lit"]))
    if m["m"] == "list":
        return "%s(%s)" % (m["n"], ", ".join(map(lit, m["lits"])))
    return lit(m["lit"])


def groups(gs):
    out = ""
    for g in gs:
        if g["form"] == "path":
            out += "#[steit] "
        elif g["form"] == "value":
            out += '#[steit = "x"] '
        else:
            out += "#[steit(%s)] " % ", ".join(map(meta, g["metas"]))
    return out


def body(style, fields, pub, param):
    if style == "unit":
        return ""
    parts = ["%s%s%s%s" % (groups(f["groups"]), pub, f["name"] + ": " if style == "named" else "",
                         param if f["ty"] == "Param" else TYPES[f["ty"]]) for f in fields]
    return (" { %s }" if style == "named" else "(%s)") % ", ".join(parts)


def rust(x, name="X"):
    """An item, on one line."""
    bound = ": State" if "State" in x["args"] else ""
    params, where = [], []
    for p in x["params"]:
        if p == "const":
            params.append("const N: usize")
        elif p == "W" and bound:
            params.append(p)
            where.append(p + bound)
        else:
            params.append(p + bound)
    where = " where " + ", ".join(where) if where else ""
    head = "#[steit_derive(%s)] %spub %s %s" % (", ".join(x["args"]), groups(x["groups"]), x["kind"], name)
    if params and x["kind"] in ("struct", "enum", "union"):
        head += "<%s>" % ", ".join(params)
    subst = next((p for p in x["params"] if p != "const"), "T")
    if x["kind"] == "enum":
        return head + where + " { %s }" % ", ".join(
            groups(v["groups"]) + v["name"] + body(v["style"], v["fields"], "", subst) for v in x["variants"])
    if x["kind"] in ("struct", "union"):
        b = body(x["style"], x["fields"], "pub ", subst)
        if x["kind"] == "union" or x["style"] == "named":
            return head + where + b
        return head + b + where + ";"
    return head + {"fn": "() {}", "trait": " {}", "mod": " {}", "type": " = u8;"}[x["kind"]]


class Compiler:
    def __init__(self, work):
        self.work = Path(work)
        base = impl.BUILD / "derive"
        (base / "src").mkdir(parents=True, exist_ok=True)
        impl.write_if_changed(base / "src" / "lib.rs", "pub use steit;\n")
        for n in ("Cargo.toml", "Cargo.lock"):
            text = (impl.ROOT / "harness" / n).read_text().replace("steit-conformance", "steit-items")
            impl.write_if_changed(base / n, text)
        r = impl.locked_cargo(["build", "--offline", "--message-format=json"], base)
        if r.returncode != 0:
            raise impl.BuildError(r.stderr[-6000:])
        for line in r.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "steit":
                self.steit = next(f for f in m["filenames"] if f.endswith(".rlib"))
        self.deps = impl.BUILD / "target" / "debug" / "deps"

    def rustc(self, path, timeout=600):
        r = subprocess.run(["rustc", "--edition", "2018", "--crate-type", "lib", "--crate-name", "items", "--emit=metadata",
                            "--error-format=json", "--cap-lints", "allow", "-o", str(path.with_suffix(".rmeta")),
                            "--extern", "steit=%s" % self.steit, "-L", "dependency=%s" % self.deps, str(path)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=str(self.work))
        errors, crash = [], r.returncode not in (0, 1)
        for line in r.stderr.splitlines():
            try:
                m = json.loads(line)
            except ValueError:
                crash = True
                continue
            if m.get("level", "").startswith("error"):
                errors.append(m)
        return r.returncode == 0, errors, crash, r.stderr

    @staticmethod
    def lines_of(span, name):
        """The lines of the file which a span is about, through expansions."""
        while span:
            if span["file_name"].endswith(name):
                last = span["line_start"]
                yield last
            span = (span.get("expansion") or {}).get("span")

    def batch(self, items, tag):
        """Which of the items are accepted; and why the others are not."""
        verdict = {}
        left = dict(enumerate(items))
        path = self.work / ("items%s.rs" % tag)
        first = PRE.count("\n") + 1
        rounds = 0
        while left:
            rounds += 1
            order = sorted(left)
            path.write_text(PRE + "".join("mod m%d { use crate::*; %s }\n" % (k, left[k]) for k in order))
            ok, errors, crash, text = self.rustc(path)
            if ok:
                for k in order:
                    verdict[k] = (True, "")
                break
            bad = {}
            for e in errors:
                hit = set()
                for s in e["spans"]:
                    if s["is_primary"]:
                        hit |= {l for l in self.lines_of(s, path.name) if l >= first}
                if len(hit) == 1:
                    bad.setdefault(order[hit.pop() - first], e["message"])
            if not bad:
                if len(order) == 1:
                    verdict[order[0]] = (False, "crash: " + text[-300:] if crash else errors[0]["message"])
                    break
                half = len(order) // 2
                for n, part in enumerate((order[:half], order[half:])):
                    for k, v in zip(part, self.batch([left[k] for k in part], "%s_%d_%d" % (tag, rounds, n))):
                        verdict[k] = v
                break
            for k, message in bad.items():
                verdict[k] = (False, message)
                del left[k]
        return [verdict[k] for k in range(len(items))]

    def verdicts(self, items, jobs=8, size=80):
        path = self.work / "pre.rs"
        path.write_text(PRE)
        if not self.rustc(path)[0]:
            raise impl.BuildError("the declaration which all others use is rejected")
        parts = [items[i:i + size] for i in range(0, len(items), size)]
        with ThreadPoolExecutor(jobs) as pool:
            return [v for vs in pool.map(lambda p: self.batch(p[1], "b%d" % p[0]), enumerate(parts)) for v in vs]


# ---------------------------------------------------------------- random ones
STATES = ["u8", "i32", "u64", "bool", "MaybeInt", "ListInt", "BoxInt", "MapInt", "Param"]
NAMES = ["a", "b", "reader", "writer", "tag", "size", "wire_type", "other", "state", "path", "logger", "entry", "key", "value",
         "field", "name", "kind", "n", "len", "runtime2", "sizes", "it", "nested", "reserved", "iterator", "handle", "variant",
         "old", "new_value", "rt", "root", "x", "r", "w"]
TAGS = [0, 1, 2, 3, 15, 16, 127, 128, 2047, 2048, (1 << 29) - 2, (1 << 29) - 1]
NONE = {"k": "none", "v": 0, "s": ""}


def m_path(n):
    return {"m": "path", "n": n, "lit": NONE, "lits": []}


def m_value(n, k, v=0, s=""):
    return {"m": "value", "n": n, "lit": {"k": k, "v": v, "s": s}, "lits": []}


def m_ints(n, vs):
    return {"m": "list", "n": n, "lit": NONE, "lits": [{"k": "int", "v": v, "s": ""} for v in vs]}


def grouped(rng, metas):
    """Attributes, in some order, in one group or in several."""
    rng.shuffle(metas)
    out = [{"form": "list", "metas": [m]} for m in metas]
    while len(out) > 1 and rng.random() < 0.5:
        out[0]["metas"] += out.pop(1)["metas"]
    return out


def flag(rng, n):
    return rng.choice([m_path(n), m_value(n, "bool", 1), m_value(n, "bool", 0)])


def some_tags(rng, n, zero=False):
    tags = rng.sample(TAGS, min(n, len(TAGS)))
    if n > 1 and rng.random() < 0.4:
        # One which is like another, but for a bit.
        i, j = rng.sample(range(n), 2)
        t = tags[i] ^ (1 << rng.choice([1, 7, 8, 15, 16, 23, 24, 28]))
        if t not in tags and t < 1 << 29:
            tags[j] = t
    if zero and 0 not in tags:
        tags[rng.randrange(n)] = 0
    return tags


def some_fields(rng, n, args, used):
    res = []
    plain = "State" not in args
    for name, tag in zip(rng.sample(NAMES, n), some_tags(rng, n)):
        metas = [m_value("tag", "int", tag)]
        ty = rng.choice(list(TYPES) if plain or rng.random() < 0.3 else STATES)
        if ty not in STATES and not plain:
            metas.append(m_path("no_state"))
        for a in ("no_hash", "no_eq_hash"):
            if rng.random() < 0.15 or (a == "no_hash" and ty in ("MapInt", "HashMap") and "Hash" in args):
                metas.append(m_path(a))
        if rng.random() < 0.1:
            metas.append(m_value("csharp_name", "str", s=rng.choice(["x", "Name"])))
        if not plain and rng.random() < 0.05 and ty in STATES:
            metas.append(flag(rng, "no_state"))
        if ty == "Param":
            used.append(1)
        res.append({"name": name, "groups": grouped(rng, metas), "ty": ty})
    return res


def item(rng):
    """A declaration which is valid more often than not."""
    args = rng.sample(["PartialEq", "Clone", "Debug", "Hash", "Default"], rng.randrange(4))
    args += rng.choice([["State"]] * 4 + [["Serialize"], ["Deserialize"], ["Serialize", "Deserialize"], ["State", "Serialize"], []])
    rng.shuffle(args)
    metas = []
    for n in ("no_size_cache", "derive_ctors", "derive_setters", "no_meta"):
        if rng.random() < 0.15:
            metas.append(flag(rng, n))
    for n, names in (("ctor_prefix", ["make", "new", "create"]), ("size_cache_renamed", ["sc", "size_cache_2"]),
                     ("runtime_renamed", ["rtm", "runtime_2"]), ("csharp_name", ["Other", "x"])):
        if rng.random() < 0.1:
            metas.append(m_value(n, "str", s=rng.choice(names)))
    if rng.random() < 0.2:
        metas.append(m_ints("reserved_tags", rng.sample([4, 5, 14, 17, 126, 129, (1 << 29) - 3], rng.randrange(6))))
    used = []
    x = dict(kind=rng.choice(["struct", "enum"]), args=args, groups=grouped(rng, metas), params=[], style="unit", fields=[], variants=[])
    styles = ["named", "named", "tuple", "tuple", "unit"]
    if x["kind"] == "struct":
        x["style"] = rng.choice(styles)
        if x["style"] != "unit":
            x["fields"] = some_fields(rng, rng.randrange(7), args, used)
    else:
        n = rng.randint(1, 5)
        for k, tag in enumerate(some_tags(rng, n, True)):
            style = rng.choice(styles)
            fields = some_fields(rng, rng.randrange(5), args, used) if style != "unit" else []
            vm = [m_value("tag", "int", tag)]
            if rng.random() < 0.1:
                vm.append(flag(rng, "no_size_cache"))
            if rng.random() < 0.1:
                vm.append(m_ints("reserved_tags", rng.sample([4, 5, 14, 17], rng.randrange(5))))
            if rng.random() < 0.1:
                vm.append(m_value("runtime_renamed", "str", s="vrt"))
            x["variants"].append({"name": "V%d" % k, "groups": grouped(rng, vm), "style": style, "fields": fields})
    if used:
        x["params"] = [rng.choice(["T", "T", "H", "W", "R", "A"])]
    for _ in range(rng.choice([0, 0, 1, 1, 2])):
        spoil(rng, x)
    return x


def spoil(rng, x):
    """Changes something small, which may make it invalid."""
    places = [x] + x["variants"] + x["fields"] + [f for v in x["variants"] for f in v["fields"]]
    p = rng.choice(places)
    metas = [m for g in p["groups"] for m in g["metas"]]
    kind = rng.randrange(9)
    tags = [m for q in places for g in q["groups"] for m in g["metas"] if m["n"] == "tag" and m["m"] == "value"]
    if kind == 0 and metas:                                     # one attribute less
        m = rng.choice(metas)
        for g in p["groups"]:
            g["metas"] = [y for y in g["metas"] if y is not m]
    elif kind == 1 and tags:                                    # some other tag
        rng.choice(tags)["lit"] = {"k": "int", "v": rng.choice(TAGS + [4, 5, 1 << 29, (1 << 31) - 1]), "s": ""}
    elif kind == 2 and tags:                                    # some other literal
        rng.choice(tags)["lit"] = rng.choice([{"k": "big", "v": 0, "s": ""}, {"k": "huge", "v": 0, "s": ""}, {"k": "str", "v": 0, "s": "1"},
                                              {"k": "float", "v": 0, "s": ""}, {"k": "bool", "v": 1, "s": ""}])
    elif kind == 3 and metas and not any(m["n"] == "reserved_tags" for m in metas):  # one of them twice
        p["groups"].append({"form": "list", "metas": [rng.choice(metas)]})
    elif kind == 4:                                             # one that may not belong here
        n = rng.choice(["no_state", "no_hash", "no_eq_hash", "no_size_cache", "derive_ctors", "no_meta", "tag", "runtime_renamed",
                        "csharp_name", "tags", "no_sizecache"])
        p["groups"].append({"form": "list", "metas": [rng.choice([m_path(n), m_value(n, "str", s="y"), m_value(n, "bool", 1)])]})
    elif kind == 5:                                             # reserves some
        if not any(m["n"] == "reserved_tags" for m in metas):
            p["groups"].append({"form": "list", "metas": [m_ints("reserved_tags", rng.sample(TAGS, 2))]})
    elif kind == 6:                                             # drops what makes a type fit
        fields = x["fields"] + [f for v in x["variants"] for f in v["fields"] if f["ty"] != "Param"]
        fields = [f for f in fields if f["ty"] != "Param"]
        if fields:
            rng.choice(fields)["ty"] = rng.choice([t for t in TYPES if t != "Param"])
    elif kind == 7:                                             # reserves one that is used, among others
        q = rng.choice([x] + x["variants"])
        tags = [m["lit"]["v"] for y in q["fields"] + (q["variants"] if q is x else []) for g in y["groups"] for m in g["metas"]
                if m["n"] == "tag" and m["m"] == "value" and m["lit"]["k"] == "int"]
        lists = [m for g in q["groups"] for m in g["metas"] if m["n"] == "reserved_tags"]
        if tags and not lists:
            t = rng.choice(tags)
            some = rng.sample([n for n in [4, 5, 14, 17, 126, 129] if n != t], rng.randrange(5))
            some.insert(rng.randrange(len(some) + 1), t)
            q["groups"].append({"form": "list", "metas": [m_ints("reserved_tags", some)]})
    else:
        x["args"].append(rng.choice(["PartialEq", "Hash", "State", "Clone"]))


def items(seed, n):
    rng = random.Random("items/%d" % seed)
    return [item(rng) for _ in range(n)]


# ---------------------------------------------------------------- traces
VALID = {"kind": "enum", "args": ["State", "PartialEq", "Clone", "Debug", "Hash"], "groups": [], "params": ["T"], "style": "unit", "fields": [],
         "variants": [{"name": "No", "groups": grouped(random.Random(0), [m_value("tag", "int", 0)]), "style": "unit", "fields": []},
                      {"name": "Yes", "groups": grouped(random.Random(0), [m_value("tag", "int", 1)]), "style": "named", "fields": [
                          {"name": "value", "groups": grouped(random.Random(0), [m_value("tag", "int", 0)]), "ty": "Param"}]}]}


def judged(work, xs):
    """A trace of what the compiler says about some declarations."""
    try:
        vs = Compiler(work).verdicts([rust(x) for x in xs])
    except impl.BuildError as e:
        xs, vs = [VALID], [(False, str(e))]
    lines = []
    for k, (x, (ok, why)) in enumerate(zip(xs, vs)):
        lines.append(({"c": "item", "x": x, "rust": rust(x)}, {"ok": ok, "why": why}))
        if k % 20 == 19:
            lines.append(({"c": "reset"}, {}))
    lines.append(({"c": "reset"}, {}))
    return lines
