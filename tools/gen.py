"""Generates the Rust types of a schema, with the code to observe, build and change their values."""
import json, sys
from schema import *

PRE = '''// Generated by tools/gen.py.
#![allow(dead_code, unused_variables, unused_mut, unused_imports, non_camel_case_types, clippy::all)]
use std::{any::Any, collections::HashMap};
use steit::{de::*, gen::{generators::{CSharpGenerator, CSharpSetting}, Generator, Setting}, log::LogEntry, rt::Runtime, ser::Serialize, state::State, steit_derive, types::*};
use crate::{core::*, json::J, CodecType, Of, RootType};

'''


def attrs(o):
    out = []
    for k, v in o.items():
        if k == "reserved_tags":
            out.append("reserved_tags(%s)" % ", ".join(map(str, v)))
        elif v is True:
            out.append(k)
        else:
            out.append('%s = "%s"' % (k, v))
    return out


def snake(name):
    out = name[0].lower()
    for c in name[1:]:
        out += ("_" + c.lower()) if c.isupper() else c
    return out


def field_attrs(f):
    out = ["tag = %d" % f["tag"]]
    if f["ns"]:
        out.append("no_state")
    if f["neq"]:
        out.append("no_eq_hash")
    if f["nh"]:
        out.append("no_hash")
    if f["cs"]:
        out.append('csharp_name = "%s"' % f["cs"])
    return "#[steit(%s)]" % ", ".join(out)


def decl_fields(v, pub):
    if v["tuple"]:
        return "(%s)" % ", ".join("%s %s%s" % (field_attrs(f), pub, f["ty"]) for f in v["fields"])
    return " { %s }" % " ".join("%s %s%s: %s," % (field_attrs(f), pub, f["name"], f["ty"]) for f in v["fields"])


def decl(schema, d):
    derives = ["Clone", "PartialEq"]
    if schema.can_hash(d.name):
        derives.append("Hash")
    derives += ["State"] if d.state else ["Serialize", "Deserialize"]
    params = ""
    if d.params:
        params = "<%s>" % ", ".join(p + (": State" if d.state else "") for p in d.params)
    out = "#[steit_derive(%s)]\n" % ", ".join(derives)
    a = attrs(d.opts)
    if a:
        out += "#[steit(%s)]\n" % ", ".join(a)
    if d.kind == "struct":
        v = d.variants[0]
        out += "pub struct %s%s%s%s\n" % (d.name, params, decl_fields(v, "pub "), ";" if v["tuple"] else "")
    else:
        out += "pub enum %s%s {\n" % (d.name, params)
        for v in d.variants:
            va = ["tag = %d" % v["tag"]] + attrs(v["opts"])
            body = "" if not v["fields"] else decl_fields(v, "")
            out += "    #[steit(%s)]\n    %s%s,\n" % (", ".join(va), v["name"], body)
        out += "}\n"
    return out


def acc(v, i):
    return str(i) if v["tuple"] else v["fields"][i]["name"]


def is_node(schema, rt):
    """Does a type implement State (as far as the harness is concerned)?"""
    d = schema.desc(parse_type(rt))

    def go(d):
        k = d["k"]
        if k in PRIMS or k in ("list", "map"):
            return True
        if k == "box":
            return go(d["t"])
        if k == "ref":
            return schema.table[d["n"]]["state"]
        return False

    return go(d)


def impls(schema, inst):
    d, env = schema.inst[inst]
    if getattr(d, "builtin", False):
        return ""
    rt = lambda f: show(subst(parse_type(f["ty"]), env))
    ctor = d.opts.get("ctor_prefix", "new")
    path = inst if "<" not in inst else "%s::%s" % (inst.split("<")[0], inst[inst.index("<"):])
    name = d.name
    pat = lambda v: "%s::%s { %s .. }" % (name, v["name"], "".join(
        "%s: x%d, " % (acc(v, i), i) for i in range(len(v["fields"]))))
    out = []
    w = out.append
    w("impl Val for %s {" % inst)
    w("    fn obs(&self) -> J {")
    if d.kind == "struct":
        v = d.variants[0]
        w("        J::A(vec![%s])" % ", ".join("Val::obs(&self.%s)" % acc(v, i) for i in range(len(v["fields"]))))
    else:
        w("        match self {")
        for v in d.variants:
            w("            %s => J::O(vec![(\"t\".into(), J::N(%d)), (\"f\".into(), J::A(vec![%s]))])," % (
                pat(v), v["tag"], ", ".join("Val::obs(x%d)" % i for i in range(len(v["fields"])))))
        w("        }")
    w("    }")
    w("    fn build(j: &J) -> Self {")
    if d.state:
        w("        Self::build_in(j, Runtime::new())")
    elif d.kind == "struct":
        v = d.variants[0]
        w("        let f = j.a();")
        w("        let mut s = if style(2) == 0 { %s::%s() } else { Default::default() };" % (path, ctor))
        for i, f in enumerate(v["fields"]):
            w("        s.%s = <%s as Val>::build(&f[%d]);" % (acc(v, i), rt(f), i))
        w("        s")
    else:
        w("        let f = j.at(\"f\").a();")
        w("        match j.at(\"t\").n() {")
        for v in d.variants:
            w("            %d => {" % v["tag"])
            w("                let mut s = %s::%s_%s();" % (path, ctor, snake(v["name"])))
            w("                if let %s = &mut s {" % pat(v))
            for i, f in enumerate(v["fields"]):
                w("                    *x%d = <%s as Val>::build(&f[%d]);" % (i, rt(f), i))
            w("                }")
            w("                s")
            w("            }")
        w("            t => panic!(\"harness: tag {}\", t),")
        w("        }")
    w("    }")
    w("    fn eqv(&self, other: &Self) -> bool { self == other }")
    if schema.hashable(dict(k="ref", n=inst)):
        w("    fn hashv(&self) -> Option<u64> { Some(hash_of(self)) }")
    w("}")
    if not d.state:
        return "\n".join(out) + "\n"

    def setter(v, i):
        pre = "set_" if v["tag"] is None else "set_%s_" % snake(v["name"])
        return pre + ("f%d" % i if v["tuple"] else v["fields"][i]["name"].replace("r#", ""))

    def build_fields(v, ind):
        for i, f in enumerate(v["fields"]):
            t = rt(f)
            if f["ns"]:
                w(ind + "s.%s(<%s as Val>::build(&f[%d]));" % (setter(v, i), t, i))
            else:
                w(ind + "match style(3) {")
                w(ind + "    0 => { s.%s(<%s as Val>::build(&f[%d])); }" % (setter(v, i), t, i))
                w(ind + "    1 => { s.%s_with(|_| <%s as Val>::build(&f[%d])); }" % (setter(v, i), t, i))
                w(ind + "    _ => { s.%s_with(|runtime| <%s as Node>::build_in(&f[%d], runtime)); }" % (setter(v, i), t, i))
                w(ind + "}")

    w("impl Node for %s {" % inst)
    w("    fn build_in(j: &J, runtime: Runtime) -> Self {")
    if d.kind == "struct":
        v = d.variants[0]
        w("        let f = j.a();")
        w("        let mut s: Self = quiet(|| if style(2) == 0 { %s::%s(runtime) } else { State::with_runtime(runtime) });" % (path, ctor))
        build_fields(v, "        ")
        w("        s")
    else:
        w("        let f = j.at(\"f\").a();")
        w("        match j.at(\"t\").n() {")
        for v in d.variants:
            w("            %d => {" % v["tag"])
            base = "%s::%s_%s(runtime)" % (path, ctor, snake(v["name"]))
            if v["fields"] or v["tag"] == 0:
                w("                let mut s: Self = quiet(|| match style(3) { 0 => %s::%s(runtime), 1 => State::with_runtime(runtime), _ => %s });"
                  % (path, ctor, base))
            else:
                w("                let mut s = %s;" % base)
            build_fields(v, "                ")
            w("                s")
            w("            }")
        w("            t => panic!(\"harness: tag {}\", t),")
        w("        }")
    w("    }")

    def nav(v, place):
        w("                match i {")
        for i, f in enumerate(v["fields"]):
            if is_node(schema, rt(f)):
                w("                    %d => Node::apply(%s, rest, op, cx)," % (i, place(i)))
        w("                    _ => panic!(\"harness: field {}\", i),")
        w("                }")

    def setop(v, i):
        f = v["fields"][i]
        t = rt(f)
        if f["ns"]:
            return "{ self.%s(<%s as Val>::build(op.at(\"v\"))); }" % (setter(v, i), t)
        return ("{ if op.num(\"w\", 0) == 0 { let v = take::<%s>(op, cx); self.%s(v); } else { self.%s_with(|rt| make::<%s>(op, cx, rt)); } }"
                % (t, setter(v, i), setter(v, i), t))

    w("    fn apply(&mut self, at: &[u32], op: &J, cx: &mut Cx) -> J {")
    w("        if let Some((&i, rest)) = at.split_first() {")
    if d.kind == "struct":
        v = d.variants[0]
        w("            return {")
        nav(v, lambda i: "&mut self.%s" % acc(v, i))
        w("            };")
    else:
        w("            return match self {")
        for v in d.variants:
            w("                %s => {" % pat(v))
            nav(v, lambda i: "x%d" % i)
            w("                }")
        w("            };")
    w("        }")
    w("        if let Some(ret) = node_op(self, op, cx) { return ret; }")
    w("        match op.at(\"o\").s() {")
    if d.kind == "struct":
        v = d.variants[0]
        w("            \"set\" => match op.at(\"f\").n() {")
        for i in range(len(v["fields"])):
            w("                %d => %s" % (i, setop(v, i)))
        w("                f => panic!(\"harness: field {}\", f),")
        w("            },")
    else:
        w("            \"vset\" => match (op.at(\"t\").n(), op.at(\"f\").n()) {")
        for v in d.variants:
            for i in range(len(v["fields"])):
                w("                (%d, %d) => %s" % (v["tag"], i, setop(v, i)))
        w("                f => panic!(\"harness: field {:?}\", f),")
        w("            },")
    w("            o => panic!(\"harness: no {} here\", o),")
    w("        }")
    w("        J::A(vec![])")
    w("    }")
    for fn, val in (("paths", "path_of(self.runtime())"), ("roots", "J::B(self.is_root())")):
        w("    fn %s(&self, out: &mut Vec<J>) {" % fn)
        w("        out.push(%s);" % val)
        if d.kind == "struct":
            v = d.variants[0]
            for i, f in enumerate(v["fields"]):
                if not f["ns"]:
                    w("        Node::%s(&self.%s, out);" % (fn, acc(v, i)))
        else:
            w("        match self {")
            for v in d.variants:
                w("            %s => { %s }" % (pat(v), " ".join(
                    "Node::%s(x%d, out);" % (fn, i) for i, f in enumerate(v["fields"]) if not f["ns"])))
            w("        }")
        w("    }")
    w("}")
    return "\n".join(out) + "\n"


def rust(schema):
    out = [PRE]
    for name, t in ALIASES.items():
        out.append("pub type %s = %s;\n" % (name, t))
    for name in schema.order:
        d = schema.defs[name]
        if not getattr(d, "builtin", False):
            out.append(decl(schema, d))
    for inst in schema.inst:
        out.append(impls(schema, inst))
    nodes = sorted(set(schema.root_types))
    codecs = sorted(set(schema.root_types + schema.codec_types + list(schema.inst)))
    out.append("pub fn root(ty: &str) -> Box<dyn RootType> {\n    match ty {\n")
    out.append("".join("        %s => Box::new(Of::<%s>::new()),\n" % (json.dumps(t), t) for t in nodes))
    out.append("        _ => panic!(\"harness: no root type {}\", ty),\n    }\n}\n")
    out.append("pub fn codec(ty: &str) -> Box<dyn CodecType> {\n    match ty {\n")
    out.append("".join("        %s => Box::new(Of::<%s>::%s()),\n" % (
        json.dumps(t), t, "hashed" if schema.hashable(schema.desc(parse_type(t))) else "new") for t in codecs))
    out.append("        _ => panic!(\"harness: no type {}\", ty),\n    }\n}\n")
    out.append("pub fn emit(ty: &str, setting: &Setting<CSharpSetting>) -> std::io::Result<Vec<String>> {\n    match ty {\n")
    out.append("".join("        %s => CSharpGenerator.generate::<%s>(setting),\n" % (json.dumps(t), t)
                       for t in codecs if schema.has_meta(schema.desc(parse_type(t)))))
    out.append("        _ => panic!(\"harness: nothing to generate for {}\", ty),\n    }\n}\n")
    return "".join(out)


if __name__ == "__main__":
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else None
    count = int(sys.argv[3]) if len(sys.argv) > 3 else 0
    s = core(seed, count)
    import os
    os.makedirs(sys.argv[1], exist_ok=True)
    open(sys.argv[1] + "/gen.rs", "w").write(rust(s))
    json.dump(s.json(), open(sys.argv[1] + "/schema.json", "w"))
