"""A parser of the part of C# in which the client runtime and generated clients are written."""
import re

TOKEN = re.compile(r'''
    (?P<ws>\s+|//[^\n]*|/\*.*?\*/|^\s*\#[^\n]*)
  | (?P<num>0[xX][0-9a-fA-F_]+[uUlL]*|\d[\d_]*(?:\.\d+)?[uUlLfFdDmM]*)
  | (?P<str>\$?"(?:\\.|[^"\\])*"|@"(?:[^"]|"")*")
  | (?P<char>'(?:\\.[^']*|[^'\\])')
  | (?P<id>@?[A-Za-z_]\w*)
  | (?P<op>\?\?=|<<=|=>|\?\.|\?\?|\+\+|--|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|[{}()\[\];,.<>=+\-*/%!~&|^?:])
''', re.X | re.S | re.M)

KEYWORDS = set('''abstract as base bool break byte case catch char class const continue decimal default delegate do double else enum event
explicit extern false finally fixed float for foreach if implicit in int interface internal is lock long namespace new null object
operator out override params private protected public readonly ref return sbyte sealed short sizeof stackalloc static string struct
switch this throw true try typeof uint ulong unchecked unsafe ushort using virtual void volatile while'''.split())
PREDEFINED = {"bool", "byte", "sbyte", "char", "short", "ushort", "int", "uint", "long", "ulong", "string", "object", "void",
              "decimal", "double", "float"}
MODIFIERS = {"public", "private", "protected", "internal", "static", "sealed", "partial", "abstract", "readonly", "override",
             "virtual", "const", "event", "extern", "unsafe", "volatile", "new", "async"}


class CsSyntax(Exception):
    pass


class NotAName(Exception):
    """A keyword where nothing but a name can be."""


class Tok:
    __slots__ = ("k", "t", "line")

    def __init__(self, k, t, line):
        self.k, self.t, self.line = k, t, line

    def __repr__(self):
        return "%s@%d" % (self.t, self.line)


def tokens(text):
    out, pos, line = [], 0, 1
    while pos < len(text):
        m = TOKEN.match(text, pos)
        if not m:
            raise CsSyntax("line %d: %r" % (line, text[pos:pos + 30]))
        if m.lastgroup != "ws":
            k, t = m.lastgroup, m.group()
            if k == "id" and t in KEYWORDS:
                k = "kw"
            if k == "id" and t[0] == "@":
                t = t[1:]
            out.append(Tok(k, t, line))
        line += m.group().count("\n")
        pos = m.end()
    out.append(Tok("end", "", line))
    return out


# A type is (name, args) with dotted names; ("[]", [t]), ("?", [t]) and ("()", ts) are arrays, nullables and tuples.
class Parser:
    def __init__(self, text, file=""):
        self.file = file
        self.toks = tokens(text)
        self.i = 0

    # ------------------------------------------------------------ tokens
    @property
    def cur(self):
        return self.toks[self.i]

    def peek(self, n=1):
        return self.toks[min(self.i + n, len(self.toks) - 1)]

    def at(self, *ts):
        return self.cur.t in ts and self.cur.k not in ("str", "char")

    def eat(self, t):
        if self.at(t):
            self.i += 1
            return True
        return False

    def need(self, t):
        if not self.eat(t):
            self.fail("expected %r" % t)

    def fail(self, why):
        raise CsSyntax("%s:%d: %s, at %r" % (self.file, self.cur.line, why, self.cur.t))

    def ident(self):
        if self.cur.k != "id":
            self.fail("expected a name")
        self.i += 1
        return self.toks[self.i - 1].t

    def attempt(self, f):
        start = self.i
        try:
            return f()
        except CsSyntax:
            self.i = start
            return None

    # ------------------------------------------------------------ types
    def type(self):
        if self.eat("("):
            ts, names = [], []
            while True:
                ts.append(self.type())
                names.append(self.ident() if self.cur.k == "id" else None)
                if not self.eat(","):
                    break
            self.need(")")
            if len(ts) < 2:
                self.fail("no tuple")
            t = ("()", ts, names)
        elif self.cur.t in PREDEFINED and self.cur.k == "kw":
            t = (self.cur.t, [])
            self.i += 1
        else:
            t = None
            while True:
                name = self.ident()
                args = []
                if self.at("<"):
                    self.i += 1
                    while True:
                        args.append(self.type())
                        if not self.eat(","):
                            break
                    self.need(">")
                t = (name, args) if t is None else (name, args, t)
                if self.at(".") and self.peek().k == "id":
                    self.i += 1
                    continue
                break
        while True:
            if self.at("[") and self.peek().t == "]":
                self.i += 2
                t = ("[]", [t])
            elif self.at("?") and self.cur.k == "op":
                self.i += 1
                t = ("?", [t])
            else:
                return t

    # ------------------------------------------------------------ declarations
    def unit(self):
        out = []
        self.usings = []
        while self.cur.k != "end":
            out += self.namespace_member()
        for d in out:
            d.setdefault("ns", "")
            d["usings"] = self.usings
            d["file"] = self.file
        return out

    def namespace_member(self):
        if self.at("using"):
            self.i += 1
            name = ""
            while not self.eat(";"):
                name += self.cur.t
                self.i += 1
            self.usings.append(name)
            return []
        if self.eat("namespace"):
            name = self.ident()
            while self.eat("."):
                name += "." + self.ident()
            self.need("{")
            out = []
            while not self.eat("}"):
                out += self.namespace_member()
            for d in out:
                d["ns"] = name + "." + d["ns"] if "ns" in d else name
            return out
        return [self.type_decl(self.modifiers())]

    def attributes(self):
        while self.at("["):
            depth = 0
            while True:
                if self.at("["):
                    depth += 1
                elif self.at("]"):
                    depth -= 1
                self.i += 1
                if depth == 0:
                    break

    def modifiers(self):
        self.attributes()
        mods = set()
        while self.cur.t in MODIFIERS and self.cur.k in ("kw", "id"):
            if self.at("partial") and not (self.peek().t in ("class", "struct", "interface") or self.peek().t in MODIFIERS):
                break
            mods.add(self.cur.t)
            self.i += 1
        return mods

    def type_decl(self, mods):
        kind = self.cur.t
        line = self.cur.line
        if kind == "delegate":
            self.i += 1
            ret = self.type()
            name = self.ident()
            params = self.type_params()
            sig = self.params()
            self.constraints()
            self.need(";")
            return dict(d="delegate", name=name, params=params, ret=ret, sig=sig, bases=[], members=[], mods=mods, line=line)
        if kind not in ("class", "struct", "interface", "enum"):
            self.fail("expected a declaration")
        self.i += 1
        name = self.ident()
        if kind == "enum":
            base = ("int", [])
            if self.eat(":"):
                base = self.type()
            self.need("{")
            values = []
            while not self.eat("}"):
                self.attributes()
                n = self.ident()
                values.append((n, self.expr() if self.eat("=") else None))
                if not self.eat(","):
                    self.need("}")
                    break
            self.eat(";")
            return dict(d="enum", name=name, base=base, values=values, params=[], bases=[], members=[], mods=mods, line=line)
        params = self.type_params()
        bases = []
        if self.eat(":"):
            bases.append(self.type())
            while self.eat(","):
                bases.append(self.type())
        self.constraints()
        self.need("{")
        members = []
        while not self.eat("}"):
            members.append(self.member(name))
        self.eat(";")
        return dict(d=kind, name=name, params=params, bases=bases, mods=mods, members=members, line=line)

    def type_params(self):
        out = []
        if self.eat("<"):
            while True:
                if self.at("in", "out"):
                    self.i += 1
                out.append(self.ident())
                if not self.eat(","):
                    break
            self.need(">")
        return out

    def constraints(self):
        while self.at("where"):
            self.i += 1
            self.ident()
            self.need(":")
            while True:
                if self.at("class", "struct"):
                    self.i += 1
                elif self.eat("new"):
                    self.need("(")
                    self.need(")")
                else:
                    self.type()
                if not self.eat(","):
                    break

    def member(self, cls):
        mods = self.modifiers()
        line = self.cur.line
        if self.at("class", "struct", "interface", "enum", "delegate"):
            return dict(m="type", decl=self.type_decl(mods))
        if self.cur.k == "id" and self.cur.t == cls and self.peek().t == "(":
            self.i += 1
            params = self.params()
            init = None
            if self.eat(":"):
                which = self.cur.t
                self.i += 1
                init = (which, self.args())
            body = self.body()
            return dict(m="ctor", mods=mods, params=params, init=init, body=body, line=line)
        if self.at("implicit", "explicit"):
            self.fail("conversions are not supported")
        ty = self.type()
        if self.eat("this"):
            self.need("[")
            params = self.param_list("]")
            acc = self.accessors()
            return dict(m="indexer", mods=mods, ty=ty, params=params, acc=acc, line=line)
        name = self.ident()
        if self.at("<", "("):
            tparams = self.type_params()
            params = self.params()
            self.constraints()
            return dict(m="method", mods=mods, ty=ty, name=name, tparams=tparams, params=params, body=self.body(), line=line)
        if self.at("{"):
            acc = self.accessors()
            init = None
            if self.eat("="):
                init = self.expr()
                self.need(";")
            return dict(m="property", mods=mods, ty=ty, name=name, acc=acc, init=init, line=line)
        if self.eat("=>"):
            e = self.expr()
            self.need(";")
            return dict(m="property", mods=mods, ty=ty, name=name, acc=dict(get=[("return", e, line)]), init=None, line=line)
        decls = []
        while True:
            decls.append((name, self.var_init() if self.eat("=") else None))
            if not self.eat(","):
                break
            name = self.ident()
        self.need(";")
        return dict(m="field", mods=mods, ty=ty, decls=decls, line=line)

    def var_init(self):
        if self.at("{"):
            return self.array_items(None)
        return self.expr()

    def accessors(self):
        """get and set: None for an automatic one."""
        acc = {}
        self.need("{")
        while not self.eat("}"):
            mods = self.modifiers()
            n = self.ident() if self.cur.k == "id" else self.fail("expected an accessor")
            acc[n] = self.body()
            acc["mods " + n] = mods
        return acc

    def params(self):
        self.need("(")
        return self.param_list(")")

    def param_list(self, close):
        out = []
        while not self.eat(close):
            self.attributes()
            how = ""
            while self.at("ref", "out", "this", "params", "in"):
                how = self.cur.t
                self.i += 1
            ty = self.type()
            name = self.ident()
            default = self.expr() if self.eat("=") else None
            out.append(dict(how=how, ty=ty, name=name, default=default))
            if not self.eat(","):
                self.need(close)
                break
        return out

    def body(self):
        if self.eat(";"):
            return None
        line = self.cur.line
        if self.eat("=>"):
            e = self.expr()
            self.need(";")
            return [("arrow", e, line)]
        return self.block()

    # ------------------------------------------------------------ statements
    def block(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            out.append(self.statement())
        return out

    def embedded(self):
        return self.block() if self.at("{") else [self.statement()]

    def statement(self):
        line = self.cur.line
        t = self.cur.t if self.cur.k in ("kw", "op") else None
        if t == "{":
            return ("block", self.block(), line)
        if t == ";":
            self.i += 1
            return ("block", [], line)
        if t == "if":
            self.i += 1
            self.need("(")
            c = self.expr()
            self.need(")")
            then = self.embedded()
            other = self.embedded() if self.eat("else") else []
            return ("if", c, then, other, line)
        if t == "while":
            self.i += 1
            self.need("(")
            c = self.expr()
            self.need(")")
            return ("while", c, self.embedded(), line)
        if t == "do":
            self.i += 1
            b = self.embedded()
            self.need("while")
            self.need("(")
            c = self.expr()
            self.need(")")
            self.need(";")
            return ("do", b, c, line)
        if t == "for":
            self.i += 1
            self.need("(")
            init = []
            if not self.eat(";"):
                d = self.attempt(self.local_decl)
                if d:
                    init = [d]
                else:
                    init = [("expr", self.expr(), line)]
                    while self.eat(","):
                        init.append(("expr", self.expr(), line))
                self.need(";")
            cond = None if self.at(";") else self.expr()
            self.need(";")
            step = []
            while not self.eat(")"):
                step.append(("expr", self.expr(), line))
                self.eat(",")
            return ("for", init, cond, step, self.embedded(), line)
        if t == "foreach":
            self.i += 1
            self.need("(")
            ty = self.type()
            name = self.ident()
            self.need("in")
            e = self.expr()
            self.need(")")
            return ("foreach", ty, name, e, self.embedded(), line)
        if t == "switch":
            self.i += 1
            self.need("(")
            e = self.expr()
            self.need(")")
            self.need("{")
            sections = []
            while not self.eat("}"):
                labels = []
                while self.at("case", "default"):
                    if self.eat("default"):
                        labels.append(None)
                    else:
                        self.need("case")
                        labels.append(self.attempt(self.type_pattern) or self.expr())
                        if self.eat("when"):
                            labels[-1] = ("when", labels[-1], self.expr())
                    self.need(":")
                body = []
                while not self.at("case", "default", "}"):
                    body.append(self.statement())
                sections.append((labels, body))
            return ("switch", e, sections, line)
        if t == "return":
            self.i += 1
            e = None if self.at(";") else self.expr()
            self.need(";")
            return ("return", e, line)
        if t in ("break", "continue"):
            self.i += 1
            self.need(";")
            return (t, line)
        if t == "throw":
            self.i += 1
            e = None if self.at(";") else self.expr()
            self.need(";")
            return ("throw", e, line)
        if t == "try":
            self.i += 1
            body = self.block()
            catches, final = [], []
            while self.eat("catch"):
                ty = name = None
                if self.eat("("):
                    ty = self.type()
                    if self.cur.k == "id":
                        name = self.ident()
                    self.need(")")
                catches.append((ty, name, self.block()))
            if self.eat("finally"):
                final = self.block()
            return ("try", body, catches, final, line)
        if t in ("const",):
            self.i += 1
        if t == "using":
            self.i += 1
            self.need("(")
            d = self.attempt(self.local_decl) or ("expr", self.expr(), line)
            self.need(")")
            return ("block", [d] + self.embedded(), line)
        if t == "lock":
            self.i += 1
            self.need("(")
            self.expr()
            self.need(")")
            return ("block", self.embedded(), line)
        if t in ("unchecked", "checked") and self.peek().t == "{":
            self.i += 1
            return ("block", self.block(), line)
        if self.cur.t == "yield" and self.peek().t in ("return", "break"):
            self.i += 2
            if self.toks[self.i - 1].t == "break":
                self.need(";")
                return ("return", None, line)
            e = self.expr()
            self.need(";")
            return ("yield", e, line)
        d = self.attempt(lambda: self.local_decl(end=True)) or self.attempt(self.local_function)
        if d:
            return d
        e = self.expr()
        self.need(";")
        return ("expr", e, line)

    def type_pattern(self):
        t = self.type()
        name = self.ident()
        if not self.at(":", "when"):
            self.fail("no pattern")
        return ("pattern", t, name)

    def local_function(self):
        line = self.cur.line
        if self.at("static"):
            self.i += 1
        ty = self.type()
        name = self.ident()
        tparams = self.type_params()
        if not self.at("("):
            self.fail("no function")
        params = self.params()
        if not self.at("{", "=>"):
            self.fail("no function")
        if tparams:
            self.fail("generic local functions are not supported")
        return ("function", ty, name, params, self.body(), line)

    def local_decl(self, end=False):
        line = self.cur.line
        if self.cur.t == "var" and self.peek().t == "(" or self.at("("):
            var = self.cur.t == "var"
            self.i += 2 if var else 1
            names = []
            while True:
                if not var:
                    self.type()
                names.append(self.ident())
                if not self.eat(","):
                    break
            self.need(")")
            if len(names) < 2 or not self.at("="):
                self.fail("no deconstruction")
            self.need("=")
            e = self.expr()
            if end:
                self.need(";")
            return ("deconstruct", names, e, line)
        ty = self.type()
        decls = []
        while True:
            if ty == ("var", []) and self.cur.t in KEYWORDS and self.peek().t == "=":
                raise NotAName("%s:%d: %r" % (self.file, line, self.cur.t))
            name = self.ident()
            if not self.at("=", ",", ";"):
                self.fail("not a declaration")
            decls.append((name, self.var_init() if self.eat("=") else None))
            if not self.eat(","):
                break
        if end:
            self.need(";")
        return ("local", None if ty == ("var", []) else ty, decls, line)

    # ------------------------------------------------------------ expressions
    ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", "??="}

    def expr(self):
        lam = self.attempt(self.lambda_)
        if lam:
            return lam
        left = self.ternary()
        if self.cur.k == "op" and self.cur.t in self.ASSIGN:
            op = self.cur.t
            line = self.cur.line
            self.i += 1
            return ("assign", op, left, self.expr(), line)
        if self.at(">") and self.peek().t == ">" and self.peek(2).t == "=":
            pass
        return left

    def lambda_(self):
        params = []
        line = self.cur.line
        if self.cur.k == "id" and self.peek().t == "=>":
            params = [self.ident()]
        elif self.at("("):
            self.i += 1
            while not self.eat(")"):
                if self.peek().t in (",", ")"):
                    params.append(self.ident())
                else:
                    self.type()
                    params.append(self.ident())
                if not self.eat(","):
                    self.need(")")
                    break
        else:
            self.fail("no lambda")
        if not self.eat("=>"):
            self.fail("no lambda")
        if self.at("{"):
            return ("lambda", params, self.block())
        return ("lambda", params, [("arrow", self.expr(), line)])

    def ternary(self):
        c = self.coalesce()
        if self.at("?") and self.cur.k == "op":
            self.i += 1
            a = self.expr()
            self.need(":")
            return ("cond", c, a, self.expr())
        return c

    def coalesce(self):
        a = self.binary(0)
        if self.eat("??"):
            if self.eat("throw"):
                return ("??", a, ("throw", self.expr()))
            return ("??", a, self.coalesce())
        return a

    LEVELS = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]

    def operator(self, level):
        if self.cur.k != "op":
            if level == 6 and self.at("is", "as"):
                return self.cur.t
            return None
        if self.at(">") and self.peek().t == ">" and ">>" in self.LEVELS[level]:
            return ">>"
        if self.at(">") and self.peek().t == ">":
            return None
        return self.cur.t if self.cur.t in self.LEVELS[level] else None

    def binary(self, level):
        if level == len(self.LEVELS):
            return self.unary()
        a = self.binary(level + 1)
        while True:
            op = self.operator(level)
            if op is None:
                return a
            line = self.cur.line
            self.i += 2 if op == ">>" else 1
            if op in ("is", "as"):
                if op == "is" and self.eat("null"):
                    a = ("bin", "==", a, ("lit", None), line)
                    continue
                t = self.type_in_expr()
                name = None
                if op == "is" and self.cur.k == "id" and self.cur.t != "when":
                    name = self.ident()
                a = (op, a, t, name, line)
            else:
                a = ("bin", op, a, self.binary(level + 1), line)

    def type_in_expr(self):
        """A type which is not nullable by the `?` of a conditional."""
        start = self.i
        t = self.type()
        if t[0] == "?" and not self.at(")", ";", ",", "&&", "||", "}", "]", "==", "!="):
            self.i = start
            t = self.plain_type()
        return t

    def plain_type(self):
        toks, i = self.toks, self.i
        depth = 0
        j = i
        while True:
            if toks[j].t == "<":
                depth += 1
            elif toks[j].t == ">":
                depth -= 1
            elif toks[j].t == "?" and depth == 0:
                break
            j += 1
        saved = toks[j]
        toks[j] = Tok("end", "", saved.line)
        t = self.type()
        toks[j] = saved
        return t

    def unary(self):
        line = self.cur.line
        if self.cur.k == "op" and self.cur.t in ("-", "+", "!", "~", "++", "--"):
            op = self.cur.t
            self.i += 1
            return ("un", op, self.unary(), line)
        if self.at("("):
            c = self.attempt(self.cast)
            if c:
                return c
        return self.postfix(self.primary())

    def cast(self):
        self.need("(")
        t = self.type()
        self.need(")")
        line = self.cur.line
        simple = len(t[1]) == 0 and t[0] in PREDEFINED
        if self.cur.k in ("id", "num", "str", "char") or self.at("(", "!", "~", "this", "new", "typeof", "default", "base", "null", "true", "false") \
                or (self.cur.k == "kw" and self.cur.t in PREDEFINED) or (simple and self.at("-", "+")):
            return ("cast", t, self.unary(), line)
        self.fail("no cast")

    def args(self):
        """[(name, how, expression)]"""
        self.need("(")
        out = []
        while not self.eat(")"):
            name = None
            if self.cur.k == "id" and self.peek().t == ":":
                name = self.ident()
                self.i += 1
            how = ""
            if self.at("ref", "out"):
                how = self.cur.t
                self.i += 1
                if how == "out" and self.cur.t == "var":
                    self.i += 1
                    out.append((name, "outvar", self.ident()))
                    if not self.eat(","):
                        self.need(")")
                        break
                    continue
            out.append((name, how, self.expr()))
            if not self.eat(","):
                self.need(")")
                break
        return out

    def generic_args(self):
        """Type arguments of a name in an expression, if that is what they are."""
        if not self.at("<"):
            return []
        def f():
            self.need("<")
            out = [self.type()]
            while self.eat(","):
                out.append(self.type())
            self.need(">")
            if not self.at("(", ")", "]", "}", ":", ";", ",", ".", "?.", "?", "==", "!=", "|", "^", "&&", "||", "&", "["):
                self.fail("no type arguments")
            return out
        return self.attempt(f) or []

    def array_items(self, ty):
        self.need("{")
        items = []
        while not self.eat("}"):
            items.append(self.expr())
            if not self.eat(","):
                self.need("}")
                break
        return ("array", ty, None, items)

    def primary(self):
        tok = self.cur
        line = tok.line
        if tok.k == "num":
            self.i += 1
            return ("num", tok.t)
        if tok.k == "str":
            self.i += 1
            return self.string(tok)
        if tok.k == "char":
            self.i += 1
            return ("char", tok.t[1:-1].encode().decode("unicode_escape"))
        if tok.k == "kw":
            if tok.t in ("true", "false", "null"):
                self.i += 1
                return ("lit", {"true": True, "false": False, "null": None}[tok.t])
            if tok.t in ("this", "base"):
                self.i += 1
                return (tok.t,)
            if tok.t == "typeof":
                self.i += 1
                self.need("(")
                t = self.type()
                self.need(")")
                return ("typeof", t, line)
            if tok.t == "default":
                self.i += 1
                if self.eat("("):
                    t = self.type()
                    self.need(")")
                    return ("default", t)
                return ("default", None)
            if tok.t == "throw":
                self.i += 1
                return ("throw", self.expr())
            if tok.t == "new":
                self.i += 1
                if self.at("["):
                    self.i += 1
                    self.need("]")
                    return self.array_items(None)
                t = self.array_base()
                if self.at("["):
                    self.i += 1
                    if self.eat("]"):
                        return self.array_items(t)
                    n = self.expr()
                    self.need("]")
                    return ("array", t, n, None)
                args = self.args() if self.at("(") else []
                init = None
                if self.at("{"):
                    init = self.initializer()
                return ("new", t, args, init, line)
            if tok.t in ("checked", "unchecked"):
                self.i += 1
                self.need("(")
                e = self.expr()
                self.need(")")
                return ("paren", e)
            if tok.t in PREDEFINED:
                self.i += 1
                return ("name", tok.t, [], line)
        if tok.k == "id":
            self.i += 1
            if tok.t == "nameof" and self.at("("):
                self.i += 1
                e = self.expr()
                self.need(")")
                return ("str", e[2] if e[0] == "member" else e[1])
            return ("name", tok.t, self.generic_args(), line)
        if self.eat("("):
            e = self.expr()
            if self.at(","):
                es = [e]
                while self.eat(","):
                    es.append(self.expr())
                self.need(")")
                return ("tuple", es)
            self.need(")")
            return ("paren", e)
        self.fail("expected an expression")

    def array_base(self):
        """A type without the sizes of an array."""
        t = None
        if self.cur.t in PREDEFINED and self.cur.k == "kw":
            self.i += 1
            return (self.toks[self.i - 1].t, [])
        while True:
            name = self.ident()
            args = []
            if self.eat("<"):
                while True:
                    args.append(self.type())
                    if not self.eat(","):
                        break
                self.need(">")
            t = (name, args) if t is None else (name, args, t)
            if not self.eat("."):
                return t

    def initializer(self):
        self.need("{")
        out = []
        while not self.eat("}"):
            if self.cur.k == "id" and self.peek().t == "=":
                n = self.ident()
                self.i += 1
                out.append((n, self.expr()))
            else:
                out.append((None, self.expr()))
            if not self.eat(","):
                self.need("}")
                break
        return out

    def string(self, tok):
        t = tok.t
        if t[0] == "@":
            return ("str", t[2:-1].replace('""', '"'))
        if t[0] == "$":
            parts = re.split(r"(\{\{|\}\}|\{[^{}]*\})", t[2:-1])
            out = []
            for p in parts:
                if p in ("{{", "}}"):
                    out.append(("str", p[0]))
                elif p.startswith("{"):
                    out.append(Parser(p[1:-1].split(":")[0], self.file).expr())
                else:
                    out.append(("str", self.unescape(p)))
            return ("interp", out)
        return ("str", self.unescape(t[1:-1]))

    @staticmethod
    def unescape(s):
        return re.sub(r"\\(u[0-9a-fA-F]{4}|x[0-9a-fA-F]{1,4}|.)", lambda m: {
            "n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(m.group(1)) or (
            chr(int(m.group(1)[1:], 16)) if m.group(1)[0] in "ux" else m.group(1)), s)

    def postfix(self, e):
        while True:
            line = self.cur.line
            if self.cur.k != "op":
                return e
            if self.eat("."):
                n = self.ident()
                e = ("member", e, n, self.generic_args(), line)
            elif self.at("?.") :
                self.i += 1
                n = self.ident()
                rest = ("member", ("hole",), n, self.generic_args(), line)
                rest = self.postfix(rest)
                e = ("?.", e, rest)
            elif self.at("("):
                e = ("call", e, self.args(), line)
            elif self.at("["):
                self.i += 1
                ix = [self.expr()]
                while self.eat(","):
                    ix.append(self.expr())
                self.need("]")
                e = ("index", e, ix, line)
            elif self.at("++", "--"):
                op = self.cur.t
                self.i += 1
                e = ("post", op, e, line)
            elif self.at("!") and self.peek().t in (".", ")", ";", ",", "[", "?."):
                self.i += 1
            else:
                return e


def parse(text, file=""):
    return Parser(text, file).unit()
