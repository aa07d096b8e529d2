"""Random values of a schema, boundaries first."""
import copy
from schema import INTS, PRIMS, KEYSET

FIELD_MAX = 2 ** 29 - 1
TLC_MAX = 2 ** 31 - 2


def le(n, width):
    return list((n % (1 << (8 * width))).to_bytes(width, "little"))


def un_le(b, signed=False):
    return int.from_bytes(bytes(b), "little", signed=signed)


def ends(items):
    return items if len(items) <= 40 else items[:20] + items[-20:]


class Values:
    def __init__(self, rng, schema):
        self.rng, self.schema = rng, schema
        self.defs = schema["defs"]
        self.bulk = 0
        self.bit = None

    # ------------------------------------------------------------ types
    def ty(self, name):
        return self.schema["types"][name]

    def fields(self, d, tag=None):
        vs = self.defs[d["n"]]["variants"]
        if tag is None:
            return vs[0]["fields"]
        for v in vs:
            if v["tag"] == tag:
                return v["fields"]
        raise KeyError(tag)

    def kind(self, d):
        """struct, enum, list, map, prim, or something which is no state."""
        while d["k"] == "box":
            d = d["t"]
        if d["k"] == "ref":
            e = self.defs[d["n"]]
            return e["kind"] if e["state"] else "plain"
        if d["k"] in PRIMS:
            return "prim"
        return d["k"] if d["k"] in ("list", "map") else "plain"

    def unbox(self, d):
        while d["k"] == "box":
            d = d["t"]
        return d

    def is_maybe(self, d):
        return d["k"] == "ref" and d["n"].startswith("Maybe<")

    # ------------------------------------------------------------ leaves
    def int(self, k):
        r, w = self.rng, INTS[k]
        bits = 8 * w
        signed = k[0] == "i"
        if self.bit is not None:
            b = self.bit % bits
            n = (1 << b) | r.choice([0, (1 << b) - 1, r.getrandbits(b) if b else 0])
            return le(r.choice([n, -n, ~n, n - 1]) if signed else n, w)
        c = r.randrange(10)
        if c < 2:
            n = 0
        elif c < 4:
            n = r.choice([1, 2, 3, 5])
        elif c < 5:
            n = (1 << bits) - 1 if not signed else -1
        elif c < 6:
            n = r.choice([(1 << (bits - 1)) - 1, 1 << (bits - 1), (1 << (bits - 1)) + 1])
        elif c < 8:
            n = (1 << r.randrange(0, bits)) + r.choice([-1, 0, 1])
        elif c < 9:
            n = (1 << min(bits, 7 * r.randrange(1, 10)) - (1 if signed else 0)) + r.choice([-2, -1, 0, 1])
        else:
            n = r.getrandbits(bits)
        if signed and r.random() < 0.4:
            n = -n
        return le(n, w)

    def text(self, n):
        r = self.rng
        out = b""
        while len(out) < n:
            out += r.choice(["a", "Z", "0", " ", "\n", "\u00e9", "\u20ac", "\U0001f600", "\u0000", "\u07ff", "\uffff",
                             "\U0010ffff", "\ud7ff", "\ue000"]).encode()
        return list(out)

    def count(self, big=0.02):
        r = self.rng
        if r.random() < big:
            return r.choice([5, 8, 17])
        return r.choice([0, 0, 1, 1, 2, 2, 3])

    def len(self):
        r = self.rng
        if self.bulk and r.random() < 0.7:
            # Sizes where one more byte is needed to tell them.
            self.bulk -= 1
            return self.size
        return r.choice([0, 0, 1, 2, 3, 5, 7, 20]) if r.random() < 0.96 else r.choice([126, 127, 128, 129, 300])

    def key(self, d, used=()):
        """A valid key of a map type, distinct from those in use."""
        ks = d["keys"]
        r = self.rng
        for _ in range(20):
            if ks[0] < 0:
                top = -ks[0]
                k = r.choice([0, 1, 2, 3, 4, top, top - 1, 127, 128, 255]) if r.random() < 0.85 else r.randint(0, top)
                k = min(k, top)
            else:
                k = r.choice(ks)
            if k not in used:
                return k
        return None

    # ------------------------------------------------------------ values
    def value(self, d, depth=3):
        r, k = self.rng, d["k"]
        if k in INTS:
            return self.int(k)
        if k == "bool":
            return r.random() < 0.6
        if k == "string":
            return self.text(self.len())
        if k == "bytes":
            return [r.randrange(256) for _ in range(self.len())]
        small = depth <= 0
        if k == "option":
            return [] if small or r.random() < 0.35 else [self.value(d["t"], depth - 1)]
        if k in ("vec", "list"):
            n = 0 if small else self.count()
            if not small and d["t"]["k"] in ("u8", "bool", "i8") and r.random() < 0.015:
                n = r.choice([127, 128, 130])
            out = []
            for _ in range(n):
                out.append(copy.deepcopy(r.choice(out)) if out and r.random() < 0.15 else self.value(d["t"], depth - 1))
            return out
        if k == "array":
            return [self.value(d["t"], depth - 1) for _ in range(d["n"])]
        if k == "tuple":
            return [self.value(t, depth - 1) for t in d["ts"]]
        if k == "box":
            return self.value(d["t"], depth)
        if k == "hashmap":
            out = []
            for _ in range(0 if small else self.count()):
                key = self.value(d["key"], 1)
                if all(key != p[0] for p in out):
                    out.append([key, self.value(d["t"], depth - 1)])
            return out
        if k == "map":
            out = []
            for _ in range(0 if small else self.count()):
                key = self.key(d, [e["k"] for e in out])
                if key is not None:
                    out.append({"k": key, "v": self.value(d["t"], depth - 1)})
            return out
        e = self.defs[d["n"]]
        if e["kind"] == "struct":
            many = len(e["variants"][0]["fields"]) > 10
            return [self.default(f["t"]) if many and r.random() < 0.6 else self.value(f["t"], depth - 1)
                    for f in e["variants"][0]["fields"]]
        v = e["variants"][0]
        v = [x for x in e["variants"] if x["tag"] == 0][0] if small else r.choice(e["variants"])
        return {"t": v["tag"], "f": [self.value(f["t"], depth - 1) for f in v["fields"]]}

    def default(self, d):
        k = d["k"]
        if k in INTS:
            return [0] * INTS[k]
        if k == "bool":
            return False
        if k == "array":
            return [self.default(d["t"])] * d["n"]
        if k == "tuple":
            return [self.default(t) for t in d["ts"]]
        if k == "box":
            return self.default(d["t"])
        if k == "ref":
            e = self.defs[d["n"]]
            if e["kind"] == "struct":
                return [self.default(f["t"]) for f in e["variants"][0]["fields"]]
            return {"t": 0, "f": [self.default(f["t"]) for f in self.fields(d, 0)]}
        return []

    def tweak(self, d, v):
        """A value which differs in one place, if that is possible."""
        r, k = self.rng, d["k"]
        for _ in range(4):
            w = self.tweak1(d, v)
            if w != v:
                return w
        return v

    def tweak1(self, d, v):
        r, k = self.rng, d["k"]
        if k in INTS:
            n = un_le(v)
            return le(n ^ (1 << r.randrange(8 * INTS[k])), INTS[k])
        if k == "bool":
            return not v
        if k == "string":
            return v[:-1] if v and v[-1] < 128 else v + [97]
        if k == "bytes":
            return v[:-1] if v and r.random() < 0.5 else v + [r.randrange(256)]
        if k == "box":
            return self.tweak(d["t"], v)
        if k == "option":
            return [] if v and r.random() < 0.4 else [self.tweak(d["t"], v[0]) if v else self.value(d["t"], 1)]
        if k in ("vec", "list"):
            c = r.randrange(4)
            if v and c == 0:
                return v[:-1]
            if len(v) > 1 and c == 1:
                i = r.randrange(len(v) - 1)
                return v[:i] + [v[i + 1], v[i]] + v[i + 2:]
            if v and c == 2:
                i = r.randrange(len(v))
                return v[:i] + [self.tweak(d["t"], v[i])] + v[i + 1:]
            return v + [self.value(d["t"], 1)]
        if k in ("array", "tuple"):
            i = r.randrange(len(v))
            t = d["t"] if k == "array" else d["ts"][i]
            return v[:i] + [self.tweak(t, v[i])] + v[i + 1:]
        if k == "hashmap":
            if v and r.random() < 0.6:
                i = r.randrange(len(v))
                return v[:i] + [[v[i][0], self.tweak(d["t"], v[i][1])]] + v[i + 1:]
            return v[:-1]
        if k == "map":
            c = r.randrange(4)
            if v and c == 0:
                return v[:-1]
            if len(v) > 1 and c == 1:
                w = list(v)
                r.shuffle(w)
                return w
            if v and c == 2:
                i = r.randrange(len(v))
                return v[:i] + [{"k": v[i]["k"], "v": self.tweak(d["t"], v[i]["v"])}] + v[i + 1:]
            key = self.key(d, [e["k"] for e in v])
            return v if key is None else v + [{"k": key, "v": self.value(d["t"], 1)}]
        e = self.defs[d["n"]]
        if e["kind"] == "struct":
            fs = self.fields(d)
            if not fs:
                return v
            i = r.randrange(len(fs))
            return v[:i] + [self.tweak(fs[i]["t"], v[i])] + v[i + 1:]
        fs = self.fields(d, v["t"])
        if not fs or r.random() < 0.2:
            other = r.choice(e["variants"])
            if r.random() < 0.5:
                return {"t": other["tag"], "f": [self.default(f["t"]) for f in self.fields(d, other["tag"])]}
            return self.value(d, 2)
        i = r.randrange(len(fs))
        return {"t": v["t"], "f": v["f"][:i] + [self.tweak(fs[i]["t"], v["f"][i])] + v["f"][i + 1:]}

    # ------------------------------------------------------------ places
    def places(self, d, v, at=(), path=(), live=True, out=None):
        """All nested states of a value: (at, path, type, value, live)."""
        if out is None:
            out = []
        d = self.unbox(d)
        k = self.kind(d)
        if k in ("prim", "plain"):
            return out
        here = path if k != "enum" else path
        out.append((at, path, d, v, live))
        if k == "list":
            if self.kind(d["t"]) not in ("prim",):
                for i, x in ends(list(enumerate(v))):
                    self.places(d["t"], x, at + (i,), path + (i,), live, out)
        elif k == "map":
            if self.kind(d["t"]) not in ("prim",):
                for e in ends(v):
                    self.places(d["t"], e["v"], at + (e["k"],), path + (e["k"],), live, out)
        else:
            fs = self.fields(d, v["t"] if k == "enum" else None)
            vs = v["f"] if k == "enum" else v
            pre = path + ((v["t"],) if k == "enum" else ())
            for i, f in enumerate(fs):
                self.places(f["t"], vs[i], at + (i,), pre + (f["tag"],), live and not f["ns"], out)
        return out
