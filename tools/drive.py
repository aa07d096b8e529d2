"""Drives the implementation through random histories, recording traces for the specification."""
import copy, random
from values import Values, FIELD_MAX
from wirefmt import *
from schema import INTS, PRIMS


class Sess:
    def __init__(self, id, ty, d, val):
        self.id, self.ty, self.d, self.val = id, ty, d, val
        self.base, self.log, self.whole = val, [], True   # whole: base and log describe the value
        self.followers = {}
        self.depth = 0
        self.shared = False


class Follower:
    def __init__(self, sess, client=False):
        self.sess, self.queue, self.stale, self.client = sess, [], False, client
        self.lost = False    # a client which did not survive something


class Driver:
    def __init__(self, impl, seed):
        self.impl = impl
        self.rng = random.Random(seed)
        self.schema = impl.built.schema
        self.V = Values(self.rng, self.schema)
        self.next = 0
        self.pocket = {}     # index -> (desc, value)
        self.pocket_n = 0
        self.dead = False
        self.only = None     # the types to use, instead of all
        self.foreign = None  # the numbers of fields which no type has, to be used often
        self.clients = None  # followers are mostly clients
        self.churn = False     # the same keys and values again and again
        self.watching = False  # clients listen to changes
        self.wide = 0        # how many lengths and tags of what is encoded are larger by 2^32 or so
        self.newer = 0       # how often what is encoded holds something which the schema does not know

    # ------------------------------------------------------------ basics
    def call(self, cmd):
        cmd["st"] = self.rng.randrange(1, 10000)
        r = self.impl(cmd)
        if not self.impl.alive(r):
            self.dead = True
        return r

    def fresh_id(self):
        self.next += 1
        return self.next

    def ty(self, name):
        return self.V.ty(name)

    def reset(self):
        self.impl.reset()
        if self.clients:
            self.clients.reset()
        self.dead = False
        self.next = 0
        self.pocket, self.pocket_n = {}, 0

    def new(self, ty, v=None, how=None, share=None, depth=3):
        d = self.ty(ty)
        if v is None:
            v = self.V.default(d) if self.rng.random() < 0.2 else self.V.value(d, depth)
        id = self.fresh_id()
        cmd = {"c": "new", "s": id, "ty": ty, "v": v, "how": self.rng.randrange(5) if how is None else how}
        if share is not None:
            cmd["share"] = share
        r = self.call(cmd)
        if self.dead:
            return None
        return Sess(id, ty, d, r["obs"])

    # ------------------------------------------------------------ operations
    def src(self, d, pk=True):
        """How the value of an operation comes about: fields v, w, bs, pk."""
        r = self.rng
        out = {"v": self.V.default(d) if r.random() < (0.3 if self.churn else 0.1) else self.V.value(d, 2)}
        if self.V.kind(d) == "plain":
            return out
        c = r.randrange(12)
        if pk:
            hits = [i for i, (t, _) in self.pocket.items() if t == d]
            if hits and r.random() < 0.6:
                i = r.choice(hits)
                out["v"] = self.pocket.pop(i)[1]
                out["pk"] = i
                if r.random() < 0.4:
                    out["w"] = 2
                return out
        if c < 5:
            out["bs"] = r.randrange(3)
        elif c < 9:
            out["w"] = 1
        elif c < 11:
            out["w"], out["bs"] = 2, r.randrange(3)
        else:
            out["w"] = 5
        return out

    def pick(self, sess_d, val, live_only=False, want=None):
        ps = self.V.places(sess_d, val)
        if live_only:
            ps = [p for p in ps if p[4]]
        if want:
            hits = [p for p in ps if want(p)]
            ps = hits or ps
        # Prefer deep places.
        ps.sort(key=lambda p: len(p[0]))
        if self.rng.random() < 0.5:
            return self.rng.choice(ps)
        return ps[int(len(ps) * (1 - self.rng.random() ** 2)) % len(ps)] if self.rng.random() < 0.5 else self.rng.choice(ps[-(len(ps) + 1) // 2:])

    def change(self, place, pk=True, keep=0.25):
        """A random change at a place; None if there is none to make."""
        r, V = self.rng, self.V
        at, path, d, v, live = place
        k = V.kind(d)
        op = None
        if k == "struct":
            fs = V.fields(d)
            if not fs:
                return None
            i = r.randrange(len(fs))
            op = dict(o="set", f=i, **(self.src(fs[i]["t"], pk) if not fs[i]["ns"] else {"v": V.value(fs[i]["t"], 2)}))
            if r.random() < 0.1:
                op["v"] = v[i] if "pk" not in op else op["v"]
        elif k == "enum":
            vs = [x for x in V.defs[d["n"]]["variants"] if x["fields"]]
            if not vs:
                return None
            same = [x for x in vs if x["tag"] == v["t"]]
            x = same[0] if same and r.random() < 0.35 else r.choice(vs)
            i = r.randrange(len(x["fields"]))
            f = x["fields"][i]
            op = dict(o="vset", t=x["tag"], f=i, **(self.src(f["t"], pk) if not f["ns"] else {"v": V.value(f["t"], 2)}))
        elif k == "list":
            c = r.randrange(10)
            if c < 5 or (not v and c < 9):
                op = dict(o="push", **self.src(d["t"], pk))
                if v and "pk" not in op and r.random() < 0.3:
                    op["v"] = copy.deepcopy(r.choice(v))
            elif c < 7:
                op = dict(o="pop")
            else:
                n = len(v)
                op = dict(o="swap", i=r.choice([0, n - 1, n, r.randrange(n + 1), 2 ** 31 - 2]) if n else 0)
                if op["i"] < 0:
                    op["i"] = 0
        elif k == "map":
            used = [e["k"] for e in v]
            c = r.randrange(10)
            if c < 6 or (not v and c < 9):
                key = r.choice(used) if used and r.random() < (0.6 if self.churn else 0.35) else V.key(d, used)
                if key is None:
                    key = r.choice(used)
                op = dict(o="ins", k=key, **self.src(d["t"], pk))
            else:
                key = r.choice(used) if used and r.random() < 0.75 else V.key(d)
                op = dict(o="rem", k=key)
        if op["o"] in ("pop", "swap", "ins", "rem") and V.kind(d["t"]) not in ("prim", "plain") and r.random() < keep:
            op["keep"] = 1
        return op

    def quiet(self, place):
        """A random operation which changes nothing."""
        r, V = self.rng, self.V
        at, path, d, v, live = place
        k = V.kind(d)
        ops = [dict(o="peek"), dict(o="shake"), dict(o="relink", **({"up": 1} if k == "enum" else {}))]
        if k == "list":
            ops += [dict(o="views")] * 3
        if k == "map":
            ops += [dict(o="views", ks=[V.key(d) for _ in range(4)] + [e["k"] for e in v[:3]])] * 3
        if V.is_maybe(d):
            ops += [dict(o="maybe")] * 2
        op = r.choice(ops)
        return op

    def each(self, place):
        """The same change on every item of a collection."""
        at, path, d, v, live = place
        if self.V.kind(d) not in ("list", "map") or d["t"]["k"] not in ("ref", "list", "map", "box"):
            return None
        it = d["t"]
        if self.V.kind(it) in ("prim", "plain"):
            return None
        items = [e["v"] for e in v] if self.V.kind(d) == "map" else v
        item = items[0] if items else self.V.default(it)
        inner = self.change(((), (), self.V.unbox(it), item, live), pk=False, keep=0)
        if inner is None:
            return None
        return dict(o="each", at=[], op=inner)

    def apply(self, s, at, op, **more):
        """Runs an operation in a session and does the bookkeeping."""
        r = self.rng
        op = dict(op)
        op["nv"] = r.randrange(4)
        cmd = dict(c="op", s=s.id, at=list(at), op=op, **more)
        if r.random() < 0.25:
            cmd["bytes"] = 1
        # Another thread has the logger for a moment.
        if r.random() < (0.2 if op["o"] in ("pause", "unpause") and "times" not in op else 0.02):
            cmd["held"] = 1
        rep = self.call(cmd)
        if self.dead:
            return None
        return self.after(s, op, rep)

    def after(self, s, op, rep):
        s.val = rep["obs"]
        s.log += rep["log"]
        for f in s.followers.values():
            f.queue += rep["log"]
        if "pocket" in rep:
            self.pocket_n = rep["pocket"] + 1
            if len(self.pocket) < 6:
                self.pocket[rep["pocket"]] = (None, rep["kept"][0])
        return rep

    def kept_type(self, rep, d):
        if rep and "pocket" in rep and rep["pocket"] in self.pocket:
            self.pocket[rep["pocket"]] = (d["t"], rep["kept"][0])

    def act(self, s, quiet=0.15, each=0.05, **more):
        place = self.pick(s.d, s.val)
        x = self.rng.random()
        op = None
        if x < quiet:
            op = self.quiet(place)
        elif x < quiet + each:
            ps = [p for p in self.V.places(s.d, s.val) if self.V.kind(p[2]) in ("list", "map")]
            if ps:
                place = self.rng.choice(ps)
                op = self.each(place)
        if op is None:
            op = self.change(place, pk=not more)
        if op is None:
            op = dict(o="peek")
        rep = self.apply(s, place[0], op, **more)
        self.kept_type(rep, place[2])
        return op, rep

    # ------------------------------------------------------------ replication
    def drop(self, id, client=False):
        cmd = {"c": "drop", "s": id}
        if client:
            self.clients.drop(id)
            self.impl.note(cmd, {})
        else:
            self.impl.note(cmd, self.impl.raw(cmd))

    def client(self, cmd):
        """Something a client does: its report, if there is one."""
        r = self.clients.do(cmd)
        self.impl.steps += 1
        if "undecided" in r:
            return None
        self.impl.note(cmd, r)
        return r

    def csnap(self, s):
        id = self.fresh_id()
        r = self.client({"c": "csnap", "s": s.id, "f": id, "ty": s.ty, "u": self.rng.randrange(2)})
        if r is None or r["res"] != "ok":
            return None
        s.followers[id] = Follower(Sess(id, s.ty, s.d, r["obs"]), True)
        return s.followers[id]

    def snap(self, s):
        if self.clients and self.rng.random() < 0.9:
            return self.csnap(s)
        id = self.fresh_id()
        r = self.call({"c": "snap", "s": s.id, "f": id, "how": self.rng.randrange(2),
                       "chunk": self.rng.choice([0, 0, 0, 1, 3, 101])})
        if self.dead or r["res"] != "ok":
            return None
        f = Sess(id, s.ty, s.d, r["obs"])
        s.followers[id] = Follower(f)
        return s.followers[id]

    def deliver(self, f, n=None):
        """Delivers the first n entries which are waiting (default: a random number)."""
        bs = boundaries(f.queue)
        n = self.rng.randrange(len(bs)) if n is None else min(n, len(bs) - 1)
        part = f.queue[:bs[n]]
        if f.client:
            if f.lost:
                return
            cmd = {"c": "creplay", "s": f.sess.id, "b": part}
            if self.watching:
                cmd["watch"] = self.rng.randrange(2)
            r = self.client(cmd)
            if r is None or r["res"] != "ok":
                f.stale = f.lost = True
            else:
                f.queue = f.queue[bs[n]:]
                f.sess.val = r["obs"]
            return
        cmd = {"c": "replay", "s": f.sess.id, "b": part, "q": 1, "chunk": self.rng.choice([0, 0, 0, 1, 2, 7, 101, 103]),
               "bytes": 1 if self.rng.random() < 0.3 else 0}
        if f.stale:
            cmd["lost"] = 1
        r = self.call(cmd)
        if self.dead:
            return
        f.queue = f.queue[bs[n]:]
        f.sess.val = r["obs"]
        if r["res"] != "ok":
            f.stale = True

    def crafted(self, f):
        """Something a server with another version of the schema could log."""
        r, V, s = self.rng, self.V, f.sess
        at, path, d, v, live = self.pick(s.d, s.val)
        k, path = V.kind(d), list(path)
        more = tag(self.unknown([0, 1]), 0) + [7] if r.random() < 0.1 else ()
        if r.random() < 0.03:
            return entry(UPDATE, [], self.encode(s.d, V.value(s.d, 2)), extra=more)
        fs = V.fields(d, v["t"] if k == "enum" else None) if k in ("struct", "enum") else []
        inside = path + ([v["t"]] if k == "enum" else [])
        if k in ("struct", "enum") and r.random() < 0.55:
            # Somewhere which is not known, or not there.
            c = r.randrange(4 if k == "enum" else 2)
            variants = [x["tag"] for x in V.defs[d["n"]]["variants"]]
            if c < 2:
                leaves = [g["tag"] for g in fs if V.kind(g["t"]) == "prim"]
                where = inside + [r.choice(leaves) if leaves and r.random() < 0.2 and c else self.unknown([g["tag"] for g in fs])]
            else:
                others = [t for t in variants if t != v["t"]]
                where = path + [r.choice(others) if others and c == 2 else self.unknown(variants)]
            there = c == 0 or c == 3   # an update of what is not known
            kind = UPDATE if there and r.random() < 0.6 else r.choice([UPDATE, PUSH, POP, REMOVE])
            if not (there and kind == UPDATE and r.random() < 0.7):
                where += [r.choice([0, 1, 2, 7, 300, 2 ** 31 - 2]) for _ in range(r.choice([1, 1, 2, 4]))]
            b = [r.randrange(256) for _ in range(r.choice([0, 1, 2, 9, 130]))]
            return entry(kind, where, b if kind in (UPDATE, PUSH) else None, r.choice([0, 1, 9]) if kind == REMOVE else None, more)
        if k == "list":
            if v and r.random() < 0.5:
                return entry(UPDATE, path + [r.randrange(len(v))], self.encode(d["t"], V.value(d["t"], 2)), extra=more)
            return entry(PUSH, path, self.encode(d["t"], V.value(d["t"], 2)), extra=more) if r.random() < 0.8 or not v \
                else entry(POP, path, extra=more)
        if k == "map":
            keys = [e["k"] for e in v]
            if keys and r.random() < 0.2:
                return entry(REMOVE, path, key=r.choice(keys), extra=more)
            key = r.choice(keys) if keys and r.random() < 0.5 else V.key(d, keys)
            return entry(UPDATE, path + [key if key is not None else keys[0]], self.encode(d["t"], V.value(d["t"], 2)), extra=more)
        if k == "enum" and (not fs or r.random() < 0.5):
            x = r.choice(V.defs[d["n"]]["variants"])
            return entry(UPDATE, path + [x["tag"]], self.encode_fields(x["fields"], [V.value(g["t"], 2) for g in x["fields"]]), extra=more)
        if not fs:
            return entry(UPDATE, inside + [self.unknown([])], [1, 2, 3], extra=more)
        g = r.choice(fs)
        return entry(UPDATE, inside + [g["tag"]], self.encode(g["t"], V.value(g["t"], 2)), extra=more)

    def craft(self, f):
        """A client is sent entries which no server with the same schema has logged."""
        if f.lost:
            return
        b = self.crafted(f)
        cmd = {"c": "creplay", "s": f.sess.id, "b": b, "craft": 1}
        if self.rng.random() < 0.6:
            cmd["watch"] = self.rng.randrange(2)
        r = self.client(cmd)
        if r is None or r["res"] != "ok":
            f.lost = True
        else:
            f.sess.val = r["obs"]

    def look(self, s):
        r = self.call({"c": "look", "s": s.id})
        return r

    def sync(self, s, f):
        while f.queue and not f.stale and not self.dead:
            bs = boundaries(f.queue)
            self.deliver(f, len(bs) - 1 if self.rng.random() < 0.6 else self.rng.randrange(1, len(bs)))
        if self.dead or f.stale:
            return
        if f.client:
            self.impl.note({"c": "csync", "a": s.id, "b": f.sess.id}, {})
            return
        a, b = self.look(s), self.look(f.sess)
        if not self.dead:
            self.impl.note({"c": "sync", "a": s.id, "b": f.sess.id}, {"ba": a["b"], "bb": b["b"]})

    def full(self, s):
        """Replays everything onto a state like the one it began with."""
        if not s.whole:
            return
        t = self.new(s.ty, s.base, self.rng.randrange(5))
        if self.dead:
            return
        self.call({"c": "replay", "s": t.id, "b": s.log, "chunk": self.rng.choice([0, 0, 1, 5, 101])})
        if self.dead:
            return
        a, b = self.look(s), self.look(t)
        if not self.dead:
            self.impl.note({"c": "sync", "a": s.id, "b": t.id, "full": 1}, {"ba": a["b"], "bb": b["b"]})
            self.drop(t.id)

    def untracked(self, s):
        """Something happened which the log does not tell."""
        s.base, s.log = s.val, []
        for f in s.followers.values():
            self.drop(f.sess.id, f.client)
        s.followers = {}

    def untracked_except(self, s, f):
        """Everything but one follower goes away."""
        self.drop(s.id)
        for g in s.followers.values():
            if g is not f:
                self.drop(g.sess.id, g.client)
        s.followers = {}

    # ------------------------------------------------------------ bytes
    def payload(self, d, wild=0.5):
        """Bytes meant for a type: well-formed, from nowhere, or broken."""
        r = self.rng
        self.wide = int(r.random() < wild / 6)
        b = self.encode(d, self.V.value(d, 2))
        self.wide = 0
        return self.mutate(b) if r.random() < wild * 5 / 6 else b

    def encode(self, d, v):
        """Encodes a value. Only used to make inputs."""
        k = d["k"]
        if k in INTS:
            n = int.from_bytes(bytes(v), "little", signed=k[0] == "i")
            if k[0] == "i":
                n = n * 2 if n >= 0 else -n * 2 - 1
            return varint(n)
        if k == "bool":
            return [1 if v else 0]
        if k in ("string", "bytes"):
            return list(v)
        if k in ("option", "vec", "array", "list"):
            return [x for e in v for x in self.nested(d["t"], e)]
        if k == "tuple":
            return [x for t, e in zip(d["ts"], v) for x in self.nested(t, e)]
        if k == "hashmap":
            return [x for p in v for x in self.nested(d["key"], p[0]) + self.nested(d["t"], p[1])]
        if k == "box":
            return self.encode(d["t"], v)
        if k == "map":
            return [x for e in v for x in tag(e["k"], self.wt(d["t"])) + self.nested(d["t"], e["v"])]
        if self.V.defs[d["n"]]["kind"] == "struct":
            return self.encode_fields(self.V.fields(d), v)
        if self.r_newer(0.4):
            return varint(self.unknown([x["tag"] for x in self.V.defs[d["n"]]["variants"]])) + self.strange([], [])
        return varint(v["t"]) + self.encode_fields(self.V.fields(d, v["t"]), v["f"])

    def wt(self, d):
        while d["k"] == "box":
            d = d["t"]
        return 0 if d["k"] in PRIMS else 2

    def nested(self, d, v):
        b = self.encode(d, v)
        return b if self.wt(d) == 0 else varint(self.widen(len(b))) + b

    def widen(self, n):
        r = self.rng
        if self.wide and r.random() < 0.4:
            self.wide -= 1
            return n + r.choice([2 ** 32, 2 ** 32, 3 * 2 ** 32, 2 ** 33, 2 ** 40, 2 ** 63])
        return n

    def r_newer(self, part=1.0):
        return self.newer and self.rng.random() < self.newer * part

    def unknown(self, known):
        """A number which is not known."""
        r = self.rng
        while True:
            n = r.choice([0, 1, 2, 3, 5, 15, 16, 17, 127, 128, 300, 2 ** 28, 2 ** 29 - 1, max(known, default=0) + 1,
                          max(known, default=1) - 1])
            if 0 <= n < 2 ** 29 and n not in known:
                return n

    def strange(self, fs, parts):
        """Adds fields which the schema does not know, or not in that shape."""
        r = self.rng
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            num, wt = self.unknown([f["tag"] for f in fs]), r.choice([0, 2])
            if fs and r.random() < 0.3:
                f = r.choice(fs)
                num, wt = f["tag"], 2 - self.wt(f["t"])
            x = varint(r.getrandbits(r.choice([1, 7, 20, 64]))) if wt == 0 else sized(
                [r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 130]))])
            parts.insert(r.randrange(len(parts) + 1), tag(num, wt) + x)
        return [x for p in parts for x in p]

    def encode_fields(self, fs, vs):
        r = self.rng
        parts = []
        for f, v in zip(fs, vs):
            b = self.nested(f["t"], v)
            if b in ([0],) and r.random() < 0.9:
                continue
            parts.append(varint(self.widen(f["tag"] << 3 | self.wt(f["t"]))) + b)
        if self.newer:
            return self.strange(fs, parts if r.random() < 0.8 else r.sample(parts, len(parts))) if self.r_newer() \
                else [x for p in parts for x in p]
        x = r.random()
        if x < (0.5 if self.foreign else 0.15):
            # A field the schema does not know, or one in the wrong shape.
            num = r.choice(self.foreign or [1, 3, 4, 9, 19, 50, 2 ** 29 - 1, 1000] + [f["tag"] for f in fs])
            extra = r.choice([tag(num, 0) + varint(r.getrandbits(r.choice([3, 20, 64]))),
                              tag(num, 2) + sized([r.randrange(256) for _ in range(r.randrange(5))])])
            parts.insert(r.randrange(len(parts) + 1), extra)
        elif x < 0.25 and parts:
            # A field which comes again.
            i = r.randrange(len(fs))
            parts.append(tag(fs[i]["tag"], self.wt(fs[i]["t"])) + self.nested(fs[i]["t"], self.V.value(fs[i]["t"], 2)))
        elif x < 0.3:
            r.shuffle(parts)
        return [x for p in parts for x in p]

    def mutate(self, b):
        r = self.rng
        b = list(b)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            c = r.randrange(8)
            i = r.randrange(len(b) + 1)
            if c == 0:
                b = b[:i]
            elif c == 1 and b:
                b[i % len(b)] ^= 1 << r.randrange(8)
            elif c == 2:
                b[i:i] = [r.randrange(256)]
            elif c == 3 and b:
                del b[i % len(b)]
            elif c == 4 and b:
                b[i % len(b)] = r.choice([0, 1, 2, 8, 10, 127, 128, 255])
            elif c == 5:
                # A number written longer than needed, or longer than fits.
                n = r.choice([1, 2, 5, 9, 10, 12])
                b[i:i] = [r.choice([128, 129, 255])] * n + [r.choice([0, 1, 127])]
            elif c == 6:
                b[i:i] = r.choice([[255, 255, 255, 255, 15], [255, 255, 255, 255, 7], [128, 128, 128, 128, 16],
                                   [255] * 9 + [1], [255] * 9 + [127], [128] * 20 + [1]])
            else:
                j = r.randrange(len(b) + 1)
                b[i:i] = b[min(i, j):max(i, j)][:20]
        return b[:600]
