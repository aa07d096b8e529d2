"""Families of traces: each drives the implementation through one kind of situation."""
from drive import Driver
from impl import ToolError
from wirefmt import *
from values import FIELD_MAX

# Types by what they exercise.
STATES = ["Point", "Shape", "Inner", "Root", "Tree", "MTree", "Chain", "Gen<Point>", "Gen<Shape>", "GE<Point>", "GE<Shape>",
          "KMap", "Wrap", "Names", "NamesE", "Strs", "Prims", "List<i32>", "List<Point>", "List<Shape>", "List<List<u16>>",
          "List<Maybe<Shape>>", "List<Box<Point>>", "List<Map<u8, Point>>", "List<Strs>", "Map<u8, u32>", "Map<u16, Point>",
          "Map<u32, Shape>", "Map<Key, Shape>", "Map<Key, i64>", "Map<u8, Map<u16, u8>>", "Map<u8, Maybe<List<u8>>>",
          "Map<u16, Box<Shape>>", "Maybe<Point>", "Maybe<Maybe<u8>>", "Maybe<List<Point>>", "Box<Point>", "Box<Shape>",
          "Box<List<u8>>", "Gen<u8>", "GE<u16>", "Maybe<u8>", "List<bool>", "Eqs", "EqE", "EqM", "Unit"]
RICH = ["Inner", "Root", "Tree", "MTree", "Chain", "Gen<Shape>", "GE<Shape>", "KMap", "List<Shape>", "List<List<u16>>",
        "List<Maybe<Shape>>", "List<Map<u8, Point>>", "Map<u32, Shape>", "Map<u16, Box<Shape>>", "Map<u8, Map<u16, u8>>",
        "Map<u8, Maybe<List<u8>>>", "Shape", "List<Strs>", "Maybe<List<Point>>", "List<Box<Point>>", "NamesE", "Wrap",
        "Box<List<u8>>", "Gen<Point>"]


class Cycle:
    """Goes through alternatives in random order, so that each gets its turn."""

    def __init__(self, rng, items):
        self.rng, self.items, self.bag = rng, list(items), []

    def __call__(self):
        if not self.bag:
            self.bag = list(self.items)
            self.rng.shuffle(self.bag)
        return self.bag.pop()


def roots(d):
    if d.only:
        return d.only
    own = [t for t in d.schema["roots"] if t.startswith("R") and t[1:].isdigit()]
    return own or STATES


def rich(d):
    if d.only:
        return d.only
    own = [t for t in d.schema["roots"] if t.startswith("R") and t[1:].isdigit()]
    return own or RICH


ENUMS = ["Shape", "GE<Shape>", "GE<Point>", "List<Shape>", "Map<u32, Shape>", "NamesE", "List<Maybe<Shape>>", "EqE", "Chain",
         "Maybe<Maybe<u8>>", "Box<Shape>", "Gen<Shape>", "Map<u16, Box<Shape>>", "Inner", "GE<u16>", "Maybe<List<Point>>",
         "Map<Key, Shape>", "Map<u8, Maybe<List<u8>>>"]
COLLECTIONS = ["List<i32>", "List<Point>", "List<Shape>", "List<List<u16>>", "List<Box<Point>>", "List<Map<u8, Point>>", "List<bool>",
               "Map<u8, u32>", "Map<u16, Point>", "Map<u32, Shape>", "Map<Key, i64>", "Map<u8, Map<u16, u8>>", "Tree", "MTree",
               "Map<u8, Maybe<List<u8>>>", "Box<List<u8>>", "Gen<u8>", "List<Strs>", "KMap"]


def own(d):
    return d.only or d.schema["roots"][-1].startswith("R")


def enums(d, n):
    history(d, n, types=None if own(d) else ENUMS)


def collections(d, n):
    history(d, n, types=None if own(d) else COLLECTIONS)


def history(d, n, steps=14, types=None):
    """Changes, snapshots, followers which lag behind, failover, full replay."""
    pick = Cycle(d.rng, types or rich(d) * 2 + roots(d))
    for _ in range(n):
        s = d.new(pick())
        for _ in range(d.rng.randrange(steps // 2, steps * 3 // 2)):
            if d.dead:
                break
            x = d.rng.random()
            if x < 0.10 and len(s.followers) < 2:
                d.snap(s)
            elif x < 0.22 and s.followers:
                d.deliver(d.rng.choice(list(s.followers.values())))
            elif x < 0.27 and s.followers:
                # The follower takes over.
                f = d.rng.choice(list(s.followers.values()))
                d.sync(s, f)
                if f.client:
                    continue
                if not d.dead and not f.stale:
                    d.full(s)
                if not d.dead and not f.stale:
                    d.untracked_except(s, f)
                    s = f.sess
                    s.base, s.log = s.val, []
                    if d.rng.random() < 0.6:
                        d.snap(s)
            elif x < 0.30 and d.pocket:
                pocket_change(d, s)
            else:
                d.act(s)
        if not d.dead:
            for f in list(s.followers.values()):
                if not d.dead:
                    d.sync(s, f)
        if not d.dead:
            d.full(s)
        d.reset()


def takeovers(d, n):
    """A follower replays structural changes, takes over and is changed where these were, with a follower of its own."""
    pick = Cycle(d.rng, rich(d))
    for _ in range(n):
        s = d.new(pick())
        for _ in range(2):
            f = None if d.dead else d.snap(s)
            for _ in range(d.rng.randrange(2, 7)):
                if d.dead or not f:
                    break
                d.act(s, quiet=0)
            if d.dead or not f or f.client:
                break
            d.sync(s, f)
            if d.dead or f.stale:
                break
            d.untracked_except(s, f)
            s = f.sess
            s.base, s.log, s.followers = s.val, [], {}
            g = d.snap(s)
            for _ in range(d.rng.randrange(3, 9)):
                if d.dead or not g:
                    break
                places = [p for p in d.V.places(s.d, s.val) if p[4] and len(p[0]) > 0] or d.V.places(s.d, s.val)
                place = d.rng.choice(places)
                op = d.change(place)
                if op:
                    d.kept_type(d.apply(s, place[0], op), place[2])
            if not d.dead and g:
                d.sync(s, g)
        if not d.dead:
            d.full(s)
        d.reset()


def pocket_change(d, s):
    i = d.rng.choice(list(d.pocket))
    t, v = d.pocket[i]
    if t is None or d.V.kind(t) in ("prim", "plain"):
        return
    place = d.pick(t, v)
    op = d.change(place, pk=False, keep=0) if d.rng.random() < 0.8 else d.quiet(place)
    if op is None:
        return
    op["nv"] = d.rng.randrange(4)
    drop = d.rng.random() < 0.1
    cmd = {"c": "pop", "pk": i, "at": list(place[0]), "op": op, "s": s.id}
    if drop:
        cmd["drop"] = 1
    r = d.call(cmd)
    if d.dead:
        return
    if drop:
        del d.pocket[i]
    else:
        d.pocket[i] = (t, r["obs"])


def moving(d, n, steps=12):
    """Values are taken out, changed, and put somewhere else: also into another state."""
    pick = Cycle(d.rng, ["Inner", "Root", "Tree", "MTree", "List<Shape>", "List<List<u16>>", "Map<u32, Shape>", "List<Point>",
                         "List<Map<u8, Point>>", "Map<u16, Point>", "List<Box<Point>>", "Gen<Point>", "Gen<Shape>",
                         "Map<u16, Box<Shape>>", "Map<u8, Map<u16, u8>>", "KMap", "List<Maybe<Shape>>"]
                 if not own(d) else rich(d))
    for _ in range(n):
        ty = pick()
        ss = [d.new(ty), None]
        if not d.dead:
            ss[1] = d.new(ty)
        for _ in range(steps):
            if d.dead:
                break
            s = d.rng.choice(ss)
            x = d.rng.random()
            if d.pocket and x < 0.3:
                pocket_change(d, s)
            else:
                place = d.pick(s.d, s.val, want=lambda p: d.V.kind(p[2]) in ("list", "map"))
                op = d.change(place, keep=0.8)
                if op is not None:
                    rep = d.apply(s, place[0], op)
                    d.kept_type(rep, place[2])
        for s in ss:
            if not d.dead:
                d.full(s)
        d.reset()


def refusing(d, n, steps=12):
    """The logger refuses entries every now and then."""
    pick = Cycle(d.rng, rich(d))
    for _ in range(n):
        s = d.new(pick())
        if not d.dead and d.rng.random() < 0.5:
            d.snap(s)
        for _ in range(steps):
            if d.dead:
                break
            if d.rng.random() < 0.45:
                place = d.pick(s.d, s.val)
                op = None
                if d.rng.random() < 0.12:
                    op = d.each(place)
                if op is None:
                    op = d.change(place, pk=False, keep=0)
                if op is None:
                    continue
                fail = d.rng.choice([0, 0, 0, 1, 1, 2])
                atomic = d.rng.randrange(2)
                if op["o"] == "each" and op["op"]["o"] == "swap":
                    atomic = 1
                before = len(s.log)
                d.apply(s, place[0], op, fail=fail, atomic=atomic)
                if not d.dead and op["o"] == "swap" and not atomic and fail == 1 and len(s.log) > before:
                    # The known finding: from here on the log is no longer that of the state.
                    d.untracked(s)
            else:
                d.act(s, quiet=0.1)
        for f in list(s.followers.values()):
            if not d.dead:
                d.sync(s, f)
        if not d.dead:
            d.full(s)
        d.reset()


def orphan(d, n):
    """The known finding of C05: a batch of which a logger accepts only the first entry."""
    for _ in range(n):
        s = d.new("List<MP>", [[[1]], [[2]], [[3]]])
        if not d.dead:
            d.apply(s, [], dict(o="swap", i=0), fail=1, atomic=0)
        d.reset()


def pausing(d, n, steps=14):
    """Logging is paused and resumed, at any place of a state, also when others share the logger."""
    pick = Cycle(d.rng, rich(d))
    for _ in range(n):
        s = d.new(pick())
        others = []
        if not d.dead and d.rng.random() < 0.5:
            others.append(d.new(d.rng.choice(["Inner", "List<Shape>", "Map<u16, Point>"]), share=s.id))
        if not d.dead:
            others.append(d.new(d.rng.choice(["Inner", "Point", "List<Point>"])))
        shared = len(others) > 1
        for _ in range(steps):
            if d.dead:
                break
            x = d.rng.random()
            if x < 0.3:
                t = d.rng.choice([s] + others)
                ps = [p for p in d.V.places(t.d, t.val) if p[4]]
                d.apply(t, d.rng.choice(ps)[0], dict(o=d.rng.choice(["pause", "unpause"])))
            else:
                t = d.rng.choice([s, s] + others)
                place = d.pick(t.d, t.val)
                op = d.change(place) if d.rng.random() < 0.9 else d.quiet(place)
                if op is not None:
                    rep = d.apply(t, place[0], op)
                    d.kept_type(rep, place[2])
        # Back to normal, and everything works again.
        for _ in range(6):
            if not d.dead:
                r = d.apply(s, [], dict(o="unpause"))
                if r is None or r["ret"] == 0:
                    break
        if not d.dead:
            d.untracked(s)
            s.whole = not shared
            for _ in range(3):
                if not d.dead:
                    d.act(s)
            if not d.dead:
                d.full(s)
        d.reset()


def crowds(d, n, steps=6):
    """Lists and maps with so many entries that a byte, or a byte of seven bits, doesn't tell their places."""
    pick = Cycle(d.rng, ["List<MP>", "List<ME>", "List<u16>", "List<List<u8>>", "Map<u16, Point>", "Map<u32, Shape>", "List<Point>", "Map<u8, u32>"])
    size = Cycle(d.rng, [129, 256, 257, 270, 300])
    for _ in range(n):
        ty = pick()
        if ty not in d.schema["types"]:
            continue
        t, k = d.ty(ty), size()
        if t["k"] == "map":
            top = -t["keys"][0]
            start = d.rng.choice([0, max(0, top - k + 1), top // 2])
            v = [{"k": i, "v": d.V.value(t["t"], 1)} for i in range(start, min(start + k, top + 1))]
        else:
            v = [d.V.value(t["t"], 1) for _ in range(k)]
        s = d.new(ty, v)
        if d.dead:
            d.reset()
            continue
        if d.rng.random() < 0.5:
            d.snap(s)
        far = lambda p: not p[0] or (p[0][0] >= min(k - 8, 250) if t["k"] == "list" else d.rng.random() < 0.1)
        for _ in range(steps):
            if d.dead:
                break
            place = d.pick(s.d, s.val, live_only=True, want=far)
            op = d.change(place)
            if op is not None:
                d.apply(s, place[0], op)
        for f in list(s.followers.values()):
            if not d.dead:
                d.sync(s, f)
        if not d.dead:
            d.full(s)
        d.reset()


def deep_pausing(d, n):
    """Logging is paused many times over: it takes as many resumptions."""
    for _ in range(n):
        s = d.new(d.rng.choice(["Point", "Shape", "List<Point>", "Map<u16, Point>"]))
        def act():
            place = d.pick(s.d, s.val)
            op = d.change(place)
            if op is not None:
                d.apply(s, place[0], op)
        k = d.rng.choice([127, 128, 129, 255, 256, 257, 300, 32768, 65535, 65536, 70000])
        for o, times in (("pause", k), ("unpause", k - 1), ("unpause", 1), ("pause", k), ("unpause", k + d.rng.choice([0, 1, 255]))):
            if not d.dead:
                d.apply(s, [], dict(o=o, times=times))
            for _ in range(2):
                if not d.dead:
                    act()
        d.reset()


def source(d, ty, steps):
    """A state with a log: its first value and its entries."""
    s = d.new(ty, depth=2)
    for _ in range(steps):
        if d.dead:
            return None
        place = d.pick(s.d, s.val, live_only=True)
        op = d.change(place, pk=False, keep=0)
        if op is not None:
            d.apply(s, place[0], op)
    return s if not d.dead else None


def rp(d, ty, v, b, **more):
    d.call(dict(c="rp", ty=ty, v=v, b=list(b), how=d.rng.randrange(5), **more))
    d.dead = False


def cutting(d, n, cuts=12):
    """Logs which end, or whose source fails, at any byte."""
    pick = Cycle(d.rng, rich(d))
    for _ in range(n):
        s = source(d, pick(), d.rng.choice([1, 2, 3, 4]))
        if s is not None and s.log:
            log = s.log
            ends = list(range(len(log) + 1))
            if len(ends) > cuts:
                ends = sorted(set(d.rng.sample(ends, cuts) + d.rng.sample(boundaries(log), 1)))
            for e in ends:
                kind = d.rng.randrange(4)
                chunk = d.rng.choice([0, 0, 1, 2, 3, 100, 101, 105])
                if kind < 2:
                    rp(d, s.ty, s.base, log[:e], chunk=chunk)
                elif kind == 2:
                    rp(d, s.ty, s.base, log, rfail=e, chunk=chunk)
                else:
                    # The rest arrives later.
                    t = d.new(s.ty, s.base)
                    if not d.dead:
                        d.call(dict(c="replay", s=t.id, b=log[:e], chunk=chunk))
                    if not d.dead:
                        done = max(x for x in boundaries(log) if x <= e)
                        d.call(dict(c="replay", s=t.id, b=log[done:], chunk=chunk))
                    d.dead = False
        d.reset()


def misfit_entry(d, s):
    """An entry which probably does not fit: address, kind, key or payload are off."""
    r, V = d.rng, d.V
    ps = V.places(s.d, s.val)
    at, path, t, v, live = r.choice(ps)
    # Primitive places as well.
    k = V.kind(t)
    if k in ("struct", "enum") and r.random() < 0.5:
        fs = V.fields(t, v["t"] if k == "enum" else None)
        if fs:
            i = r.randrange(len(fs))
            path = path + ((v["t"],) if k == "enum" else ()) + (fs[i]["tag"],)
            t = V.unbox(fs[i]["t"])
            v = (v["f"] if k == "enum" else v)[i]
    elif k == "list" and v and r.random() < 0.5:
        i = r.randrange(len(v))
        path, t, v = path + (i,), V.unbox(t["t"]), v[i]
    elif k == "map" and v and r.random() < 0.5:
        i = r.randrange(len(v))
        path, t, v = path + (v[i]["k"],), V.unbox(t["t"]), v[i]["v"]
    k = V.kind(t)
    path = list(path)
    kind = r.choice([UPDATE, UPDATE, PUSH, POP, REMOVE])
    fit = {"list": [UPDATE, PUSH, POP], "map": [UPDATE, REMOVE]}.get(k, [UPDATE])
    c = r.randrange(12)
    if c < 5:
        kind = r.choice(fit)
    if c == 5:
        path.append(r.choice([0, 1, 2, 3, 7, 300, len(path), 2 ** 31 - 2]))
    elif c == 6 and path:
        i = r.randrange(len(path))
        path[i] = r.choice([path[i] + 1, max(0, path[i] - 1), 0, 5, 127, 128, 536870911, 2 ** 32 - 1, 2 ** 31])
    elif c == 7 and path:
        path.pop()
    elif c == 8:
        path = [r.choice([0, 1, 2, 7]) for _ in range(r.randrange(6))]
    elif c == 9 and k not in ("struct", "enum", "list", "map"):
        # Beyond a scalar.
        path += r.choice([[0], [0, 0], path[-1:] or [0], [r.choice([1, 2, 3])]])
        kind = UPDATE
    key = 0
    payload = []
    if kind == REMOVE:
        key = r.choice([e["k"] for e in v] or [0]) if k == "map" and r.random() < 0.4 else \
            r.choice([0, 1, 2, 5, 255, 256, 257, 300, 65536, 536870911, 536870912, 2 ** 32 - 1, 2 ** 32 + 1])
    elif kind == PUSH:
        payload = d.payload(t["t"], 0.4) if k == "list" else d.payload(t, 0.4)
    elif kind == UPDATE:
        if k == "map" and r.random() < 0.6:
            path.append(r.choice([0, 1, 2, 7, 255, 256, 257, 300, 301, 65535, 65536, 536870911, 536870912, 2 ** 32 - 1]
                                 + [V.key(t) or 0] * 6))
            payload = d.payload(t["t"], 0.4)
        else:
            payload = d.payload(t, 0.5)
    e = entry(kind, path, payload, key)
    x = r.random()
    if x < 0.08:
        e = entry(r.choice([1, 2, 3, 7, 10, 11, 13, 127, 300, 2 ** 32 + 8, 2 ** 35]), path, payload, key)
    elif x < 0.14:
        e = entry(kind, path, payload, key,
                  extra=r.choice([tag(9, 0) + [5], tag(3, 2) + [2, 1, 2], tag(1, 0) + [7], tag(1, 2) + [1, 1], tag(0, 0) + [3],
                                  tag(0, 2) + [1, 0], tag(0, 2) + [0], tag(5, 1), tag(2, 5)]))
    elif x < 0.22:
        e = d.mutate(e)
    elif x < 0.24:
        # A length which is too large, but not if cut to 32 bits.
        size, start = read_varint(e, 0)
        e = varint(size + r.choice([2 ** 32, 2 ** 33, 2 ** 63])) + e[start:]
    return e


def misfits(d, n, tries=6):
    """Entries which do not fit, between entries which do."""
    pick = Cycle(d.rng, rich(d) * 2 + roots(d))
    for _ in range(n):
        s = source(d, pick(), d.rng.choice([0, 1, 2]))
        if s is not None:
            es = entries(s.log)
            for _ in range(tries):
                if d.rng.random() < 0.25 and es:
                    # After, before, or between good ones.
                    i = d.rng.randrange(len(es) + 1)
                    b = [x for e in es[:i] for x in e] + misfit_entry(d, s) + [x for e in es[i:] for x in e]
                    rp(d, s.ty, s.base, b, chunk=d.rng.choice([0, 0, 1, 101]))
                elif d.rng.random() < 0.1:
                    rp(d, s.ty, s.base, d.mutate(s.log))
                else:
                    rp(d, s.ty, s.val, misfit_entry(d, s), chunk=d.rng.choice([0, 0, 1, 101]))
        d.reset()


def nesting(d, n, steps=8):
    """Replaying onto nested states, updating and merging in place; then everything goes on."""
    pick = Cycle(d.rng, rich(d))
    for _ in range(n):
        s = d.new(pick())
        for _ in range(steps):
            if d.dead:
                break
            x = d.rng.random()
            if x < 0.6:
                place = d.pick(s.d, s.val, live_only=True)
                at, path, t, v, live = place
                o = d.rng.choice(["nreplay", "merge", "hup"])
                if o == "nreplay":
                    sub = d.rng.choice(["", "x"])
                    b = entry(UPDATE, [], d.payload(t, 0.1)) if sub else misfit_entry(d, type("P", (), dict(d=t, val=v))())
                else:
                    b = d.payload(t, 0.2)
                if d.apply(s, at, dict(o=o, bytes=b, chunk=d.rng.choice([0, 0, 1, 101]))) is not None:
                    d.untracked(s)
            elif x < 0.7 and not s.followers:
                d.snap(s)
            else:
                d.act(s)
        for f in list(s.followers.values()):
            if not d.dead:
                d.sync(s, f)
        if not d.dead:
            d.full(s)
        d.reset()


def codec_types(d):
    if d.only:
        return d.only
    own = [t for t in d.schema["roots"] if t.startswith("R") and t[1:].isdigit()]
    return own or sorted(set(d.schema["codecs"] + d.schema["roots"]))


NUMS = [0, 1, 15, 16, 127, 2047, 2048, 16384, 2 ** 28, FIELD_MAX]


def codec(d, ty, op):
    d.call({"c": "codec", "ty": ty, "op": op})
    d.dead = False


def has(d, t, kinds, seen=()):
    k = t["k"]
    if k in kinds:
        return True
    if k == "ref":
        return t["n"] not in seen and any(has(d, f["t"], kinds, seen + (t["n"],))
                                          for v in d.V.defs[t["n"]]["variants"] for f in v["fields"])
    if k == "tuple":
        return any(has(d, x, kinds, seen) for x in t["ts"])
    return "t" in t and has(d, t["t"], kinds, seen) or k == "hashmap"


def serializing(d, n):
    """Values, written alone, nested and tagged."""
    pick = Cycle(d.rng, codec_types(d))
    for _ in range(n):
        ty = pick()
        v = d.V.value(d.ty(ty), d.rng.choice([2, 3, 4]))
        codec(d, ty, dict(c="ser", v=v, num=d.rng.choice(NUMS)))
        d.reset()


def sharing(d, n):
    """Several threads write the same value."""
    pick = Cycle(d.rng, ["Inner", "Root", "Shape", "Tree", "Pt", "PWide", "List<Shape>", "Map<u16, Point>", "PEnum", "POpt"])
    for _ in range(n):
        ty = pick()
        codec(d, ty, dict(c="par", v=d.V.value(d.ty(ty), 4), threads=4, rounds=40))
        d.reset()


def numbers(d, n):
    """Integers of each length in bits."""
    for k in (list(range(64)) + [63, 63, 63, 31, 31, 15, 7]) * n:
        d.V.bit = k
        for ty in ("PWide", "Prims"):
            if d.clients:
                if ty in d.clients.types:
                    d.client({"c": "cread", "ty": ty, "v": d.V.value(d.ty(ty), 2), "u": k % 4})
                continue
            codec(d, ty, dict(c="ser", v=d.V.value(d.ty(ty), 2), num=d.rng.choice(NUMS)))
            codec(d, ty, dict(c="trip", v=d.V.value(d.ty(ty), 2), chunk=0))
        d.V.bit = None
        d.reset()


def round_trips(d, n):
    pick = Cycle(d.rng, codec_types(d))
    for _ in range(n):
        ty = pick()
        codec(d, ty, dict(c="trip", v=d.V.value(d.ty(ty), d.rng.choice([2, 3, 4])), chunk=d.rng.choice([0, 0, 0, 1, 3, 102])))
        d.reset()


def bulky(d, n):
    """Values of which some part is large."""
    kinds = Cycle(d.rng, ["string", "bytes"])
    pick = {k: Cycle(d.rng, [t for t in codec_types(d) if has(d, d.ty(t), (k,))] or codec_types(d)) for k in ("string", "bytes")}
    sizes = {k: Cycle(d.rng, [16374, 16384, 65526, 65536, 70000]) for k in pick}
    for _ in range(n):
        k = kinds()
        ty = pick[k]()
        t = d.ty(ty)
        d.V.size = sizes[k]() + d.rng.randrange(12)
        d.V.bulk = 1
        v = d.V.value(t, 3)
        for _ in range(20):
            if not d.V.bulk:
                break
            v = d.V.value(t, 3 if d.rng.random() < 0.5 else 5)
        d.V.bulk = 0
        c = d.rng.randrange(5)
        if c == 0:
            op = dict(c="trip", v=v, chunk=d.rng.choice([0, 0, 102]))
        elif c < 3:
            op = dict(c="ser", v=v, num=d.rng.choice(NUMS))
        elif c == 3 or has(d, t, ("hashmap",)):
            op = dict(c="mrg", v=v, b=d.encode(t, d.V.value(t, 2)), warm=1, num=d.rng.choice(NUMS), chunk=0)
            if d.rng.random() < 0.5:
                op.update(v=d.V.value(t, 2), b=d.encode(t, v), warm=d.rng.randrange(2))
        else:
            op = dict(c="wr", v=v, chunk=d.rng.choice([0, 100, 101, 103]), nested=d.rng.randrange(3), num=d.rng.choice(NUMS))
            if d.rng.random() < 0.3:
                op["wfail"] = d.rng.randrange(0, 1 + len(d.encode(t, v)))
                op["zero"] = d.rng.randrange(2)
        codec(d, ty, op)
        d.reset()


def merging(d, n):
    """Bytes merged into values; size and bytes must follow."""
    pick = Cycle(d.rng, codec_types(d))
    for _ in range(n):
        ty = pick()
        t = d.ty(ty)
        v = d.V.value(t, 2)
        b = d.payload(t, 0.25)
        op = dict(c="mrg", v=v, b=b, warm=d.rng.randrange(2), num=d.rng.choice(NUMS), chunk=d.rng.choice([0, 0, 0, 1]))
        if d.rng.random() < 0.3:
            op["nested"] = 1
            if d.wt(t) == 2 and d.rng.random() < 0.9:
                op["b"] = sized(b) + [d.rng.randrange(256) for _ in range(d.rng.randrange(3))]
        codec(d, ty, op)
        d.reset()


def reading(d, n, wild=0.8):
    """Bytes which were damaged, or never were anything."""
    pick = Cycle(d.rng, codec_types(d))
    for _ in range(n):
        ty = pick()
        t = d.ty(ty)
        x = d.rng.random()
        b = d.payload(t, wild) if x < 0.9 else [d.rng.randrange(256) for _ in range(d.rng.randrange(12))]
        if x > 0.96:
            b = d.rng.choice([[255, 255, 255, 255, 15], [254, 255, 255, 255, 7, 1, 2], [8, 255, 255, 255, 255, 15],
                              [2, 255, 255, 255, 255, 7], [10, 128, 128, 128, 128, 8], [255] * 40, [128] * 40])
        op = dict(c="de", b=b, chunk=d.rng.choice([0, 0, 1, 2]))
        codec(d, ty, op)
        d.reset()


def script_ops(d, depth, top=True):
    r = d.rng
    ops = []
    for _ in range(r.randrange(1, 6)):
        x = r.random()
        if x < 0.3:
            ops.append(["eof"])
        elif x < 0.45:
            ops.append(["exact", r.choice([0, 1, 1, 2, 3, 7])])
        elif x < 0.5:
            ops.append(["all"])
        elif x < 0.58:
            ops.append(["num"])
        elif x < 0.68:
            ops.append(["tag"])
        elif x < 0.76:
            ops.append(["skip", r.choice([0, 2])])
        elif depth > 0:
            ops.append([r.choice(["sub", "nest"]), script_ops(d, depth - 1, False)])
    # A borrowed reader which is given up must not hold what it looked ahead at.
    last = max([i for i, op in enumerate(ops) if op == ["eof"]], default=-1)
    if not top and last >= 0 and not any(takes(op) for op in ops[last + 1:]):
        ops.append(["exact", 1])
    return ops


def takes(op):
    return any(takes(o) for o in op[1]) if op[0] == "sub" else op[0] != "eof" and op[1:] != [0] or op == ["skip", 0]


def scripts(d, n):
    """Readers used directly: looking ahead, borrowing, nesting and skipping."""
    pick = Cycle(d.rng, codec_types(d))
    for _ in range(n):
        b = []
        for _ in range(d.rng.randrange(4)):
            p = d.payload(d.ty(pick()), 0.2)[:40]
            b += d.rng.choice([p, sized(p), tag(d.rng.choice(NUMS), 2) + sized(p), tag(1, 0) + varint(d.rng.getrandbits(9)),
                               sized(sized(p) + [1])])
        op = {"c": "script", "b": b, "ops": script_ops(d, 3), "chunk": d.rng.choice([0, 0, 1, 2, 100, 101])}
        if d.rng.random() < 0.3:
            op["rfail"] = d.rng.randrange(len(b) + 1)
        d.call(op)
        d.dead = False
        d.reset()


def script_tour(d, scripts):
    """All short uses of a reader, of sources where they lead somewhere."""
    for ops in scripts:
        b = d.rng.choice([[10, 2, 8, 1, 7], [2, 10, 0, 3], [2, 8, 1, 3, 0, 10, 1], [3, 2, 10, 1, 8, 0, 0]])
        op = {"c": "script", "b": b, "ops": ops, "chunk": d.rng.choice([0, 0, 1, 101])}
        if d.rng.random() < 0.2:
            op["rfail"] = d.rng.randrange(len(b) + 1)
        d.call(op)
        d.dead = False
    d.reset()


FAILSAFE = ("tuple", "array")


def chunking(d, n):
    """Sources and sinks which deliver and accept little at a time, and break."""
    pick = Cycle(d.rng, codec_types(d))
    for _ in range(n):
        ty = pick()
        t = d.ty(ty)
        v = d.V.value(t, 3)
        if d.rng.random() < 0.5 and not has(d, t, ("hashmap",)):
            op = dict(c="wr", v=v, chunk=d.rng.choice([0, 1, 2, 5, 100, 101, 103]), nested=d.rng.randrange(3), num=d.rng.choice(NUMS))
            if d.rng.random() < 0.5:
                op["wfail"] = d.rng.randrange(0, 1 + len(d.encode(t, v)))
                op["zero"] = d.rng.randrange(2)
        else:
            b = d.payload(t, 0.15)
            op = dict(c="de", b=b, chunk=d.rng.choice([1, 2, 3, 7, 100, 101, 104]))
            if d.rng.random() < 0.5 and d.V.unbox(t)["k"] in ("ref", "vec", "list", "map", "hashmap", "string", "bytes"):
                op["rfail"] = d.rng.randrange(0, len(b) + 1)
        codec(d, ty, op)
        d.reset()


EQUAL = ["Eqs", "EqE", "EqM", "Inner", "Shape", "Root", "Tree", "MTree", "KMap", "List<Shape>", "Map<u16, Point>", "Map<u32, Shape>",
         "Map<u8, Map<u16, u8>>", "Map<u8, Maybe<List<u8>>>", "Maybe<Point>", "GE<Shape>", "Gen<Point>", "Pt", "PEnum", "PWide",
         "Wrap", "Names", "NamesE", "Box<Shape>", "Point", "Strs", "PNew", "List<List<u16>>", "Maybe<Maybe<u8>>", "Chain",
         "Eqs", "EqE", "EqM"]


def comparing(d, n):
    """Values which are equal or nearly so, whatever their history."""
    own = [t for t in d.schema["roots"] if t.startswith("R") and t[1:].isdigit()]
    pick = Cycle(d.rng, own or EQUAL)
    for _ in range(n):
        ty = pick()
        t = d.ty(ty)
        a = d.V.value(t, 3)
        b = a if d.rng.random() < 0.25 else d.V.tweak(t, a)
        if d.rng.random() < 0.15:
            b = d.V.tweak(t, b)
        codec(d, ty, dict(c="eq", a=a, b=b, warm=d.rng.randrange(2), copy=d.rng.randrange(2), cold=d.rng.randrange(2)))
        if ty in d.schema["roots"] and d.rng.random() < 0.5:
            # The same, for states with a history of their own.
            x = d.new(ty, a)
            y = d.new(ty, b)
            for _ in range(d.rng.randrange(3)):
                if not d.dead:
                    d.act(x, quiet=0.8)
            if not d.dead:
                d.call({"c": "eq", "a": x.id, "b": y.id})
        d.reset()


MAPS = ["Map<Key, Shape>", "Map<Key, i64>", "Map<u8, u32>", "Map<u16, Point>", "Map<u32, Shape>", "Map<u8, Map<u16, u8>>"]


def keying(d, n, steps=8):
    """Maps with keys which are rare, at the limits, or impossible."""
    pick = Cycle(d.rng, ["KMap", "Map<Key, Shape>", "Map<Key, i64>", "Map<u8, u32>", "Map<u16, Point>", "Map<u32, Shape>",
                         "Map<u8, Map<u16, u8>>", "Root", "MTree"])
    maps = Cycle(d.rng, MAPS)
    for _ in range(n):
        s = d.new(pick())
        for _ in range(steps):
            if d.dead:
                break
            place = d.pick(s.d, s.val, want=lambda p: d.V.kind(p[2]) == "map")
            op = d.change(place, pk=False, keep=0)
            if op is not None and op["o"] == "ins" and d.V.kind(place[2]) == "map" and place[2]["keys"][0] not in (-255, -65535) \
                    and d.rng.random() < 0.35:
                op["k"] = d.rng.choice([536870912, 536870913, 2 ** 30, 2 ** 31 - 2])
            if op is not None:
                d.apply(s, place[0], op)
            if not d.dead and d.rng.random() < 0.3:
                d.apply(s, place[0], d.quiet((place[0], place[1], place[2], at_place(d, s, place[0]), True)))
        if not d.dead:
            d.full(s)
        if not d.dead:
            for _ in range(3):
                rp(d, s.ty, s.val, misfit_entry(d, s))
        d.reset()
        ty = maps()
        for _ in range(2):
            collecting(d, ty)


def collecting(d, ty):
    """Maps of entries, and with bytes of entries, some of which may repeat or be impossible."""
    t = d.ty(ty)
    r = d.rng
    keys = []
    for _ in range(r.choice([0, 1, 2, 3, 4, 8])):
        keys.append(d.V.key(t))
    local = [k for k in keys if k is not None]
    keys = list(local)
    if r.random() < 0.6:
        odd = [2 ** 29, 2 ** 29 + 1, 2 ** 30, 2 ** 31 - 2]
        if t["keys"][0] not in (-255, -65535):
            for _ in range(r.choice([1, 1, 2])):
                local.insert(r.randrange(len(local) + 1), r.choice(odd))
        keys.insert(r.randrange(len(keys) + 1), r.choice([200, 255, 256, 257, 65535, 65536, 65537, 2 ** 29 - 1] + keys))
    if r.random() < 0.5:
        codec(d, ty, dict(c="of", v=[dict(k=k, v=d.V.value(t["t"], 2)) for k in local]))
    else:
        b = []
        for k in keys:
            b += d.encode(dict(t, keys=[-(2 ** 29 - 1)]), [dict(k=k, v=d.V.value(t["t"], 2))])
        codec(d, ty, dict(c="mrg", v=d.V.value(t, 2), b=b, keyed=1, nested=0, warm=r.randrange(2)))


def at_place(d, s, at):
    for p in d.V.places(s.d, s.val):
        if p[0] == tuple(at):
            return p[3]
    return []


def siding(d, n, steps=8):
    """While a value is built in a callback, another state changes; callbacks panic."""
    pick = Cycle(d.rng, rich(d))
    for _ in range(n):
        s = d.new(pick())
        others = []
        if not d.dead and d.rng.random() < 0.6:
            others.append(d.new(d.rng.choice(["Inner", "List<Shape>", "Map<u16, Point>"]), share=s.id))
            s.whole = False
        if not d.dead:
            others.append(d.new(d.rng.choice(["Inner", "Point", "List<Point>", "Tree"])))
        for _ in range(steps):
            if d.dead:
                break
            place = d.pick(s.d, s.val)
            op = d.change(place, pk=False, keep=0)
            if op is None:
                continue
            if op["o"] in ("push", "ins", "set", "vset") and not unsided(d, place, op):
                x = d.rng.random()
                op.pop("bs", None)
                if x < 0.75:
                    o = d.rng.choice(others)
                    pl = d.pick(o.d, o.val, live_only=True)
                    so = d.change(pl, pk=False, keep=0)
                    if so is not None and unsided(d, pl, so) is False or so is not None and so["o"] in ("pop", "swap", "rem"):
                        so["nv"] = 0
                        op["w"] = 3
                        op["side"] = dict(s=o.id, at=list(pl[0]), op=so)
                else:
                    op["w"] = 4
            rep = d.apply(s, place[0], op)
            if rep is not None and "side" in rep:
                for o in others:
                    if o.id == op["side"]["s"]:
                        o.val = rep["side"]["obs"]
                        o.log += rep["side"]["log"]
        for o in [s] + others:
            if not d.dead and (o is s and s.whole or o is others[-1]):
                d.full(o)
        d.reset()


def unsided(d, place, op):
    """Is the changed field one without a callback?"""
    at, path, t, v, live = place
    if op["o"] == "set":
        return bool(d.V.fields(t)[op["f"]]["ns"])
    if op["o"] == "vset":
        return bool(d.V.fields(t, op["t"])[op["f"]]["ns"])
    return False


# ------------------------------------------------------------------ loggers

ENTRY_TYPES = ["u8", "u64", "i32", "Point", "Shape", "List<Point>", "String", "Map<u16, Point>", "Pt", "Inner"]


def some_entry(d):
    r = d.rng
    k = r.choice(["update", "update", "child", "push", "push", "pop", "remove"])
    e = dict(k=k)
    if k == "remove":
        e["key"] = d.V.int("u32")
    elif k != "pop":
        e["ty"] = r.choice(ENTRY_TYPES)
        e["v"] = d.V.value(d.ty(e["ty"]), 2)
    if k == "child":
        e["tag"] = r.choice([0, 1, 127, 128, 536870911, 2 ** 31 - 2])
    return e


def some_nav(d, alone=True, deep=0.01):
    """Steps from a runtime to another."""
    r = d.rng
    nav, depth = [], 0
    if r.random() < deep:
        return [["n", r.randrange(200)] for _ in range(r.choice([33, 129, 257, 300]))]
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        x = r.random()
        n = r.choice([0, 1, 2, 3, 127, 128, 300, 65535, 2 ** 29 - 1, 2 ** 31 - 2])
        if depth and x < 0.2:
            nav.append(["p"])
            depth -= 1
        elif depth and x < 0.4:
            nav.append(["s", n])
        elif alone and x > 0.96:
            nav.append(["d"])
        else:
            nav.append(["n", n])
            depth += 1
    return nav


def lg_step(d, name):
    r = d.rng
    op = dict(o=name)
    if name == "log":
        op.update(nav=some_nav(d), e=some_entry(d), via=r.randrange(4))
        if op["via"] == 3:
            op["nav"] = some_nav(d, False)
    elif name == "multi":
        op["via"] = r.randrange(3)
        op["nav"] = some_nav(d) if op["via"] == 0 else []
        op["es"] = [dict(nav=some_nav(d), e=some_entry(d)) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
    if name in ("log", "multi") and r.random() < 0.3:
        # For loggers which may.
        op["refuse"] = r.randrange(3)
    elif name in ("pause", "unpause"):
        op["via"] = r.randrange(3)
        op["nav"] = some_nav(d) if op["via"] < 2 else []
    elif name == "nav":
        op["nav"] = some_nav(d, deep=0.08)
    held = dict(held=1) if r.random() < 0.03 else {}
    if r.random() < 0.1 and not held:
        op["th"] = 1
    d.call({"c": "lg", "op": op, **held})


BUFFER_OPS = ["bytes", "pluck", "pluck_bytes", "clear"]


def lg_open(d, kind, **more):
    d.call({"c": "lg", "op": dict(o="open", kind=kind, boxed=d.rng.randrange(2), chunk=d.rng.choice([0, 0, 1, 3, 100, 102]), **more)})


def logging(d, n, steps=16):
    """Loggers used directly, through runtimes anywhere."""
    pick = Cycle(d.rng, ["buffer"] * 4 + ["writer"] * 2 + ["writer, breaking", "batches", "noop", "picky", "picky"])
    for _ in range(n):
        kind, _, breaking = pick().partition(", ")
        more = dict(room=d.rng.randrange(900)) if breaking else {}
        lg_open(d, kind, **more)
        names = ["log"] * 5 + ["multi"] * 2 + ["pause", "unpause", "unpause", "nav", "nav", "replace"] + (BUFFER_OPS if kind == "buffer" else [])
        for _ in range(steps):
            if not d.dead:
                lg_step(d, d.rng.choice(names))
        d.reset()


def lg_tour(d, behaviours, kind):
    """All behaviours of the model, up to some length."""
    for acts in behaviours:
        lg_open(d, kind)
        for name in acts:
            if d.dead:
                break
            if name == "multi":
                d.call({"c": "lg", "op": dict(o="multi", via=d.rng.randrange(3), nav=[], es=[dict(nav=[], e=some_entry(d)) for _ in range(2)])})
            elif name == "refuse":
                d.call({"c": "lg", "op": dict(o="multi", via=d.rng.randrange(3), nav=[], refuse=1, es=[dict(nav=[], e=some_entry(d)) for _ in range(3)])})
            elif name == "log":
                d.call({"c": "lg", "op": dict(o="log", via=d.rng.randrange(4), nav=some_nav(d, False), e=some_entry(d))})
            elif name in ("pause", "unpause"):
                d.call({"c": "lg", "op": dict(o=name, via=d.rng.randrange(3), nav=[])})
            else:
                lg_step(d, name)
        d.reset()


def entry_values(d, n):
    """Log entries are values like any other."""
    d.only = ["LogEntry"]
    serializing(d, n)
    round_trips(d, n)
    merging(d, n)
    reading(d, n)
    d.only = None


# ------------------------------------------------------------------ twins

def twins(d, n):
    """The same commands to a type and to its twin, which differs in attributes that only tune the code."""
    own = [p for p in sorted(d.schema["twins"].items()) if p[1][0] == "R" and p[1][1:].isdigit()]
    pairs = Cycle(d.rng, own or sorted(d.schema["twins"].items()))
    for _ in range(n):
        twin, base = pairs()
        state = base in d.schema["roots"]
        d.only = [base]
        what = d.rng.choice(["history", "history", "cutting", "misfits", "nesting", "refusing", "pausing",
                             "merging", "reading", "serializing", "comparing", "siding"]) if state else \
            d.rng.choice(["merging", "merging", "serializing", "round_trips", "reading", "chunking"])
        start = len(d.impl.lines)
        d.foreign = set_aside(d, twin) if d.rng.random() < 0.6 else None
        globals()[what](d, 4 if what in ("merging", "reading") else 1)
        d.only = d.foreign = None
        first = d.impl.lines[start:]
        second = []
        for c, r in first:
            t = dict(c)
            if t.get("ty") == base:
                t["ty"] = twin
            try:
                second.append((t, d.impl.raw(t) if c["c"] not in ("sync",) else r))
            except ToolError as e:
                if "pocket type" not in str(e):
                    raise
                break   # A value of the twin doesn't fit where one of the other type did.
        for (c, r), (t, q) in zip(first, second):
            d.impl.note(t, q)
            if c["c"] not in ("reset", "sync", "drop"):
                d.impl.note({"c": "twin", "of": c["c"]}, {"a": tame(r), "b": tame(q)})
        if len(second) < len(first):
            d.reset()


def set_aside(d, twin):
    """The tags which no field of a twin, or of what it is made of, may have."""
    return [t for n, ts in sorted(d.schema["reserved"].items()) if n in twin for t in ts] or None


def tame(r):
    return {k: (tame(v) if isinstance(v, dict) else v) for k, v in r.items() if k not in ("peak", "why", "panic")}


# ------------------------------------------------------------------ threads

WIDE = ["Root", "Inner", "Tree", "MTree", "List<Shape>", "List<List<u16>>", "Map<u32, Shape>", "List<Map<u8, Point>>",
        "Map<u8, Map<u16, u8>>", "List<Point>", "Map<u16, Point>", "Map<u16, Box<Shape>>", "List<Maybe<Shape>>", "MD", "KMap",
        "Gen<Point>", "Gen<Shape>", "GE<Shape>"]


def apart(d, s, n):
    """Places none of which is within another."""
    ps = [p for p in d.V.places(s.d, s.val) if p[4] and p[0]]
    d.rng.shuffle(ps)
    ps.sort(key=lambda p: -len(p[0]) if d.rng.random() < 0.5 else 0)
    got = []
    for p in ps:
        if all(p[0][:len(q[0])] != q[0] and q[0][:len(p[0])] != p[0] for q in got):
            got.append(p)
        if len(got) == n:
            break
    return got


def script(d, place, n):
    ops = []
    for _ in range(n):
        op = d.change(place, pk=False, keep=0)
        if op is None:
            op = d.quiet(place)
            while op["o"] in ("shake", "relink"):
                op = d.quiet(place)
        op["nv"] = d.rng.randrange(4)
        if op["o"] in ("push", "ins", "set", "vset") and not unsided(d, place, op):
            if d.rng.random() < 0.6:
                op.pop("bs", None)
                op["w"] = 6
                op["gate"] = d.rng.choice([1, 2])
        ops.append(op)
    return ops


def logged(s, parts, val):
    for b in parts:
        s.log += b
        for f in s.followers.values():
            f.queue += b
    s.val = val


def threads(d, n, rounds=3, length=3):
    """Threads change disjoint parts of a state, in a random schedule."""
    pick = Cycle(d.rng, rich(d) if own(d) else WIDE)
    for _ in range(n):
        s = d.new(pick())
        f = None
        if not d.dead and d.rng.random() < 0.5:
            f = d.snap(s)
        for _ in range(rounds):
            if d.dead:
                break
            places = apart(d, s, d.rng.choice([2, 2, 3]))
            if len(places) < 2:
                d.act(s)
                continue
            th = [dict(at=list(p[0]), ops=script(d, p, d.rng.randrange(1, length + 1))) for p in places]
            sched = [i + 1 for i, t in enumerate(th) for op in t["ops"] for _ in range(2 if "gate" in op else 1)]
            d.rng.shuffle(sched)
            conc(d, s, th, sched)
        finish(d, s, f)


def finish(d, s, f):
    if f and not d.dead:
        d.sync(s, f)
    if not d.dead:
        d.full(s)
    d.reset()


def conc(d, s, th, sched):
    r = d.call({"c": "conc", "s": s.id, "th": th, "sched": sched})
    if not d.dead:
        logged(s, [x["log"] for x in r["steps"]], r["obs"])


def conc_tour(d, ty, schedules, n):
    """Schedules of the model."""
    if n and n < len(schedules):
        schedules = d.rng.sample(schedules, n)
    for x in schedules:
        s = d.new(ty, x["v"])
        if not d.dead:
            f = d.snap(s) if d.rng.random() < 0.3 else None
            conc(d, s, x["th"], x["sched"])
            finish(d, s, f)
        d.reset()


def hammer(d, n, length=40):
    """Threads run freely, while the log is taken out."""
    pick = Cycle(d.rng, rich(d) if own(d) else WIDE)
    for _ in range(n):
        s = d.new(pick())
        for _ in range(20):
            if d.dead or len(apart(d, s, 3)) >= 3:
                break
            d.act(s)
        if not d.dead:
            places = apart(d, s, d.rng.choice([2, 3, 4]))
            if len(places) > 1:
                f = d.snap(s) if d.rng.random() < 0.5 else None
                th = [dict(at=list(p[0]), ops=script(d, p, length)) for p in places]
                if not d.dead:
                    r = d.call({"c": "hammer", "s": s.id, "th": th})
                if not d.dead:
                    logged(s, r["chunks"], r["obs"])
                    if len(s.log) < 20000:
                        finish(d, s, f)
        d.reset()


# ------------------------------------------------------------ clients

def client_history(d, n):
    history(d, n, types=[t for t in d.schema["roots"] if t in d.clients.types])


def listening(d, n):
    """Clients which listen to all changes."""
    d.watching = True
    client_history(d, n)


def tables(d, n):
    """Collections of numbers, whose entries change often, and clients which listen."""
    d.watching = d.churn = True
    flat = [t for t in d.schema["roots"] if t in d.clients.types and d.V.kind(d.ty(t)) in ("list", "map")
            and d.V.kind(d.V.unbox(d.ty(t))["t"]) == "prim"]
    history(d, n, types=flat)
    d.watching = d.churn = False


def klasses(d, n):
    """The classes of all types."""
    for u in range(4):
        for ty in d.clients.types:
            t = d.ty(ty)
            while t["k"] == "box":
                t = t["t"]
            if t["k"] != "ref":
                continue
            tags = {0, 1, 300}
            for v in d.schema["defs"][t["n"]]["variants"]:
                for x in [v] + v["fields"]:
                    tags |= {max(x["tag"], 0), max(x["tag"], 0) + 1}
            d.client({"c": "klass", "ty": ty, "probes": sorted(tags), "u": u})
            d.reset()


def client_reading(d, n):
    for k in range(n):
        ty = d.rng.choice(d.clients.types)
        v = d.V.value(d.ty(ty), 3) if d.rng.random() < 0.95 else d.V.default(d.ty(ty))
        d.client({"c": "cread", "ty": ty, "v": v, "u": d.rng.randrange(4)})
        if k % 10 == 9:
            d.reset()


def newer(d, n):
    """Clients of servers which have another version of the schema."""
    types = [t for t in d.clients.types if "<String>" not in t]
    roots = [t for t in d.schema["roots"] if t in types]
    pick = Cycle(d.rng, roots + [t for t in rich(d) if t in roots])
    d.newer = 0.6
    for k in range(n):
        for _ in range(6):
            ty = d.rng.choice(types)
            b = d.encode(d.ty(ty), d.V.value(d.ty(ty), 3))
            d.client({"c": "cread", "ty": ty, "b": b, "u": d.rng.randrange(4)})
        s = d.new(pick())
        f = None if d.dead else d.csnap(s)
        if f:
            for _ in range(d.rng.randrange(8, 20)):
                d.craft(f)
        d.reset()
    d.newer = 0


def emitting(d, n):
    """The generator, for all types and many settings."""
    types = [t for t in d.clients.types]
    names = sorted({x[k] for x in d.schema["defs"].values() for k in ("cs", "rust")})
    for k in range(n):
        ty = types[k] if k < len(types) else d.rng.choice(types)
        skip = d.rng.sample(names, d.rng.choice([0, 0, 1, 3, 12]))
        d.client({"c": "emit", "ty": ty, "set": {
            "names": d.rng.choice(["rust", "cs"]), "skip_builtins": d.rng.randrange(2), "skip": skip, "again": d.rng.randrange(2)}})
        if k % 10 == 9:
            d.reset()


def unwritable(d, n):
    """The generator, where some of the files cannot be written."""
    names = sorted({x[k] for x in d.schema["defs"].values() for k in ("cs", "rust")})
    for k in range(n):
        how = d.rng.choice(["full", "full", "full", "dir", "gone"])
        d.client({"c": "emit", "ty": d.rng.choice(d.clients.types), "set": {
            "names": d.rng.choice(["rust", "cs"]), "skip_builtins": d.rng.randrange(2),
            "skip": d.rng.sample(names, d.rng.choice([0, 0, 3, 12])),
            "bad": d.rng.sample(names, d.rng.choice([1, 3, len(names) // 2])), "how": how}})
        if k % 10 == 9:
            d.reset()
