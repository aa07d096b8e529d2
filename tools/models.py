"""The models of the design: checks them, and turns their behaviours into inputs of the implementation."""
import json, re, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from tlc import java, SPEC, TlcError
from wirefmt import boundaries


class DesignError(Exception):
    pass


def run(module, built, work, workers=2, heap="3g", timeout=800, config=None, extra=(), **env):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    env = {k.upper(): str(v) for k, v in env.items()}
    env["SCHEMA"] = str(built.schema_path)
    t = time.time()
    try:
        r = java(["-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", config or module + ".cfg"]
                 + list(extra) + [module + ".tla"], SPEC, env, timeout, heap=heap)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if r.returncode != 0 or "No error has been found" not in r.stdout:
        raise DesignError("%s %s: exit %d\n%s" % (module, env, r.returncode, r.stdout[-3000:]))
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", r.stdout)[-1]
    n = [int(x.replace(",", "")) for x in m]
    return r.stdout, dict(model=module, env={k: v for k, v in env.items() if k != "SCHEMA"}, transitions=n[0], states=n[1],
                          wall_s=round(time.time() - t, 1))


def printed(out, name):
    for m in re.finditer(r'^<<\s*"%s",\s+(".*")\s*>>$' % name, out, re.M):
        yield json.loads(json.loads(m.group(1)))


def explore(built, work, ty, maxlen, workers=2, **kw):
    out, info = run("Explore", built, work, workers, type=ty, maxlen=maxlen, print=1, **kw)
    edges = list(printed(out, "EDGE"))
    entries = next(printed(out, "ENTRIES"), [])
    return edges, entries, info


def behaviours(built, work, ty, maxlen, rounds, length, seed, followers=2):
    out, info = run("Behave", built, work, 1, type=ty, maxlen=maxlen, print=0, maxlog=1000, followers=followers,
                    rounds=rounds, length=length, extra=["-seed", str(seed)])
    res = []
    for m in re.finditer(r'^<<\s*"(BEGIN|ACT)",\s+(.*?)\s*>>$', out, re.M):
        if m.group(1) == "BEGIN":
            res.append([])
        else:
            res[-1].append(json.loads(json.loads(m.group(2))))
    return res, info


def logger_behaviours(built, work, kind, length):
    out, info = run("LoggersMC", built, work, 2, type=kind, maxlen=length)
    return list(printed(out, "ACTS")), info


def reader_scripts(built, work, length):
    out, info = run("ReadingMC", built, work, 6, maxlen=length)
    return list(printed(out, "SCRIPT")), info


def schedules(built, work, ty, programs, length, threads, seed, design="detached"):
    out, info = run("Conc", built, work, 2, type=ty, maxlen=2, print=1, rounds=programs, length=length, followers=threads,
                    design=design, extra=["-seed", str(seed)])
    return list(printed(out, "SCHED")), info


# ------------------------------------------------------------------ driving

def key(v):
    return json.dumps(v, sort_keys=True, separators=(",", ":"))


def decorate(d, op, v_ty=None):
    """Equivalent ways to perform an operation."""
    r = d.rng
    op = dict(op)
    if op["o"] in ("push", "ins", "set", "vset"):
        x = r.randrange(6)
        if x < 2:
            op["bs"] = r.randrange(3)
        elif x < 4:
            op["w"] = 1
        elif x < 5:
            op["w"], op["bs"] = 2, r.randrange(3)
        else:
            op["w"] = 5
    return op


def is_unsided(d, ty, v, at, op):
    for p in d.V.places(ty, v):
        if p[0] == tuple(at):
            t = p[2]
            if op["o"] == "set":
                return d.V.fields(t)[op["f"]]["ns"]
            if op["o"] == "vset":
                return d.V.fields(t, op["t"])[op["f"]]["ns"]
    return False


def tour(d, ty, edges, limit=None, segment=40, fail=False):
    """Takes every transition of a state graph at least once (or about `limit` of them)."""
    graph, todo, n = {}, {}, 0
    for e in edges:
        a = key(e["a"])
        graph.setdefault(a, []).append(e)
    states = list(graph)
    d.rng.shuffle(states)
    keep = 1.0 if not limit or limit >= len(edges) else limit / len(edges)
    for a in states:
        es = [e for e in graph[a] if keep == 1.0 or d.rng.random() < keep]
        d.rng.shuffle(es)
        if es:
            todo[a] = es
    covered = 0
    desc = d.ty(ty)
    while todo:
        start = next(iter(todo))
        s = d.new(ty, graph[start][0]["a"])
        if d.dead:
            todo.pop(start)
            d.reset()
            continue
        f = d.snap(s) if d.clients or d.rng.random() < 0.5 else None
        for _ in range(segment):
            if d.dead:
                break
            here = key(s.val)
            if here not in graph:
                break
            if here in todo:
                e = todo[here].pop()
                if not todo[here]:
                    del todo[here]
                covered += 1
            else:
                # Somewhere along: a step towards something new, if one is near.
                near = [e for e in graph[here] if key(e["b"]) in todo]
                if near:
                    e = d.rng.choice(near)
                else:
                    moves = [e for e in graph[here] if key(e["b"]) != here]
                    if not moves or d.rng.random() < 0.3:
                        break
                    e = d.rng.choice(moves)
            op = dict(e["op"])
            if not is_unsided(d, desc, s.val, e["at"], op):
                op = decorate(d, op)
            more = {}
            if fail and d.rng.random() < 0.5:
                more = dict(fail=d.rng.choice([0, 0, 1]), atomic=1)
            d.apply(s, e["at"], op, **more)
            if f and f.client and not d.dead and not f.stale and d.rng.random() < 0.4:
                d.sync(s, f)
        if f and not d.dead and d.rng.random() < 0.7:
            d.sync(s, f)
        if not d.dead and not d.clients:
            d.full(s)
        d.reset()
    return covered


def misfit_tour(d, ty, edges, entries, limit=None):
    """Every entry at every state (or about `limit` of them)."""
    states = {}
    for e in edges:
        states[key(e["a"])] = e["a"]
    pairs = [(v, b) for v in states.values() for b in entries]
    if limit and limit < len(pairs):
        pairs = d.rng.sample(pairs, limit)
    for i, (v, b) in enumerate(pairs):
        d.call(dict(c="rp", ty=ty, v=v, b=b, how=d.rng.randrange(5)))
        d.dead = False
        if i % 20 == 19:
            d.reset()
    d.reset()
    return len(pairs)


def behave(d, ty, behaviours_):
    """Executes behaviours of the replication model."""
    desc = d.ty(ty)
    for acts in behaviours_:
        s = d.new(ty, d.V.default(desc))
        fol = {}
        depth = 0
        for a in acts:
            if d.dead:
                break
            k = a["a"]
            f = fol.get(a.get("f"))
            if k == "op":
                op = dict(a["op"])
                if not is_unsided(d, desc, s.val, a["at"], op):
                    op = decorate(d, op)
                more = dict(fail=a["fail"], atomic=1) if a["fail"] >= 0 else {}
                before = key(s.val)
                d.apply(s, a["at"], op, **more)
                if depth and not d.dead and key(s.val) != before:
                    s.whole = False
                    for g in fol.values():
                        g.stale = True
            elif k in ("pause", "unpause"):
                r = d.apply(s, [], dict(o=k))
                depth = depth + 1 if k == "pause" else max(0, depth - 1)
            elif k == "snap":
                if f:
                    s.followers.pop(f.sess.id, None)
                    d.drop(f.sess.id, f.client)
                fol.pop(a["f"], None)
                g = d.snap(s)
                if g:
                    fol[a["f"]] = g
            elif k == "deliver" and f:
                d.deliver(f, a["n"])
                if not d.dead and not f.queue and not f.stale:
                    d.sync(s, f)
            elif k == "cut" and f:
                # What was not applied is delivered again later.
                n = a["n"]
                done = max(x for x in boundaries(f.queue) if x <= n)
                if f.client:
                    d.deliver(f, boundaries(f.queue).index(done))
                    continue
                r = d.call({"c": "replay", "s": f.sess.id, "b": f.queue[:n], "q": 1, "done": done,
                            "chunk": d.rng.choice([0, 1, 3])})
                if not d.dead:
                    f.sess.val = r["obs"]
                    f.queue = f.queue[done:]
            elif k == "failover" and f:
                if f.stale or f.queue or f.client:
                    break
                d.full(s)
                if d.dead:
                    break
                d.untracked_except(s, f)
                s, fol, depth = f.sess, {}, 0
                s.base, s.log, s.whole = s.val, [], True
        if not d.dead:
            d.full(s)
        d.reset()
