"""Runs the check of a property, and reports."""
import json, os, random, re, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import client, drive, families, impl, items, models, plan, tlc

ROOT = impl.ROOT
EVIDENCE = ROOT / "evidence"
KNOWN = ROOT / "KNOWN-FINDINGS"
ASSUMPTIONS = [
    "values are assigned through generated setters and collection operations only (direct assignment through mutable references is not tracked, by design)",
    "nesting depth of inputs is bounded",
    "TLC and the Rust toolchain are correct",
]
CLIENT_ASSUMPTIONS = [
    "C# means what the interpreter of tools/csharp.py makes of it: no C# compiler or runtime is in the sandbox",
    "names of a schema do not clash with those of members the generator adds",
]


def known_findings(pid):
    """Lines 'known: property=C05 what=<what> | <description>'."""
    res = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"known: property=(\w+) what=(.*?) \| (.*)", line)
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.plan = plan.PLAN[pid]
        impl.BUILD.mkdir(exist_ok=True)
        self.work = tempfile.mkdtemp(prefix="run", dir=impl.BUILD)
        self.designs = []
        self.found = []
        self.lines = self.traces = self.states = 0
        self.counts = {}
        self.samples = []
        self.deep = tier == "thorough"
        self.models = {}
        self.undecided = []
        self.astray = []

    def clean(self):
        shutil.rmtree(self.work, ignore_errors=True)

    # ------------------------------------------------------------ parts
    def explored(self, jobs):
        """Enumerates small types, several at a time."""
        with ThreadPoolExecutor(4) as pool:
            for job, (edges, entries, info) in zip(jobs, pool.map(
                    lambda j: models.explore(self.built, self.work, j[0], j[1]), jobs)):
                self.models[job] = (edges, entries)
                self.designs.append(info)

    def drive(self, built, fams, seed, scale=1.0):
        i = impl.Impl(built)
        side = client.Side(built, i) if self.plan.get("clients") else None
        try:
            for name, n in fams:
                d = drive.Driver(i, "%s/%s/%d" % (self.pid, name, seed))
                d.clients = side
                before = i.steps
                try:
                    self.family(d, name, max(1, int(n * scale)))
                except models.DesignError:
                    raise
                except Exception:
                    # An implementation which does not do what it should can lead the driver astray: what it did
                    # until then is judged first.
                    self.astray.append("%s: %s" % (name, traceback.format_exc()))
                    i.reset()
                self.counts[name] = self.counts.get(name, 0) + i.steps - before
        finally:
            i.stop()
            self.undecided += side.undecided if side else []
        return i.lines

    def family(self, d, name, n):
        if name in plan.TOURS:
            jobs = [j for j in plan.TOURS[name] + (plan.DEEP if self.deep else []) if j in self.models]
            for ty, bound in jobs:
                edges, entries = self.models[ty, bound]
                if name == "misfit_tour":
                    models.misfit_tour(d, ty, edges, entries, n // len(jobs) if not self.deep else 4000)
                else:
                    models.tour(d, ty, edges, n // len(jobs) if not self.deep else None, fail=name == "refused_tour")
        elif name == "lg_tour":
            for kind, length in plan.LOGGERS[self.deep]:
                acts, info = models.logger_behaviours(self.built, self.work, kind, length)
                self.designs.append(info)
                families.lg_tour(d, acts, kind)
        elif name == "script_tour":
            found, info = models.reader_scripts(self.built, self.work, 2)
            self.designs.append(info)
            families.script_tour(d, found if self.deep else d.rng.sample(found, min(n, len(found))))
        elif name == "conc_tour":
            for ty, programs, length, threads in plan.CONC[self.deep]:
                found, info = models.schedules(self.built, self.work, ty, programs, length, threads, self.seed)
                self.designs.append(info)
                families.conc_tour(d, ty, found, n)
        elif name == "behave":
            for k, (ty, bound) in enumerate(plan.BEHAVE[:3] if not self.deep else plan.BEHAVE):
                bs, info = self.behaviours[k]
                models.behave(d, ty, bs)
        else:
            getattr(families, name)(d, n)

    def validate(self, lines, built, module="Trace"):
        found, info = tlc.validate(lines, built.schema_path, self.work, module=module)
        self.lines += info["lines"]
        self.states += info["lines"] + info["chunks"]
        self.traces += sum(1 for c, _ in lines if c["c"] == "reset")
        if not self.samples:
            self.samples = [{"c": c, "r": r} for c, r in random.Random(self.seed).sample(lines, min(4, len(lines)))]
        self.found += found
        self.astray += info["errors"]

    # ------------------------------------------------------------ the whole
    def check(self):
        p = self.plan
        if "items" in p:
            return self.items(p["items"])
        fams = list(p.get("fam", []))
        try:
            self.built = impl.build()
        except impl.BuildError as e:
            return self.unbuilt(e)
        tours = []
        for name, _ in fams:
            for j in plan.TOURS.get(name, []):
                if j not in tours:
                    tours.append(j)
        if self.deep and tours:
            tours += [j for j in plan.DEEP if j not in tours]
        repl = []
        if p.get("repl"):
            repl = plan.REPL + (plan.REPL_DEEP if self.deep else [])
        pool = ThreadPoolExecutor(3)
        later = [pool.submit(models.run, "Repl", self.built, self.work, 2 if not self.deep else 4,
                             type=ty, maxlen=ml, print=0, maxlog=log, followers=f) for ty, ml, log, f in repl]
        if p.get("behave"):
            n = p["behave"] * (8 if self.deep else 1)
            types = plan.BEHAVE if self.deep else plan.BEHAVE[:3]
            self.behaviours = list(ThreadPoolExecutor(4).map(
                lambda t: models.behaviours(self.built, self.work, t[0], t[1], max(1, n // len(types)), 22, self.seed), types))
            self.designs += [info for _, info in self.behaviours]
            fams.append(("behave", n))
        self.explored(tours)
        self.validate(self.drive(self.built, fams, self.seed), self.built)
        if self.deep:
            self.dig(fams)
        for f in later:
            self.designs.append(f.result()[1])
        pool.shutdown()
        return self.report()

    def items(self, n):
        """Declarations: all small changes to some, and random ones."""
        self.built = impl.Built(None, "/dev/null", None)
        xs = []
        for what in plan.ITEMS:
            out, info = models.run("DeriveMC", self.built, self.work, type=what)
            self.designs.append(info)
            xs += list(models.printed(out, "ITEM"))
            self.counts[what] = len(xs) - sum(self.counts.values())
        self.counts["random"] = n
        self.validate(items.judged(self.work, xs + items.items(self.seed, n)), self.built, "Static")
        budget, k = float(os.environ.get("VERIF_BUDGET", "600")), 0
        while self.deep and time.time() - self.t0 < budget and not self.violations()[0]:
            k += 1
            self.counts["random"] += 4 * n
            self.validate(items.judged(self.work, items.items(self.seed * 1000 + k, 4 * n)), self.built, "Static")
        return self.report()

    def dig(self, fams):
        """More of the same, with other seeds and other schemas, until the time is up."""
        budget = float(os.environ.get("VERIF_BUDGET", "600"))
        rounds = [(n, c) for n, c in fams if n not in plan.TOURS and n not in ("behave", "orphan", "lg_tour", "script_tour")]
        k = 0
        while time.time() - self.t0 < budget and not self.violations()[0]:
            k += 1
            seed = self.seed * 1000 + k
            built = self.built
            if k % 2 == 0:
                try:
                    built = impl.build(seed, 8, any(f == "twins" for f, _ in self.plan["fam"]))
                except impl.BuildError as e:
                    raise
            self.validate(self.drive(built, rounds, seed, 2.0), built)

    def unbuilt(self, e):
        raise e

    def violations(self):
        known = known_findings(self.pid)
        mine, listed = [], {}
        for chunk, props, what, text in self.found:
            if self.pid not in props:
                continue
            hit = [desc for w, desc in known if w == what]
            if hit:
                listed[hit[0]] = listed.get(hit[0], 0) + 1
            else:
                mine.append((chunk, props, what, text))
        return mine, listed

    def report(self):
        mine, listed = self.violations()
        for desc, n in listed.items():
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (self.pid, desc, n))
        others = {}
        for _, props, what, _ in self.found:
            if self.pid not in props:
                others[what] = others.get(what, 0) + 1
        if self.astray and not mine and not others:
            raise impl.ToolError(self.astray[0])
        if self.astray:
            print("note: the check went astray %d times: %s" % (len(self.astray), self.astray[0].strip().splitlines()[-1][:300]))
        if others:
            print("note: differences which concern other properties: %s" % others)
            if os.environ.get("VERIF_OTHERS"):
                for what in others:
                    print("  " + next(t for _, _, w, t in self.found if w == what)[:1500].replace("\n", "\n  "))
        for text in self.undecided[:5]:
            print("note: UNDECIDED, as the client cannot be interpreted: %s" % text[:300])
        shown = set()
        for chunk, props, what, text in mine:
            if what in shown:
                continue
            shown.add(what)
            print("VIOLATION property=%s replay=%s" % (self.pid, self.save(chunk, what)))
            print("  %s" % text[:1500].replace("\n", "\n  "))
        self.evidence(len(mine))
        print("%s %s: %d violations, %d lines in %d traces, %.1f s" % (
            self.pid, self.tier, len(mine), self.lines, self.traces, time.time() - self.t0))
        return 1 if mine else 0

    def save(self, chunk, what):
        """Keeps the part of the trace since its last reset; of twins, both."""
        resets = [0] + [i + 1 for i, line in enumerate(chunk[:-1]) if '"c":"reset"' in line]
        start = resets[-2 if '"c":"twin"' in chunk[-1] and len(resets) > 1 else -1]
        out = impl.BUILD / "replay"
        out.mkdir(exist_ok=True)
        path = out / ("%s-%s-%d.ndjson" % (self.pid, re.sub(r"\W+", "-", what)[:40], os.getpid()))
        path.write_text("\n".join(chunk[start:]) + "\n")
        return path

    def evidence(self, violations):
        EVIDENCE.mkdir(exist_ok=True)
        states = self.states + sum(d["states"] for d in self.designs)
        transitions = self.lines + sum(d["transitions"] for d in self.designs)
        data = dict(
            property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
            coverage=dict(
                states=states, transitions=transitions, traces_validated_against_impl=self.traces,
                samples=self.samples, trace_lines=self.lines, commands_per_family=self.counts, design_models=self.designs,
                explanation="TLC checked the design models named here, and checked every line of every recorded trace of the "
                            "implementation against the specification (spec/Trace.tla)."),
            assumptions=ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=violations)
        if self.plan.get("clients") is True:
            data["coverage"]["undecided"] = len(self.undecided)
            data["assumptions"] = ASSUMPTIONS + CLIENT_ASSUMPTIONS
        (EVIDENCE / ("%s.json" % self.pid)).write_text(json.dumps(data, indent=1))

    # ------------------------------------------------------------ replaying
    def replay(self, path):
        if "items" in self.plan:
            self.built = impl.Built(None, "/dev/null", None)
            xs = [json.loads(line)["c"] for line in Path(path).read_text().splitlines()]
            self.validate(items.judged(self.work, [x["x"] for x in xs if x["c"] == "item"]), self.built, "Static")
            return self.report()
        self.built = impl.build()
        i = impl.Impl(self.built)
        side = client.Side(self.built, i)
        segments = [[]]
        try:
            for line in Path(path).read_text().splitlines():
                c = json.loads(line)
                if c["c"]["c"] == "twin":
                    a, b = segments[-2][len(segments[-1]) - 1], segments[-1][-1]
                    i.note(c["c"], {"a": families.tame(a), "b": families.tame(b)})
                    continue
                if c["c"]["c"] == "sync":
                    prev = [r for _, r in i.lines[-2:]]
                    i.note(c["c"], {"ba": prev[0].get("b"), "bb": prev[1].get("b")})
                elif c["c"]["c"] == "drop":
                    side.drop(c["c"]["s"])
                    i.note(c["c"], i.raw(c["c"]))
                elif c["c"]["c"] == "csync":
                    i.note(c["c"], {})
                elif hasattr(side, c["c"]["c"]):
                    i.note(c["c"], side.do(c["c"]))
                else:
                    i(c["c"])
                segments[-1].append(i.lines[-1][1])
                if c["c"]["c"] == "reset":
                    segments.append([])
        finally:
            i.stop()
        self.validate(i.lines, self.built)
        return self.report()
