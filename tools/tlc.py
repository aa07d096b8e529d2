"""Runs TLC: on recorded traces, and on the models of the design."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
TLA = "/opt/veriftools/tla"
CP = "%s/tla2tools.jar:%s/CommunityModules-deps.jar" % (TLA, TLA)
JOBS = min(8, os.cpu_count() or 1)


class TlcError(Exception):
    pass


def java(args, cwd, env=None, timeout=800, heap="1500m", gc="-XX:+UseSerialGC", stack="400m"):
    cmd = ["java", gc, "-Xmx" + heap, "-Xss" + stack, "-XX:TieredStopAtLevel=4", "-cp", CP, "tlc2.TLC"] + args
    return subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def mismatches(out):
    """The printed differences: (line, properties, what, text)."""
    res = []
    for m in re.finditer(r'^<<\s*"MISMATCH",\s*(\d+),\s*\{(.*?)\},\s*"(.*?)"', out, re.M | re.S):
        end = out.find("\n<<", m.end())
        nxt = out.find("\nProgress", m.end())
        stop = min(x for x in (end, nxt, m.start() + 4000) if x > 0) if max(end, nxt) > 0 else m.start() + 4000
        props = sorted(re.findall(r'"(\w+)"', m.group(2)))
        res.append((int(m.group(1)), props, m.group(3), out[m.start():stop].strip()))
    return res


def run_trace(args):
    path, schema, module, work, timeout = args
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    try:
        r = java(["-workers", "1", "-metadir", meta, "-noGenerateSpecTE", "-config", "%s.cfg" % module, "%s.tla" % module],
                 SPEC, {"TRACE": str(path), "SCHEMA": str(schema)}, timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    if r.returncode != 0 or "Model checking completed. No error has been found" not in out:
        out = "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Warning:")))
        states = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        return mismatches(out), int(states.group(2)) if states else 0, "%s: exit %d\n%s" % (path, r.returncode, out[-2500:])
    states = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return mismatches(out), int(states.group(2)), None


def split(lines, parts):
    """Cuts a trace at its resets into chunks of similar cost."""
    groups, cur = [], []
    for cmd, reply in lines:
        cur.append((cmd, reply))
        if cmd["c"] == "reset":
            groups.append(cur)
            cur = []
    if cur:
        groups.append(cur)
    texts = []
    for g in groups:
        t = ["%s" % json.dumps({"c": c, "r": r}, separators=(",", ":")) for c, r in g]
        texts.append((sum(map(len, t)), t))
    texts.sort(key=lambda x: -x[0])
    bins = [[0, []] for _ in range(parts)]
    for cost, t in texts:
        b = min(bins, key=lambda x: x[0])
        b[0] += cost
        b[1].extend(t)
    return [b[1] for b in bins if b[1]]


def validate(lines, schema, work, timeout=800, parts=JOBS, module="Trace"):
    """Checks a trace; returns its differences [(record, properties, what, text, chunk)] and counts."""
    os.makedirs(work, exist_ok=True)
    chunks = split(lines, parts)
    jobs = []
    for i, chunk in enumerate(chunks):
        path = Path(work) / ("chunk%d.ndjson" % i)
        path.write_text("\n".join(chunk) + "\n")
        jobs.append((path, schema, module, work, timeout))
    found, total, errors = [], 0, []
    with ThreadPoolExecutor(JOBS) as pool:
        for job, chunk, (mm, states, error) in zip(jobs, chunks, pool.map(run_trace, jobs)):
            if error is None:
                total += len(chunk)
                if states < len(chunk) + 1:
                    errors.append("%s: %d of %d lines consumed" % (job[0], states - 1, len(chunk)))
            else:
                # What the implementation did makes no sense to the specification; the rest may tell why.
                errors.append(error)
                total += max(states - 1, 0)
            for line, props, what, text in mm:
                found.append((chunk[:line], props, what, text))
    return found, dict(lines=total, chunks=len(chunks), errors=errors)
