"""The implementation under test: builds the conformance harness against /repo, and talks to it."""
import fcntl, hashlib, json, os, select, shutil, subprocess, sys, time
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
BUILD = ROOT / ".build"
sys.path.insert(0, str(ROOT / "tools"))
import gen, schema


class ToolError(Exception):
    pass


class BuildError(Exception):
    """The harness does not compile against the code under test."""


def fingerprint():
    h = hashlib.sha256()
    for base in ("steit", "steit-derive"):
        for path in sorted((REPO / base).rglob("*")):
            if path.is_file() and "target" not in path.parts:
                h.update(str(path).encode() + b"\0" + path.read_bytes() + b"\0")
    return h.hexdigest()


def cargo(args, cwd, target, timeout=600):
    env = dict(os.environ, CARGO_TARGET_DIR=str(target), CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings",
               CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return subprocess.run(["cargo"] + args, cwd=cwd, env=env, timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def write_if_changed(path, text):
    if not path.exists() or path.read_text() != text:
        path.write_text(text)


def cargo_build(args, base):
    """Builds against the code as it is now. To be called with the lock held."""
    target, stamp, now = BUILD / "target", BUILD / "fingerprint", fingerprint()
    if target.exists() and (not stamp.exists() or stamp.read_text() != now):
        for p in ("steit", "steit-derive"):
            cargo(["clean", "--offline", "-p", p], base, target)
    r = cargo(args, base, target)
    if r.returncode == 0:
        stamp.write_text(now)
    return r


def locked_cargo(args, base):
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return cargo_build(args, base)


class Built:
    def __init__(self, binary, schema_path, schema):
        self.binary, self.schema_path, self.schema = binary, schema_path, schema


def build(seed=None, count=0, twins=False):
    """Generates the types of a schema and builds the harness for them."""
    name = "core" if seed is None else "%s%d_%d" % ("t" if twins else "r", seed, count)
    base = BUILD / name
    (base / "src").mkdir(parents=True, exist_ok=True)
    with open(BUILD / "lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        s = schema.core(seed, count, twins)
        data = s.json()
        for f in (ROOT / "harness" / "src").glob("*.rs"):
            if f.name != "gen.rs":
                write_if_changed(base / "src" / f.name, f.read_text())
        write_if_changed(base / "src" / "gen.rs", gen.rust(s))
        write_if_changed(base / "Cargo.toml", (ROOT / "harness" / "Cargo.toml").read_text())
        write_if_changed(base / "Cargo.lock", (ROOT / "harness" / "Cargo.lock").read_text())
        (base / "schema.json").write_text(json.dumps(data))
        # Cargo takes harnesses of the same name for the same one, whatever directory they are in.
        last = BUILD / "last"
        if not last.exists() or last.read_text() != name:
            os.utime(base / "src" / "main.rs")
        last.write_text("")
        r = cargo_build(["build", "--offline"], base)
        if r.returncode != 0:
            raise BuildError(r.stderr[-6000:])
        last.write_text(name)
        binary = base / "steit-conformance"
        shutil.copy2(BUILD / "target" / "debug" / "steit-conformance", binary)
    return Built(binary, base / "schema.json", data)


class Impl:
    """A running harness. Every command and its observation is recorded as a line of a trace."""

    def __init__(self, built, trace=None, timeout=30):
        self.built, self.timeout, self.trace = built, timeout, trace
        self.proc = None
        self.lines = []
        self.deaths = 0
        self.steps = 0

    def start(self):
        self.proc = subprocess.Popen([str(self.built.binary)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                     stderr=subprocess.DEVNULL, bufsize=0, cwd="/")
        self.buf = b""

    def stop(self):
        if self.proc:
            self.proc.kill()
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def raw(self, cmd):
        if self.proc is None:
            self.start()
        data = (json.dumps(cmd, separators=(",", ":")) + "\n").encode()
        try:
            view = memoryview(data)
            while view:
                n = self.proc.stdin.write(view)
                view = view[n:]
            end = time.time() + self.timeout
            while b"\n" not in self.buf:
                left = end - time.time()
                if left <= 0 or not select.select([self.proc.stdout], [], [], left)[0]:
                    raise TimeoutError
                part = os.read(self.proc.stdout.fileno(), 1 << 20)
                if not part:
                    raise BrokenPipeError
                self.buf += part
            line, self.buf = self.buf.split(b"\n", 1)
            reply = json.loads(line)
        except TimeoutError:
            reply = {"dead": "no answer"}
            self.stop()
        except (BrokenPipeError, ConnectionResetError):
            code = self.proc.wait()
            reply = {"dead": "exit %d" % code}
            self.stop()
        if "panic" in reply and reply["panic"].startswith("harness:"):
            raise ToolError("%s on %s" % (reply["panic"], json.dumps(cmd)[:2000]))
        return reply

    def __call__(self, cmd):
        reply = self.raw(cmd)
        self.steps += 1
        if "dead" in reply or "panic" in reply:
            self.deaths += 1
        self.lines.append((cmd, reply))
        return reply

    def note(self, cmd, reply):
        self.lines.append((cmd, reply))

    def reset(self):
        """A point where a trace may be cut: nothing before it matters after it."""
        self.raw({"c": "reset"})
        self.lines.append(({"c": "reset"}, {}))

    def alive(self, reply):
        return "dead" not in reply and "panic" not in reply
