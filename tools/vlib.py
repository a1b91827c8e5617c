"""Shared machinery of the checks: building, running TLC, running the harnesses, reporting."""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
CPUS = os.cpu_count() or 4

os.makedirs(BUILD, exist_ok=True)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read())
            continue
        for base, dn, fn in sorted(os.walk(d)):
            dn[:] = sorted(x for x in dn if x not in ("target", ".git"))
            for f in sorted(fn):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, d).encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


def repo_hash():
    return tree_hash(REPO + "/src", REPO + "/Cargo.toml")


_locks = {}
_lk = threading.Lock()


def lock(name):
    with _lk:
        return _locks.setdefault(name, threading.Lock())


# ---------------------------------------------------------------- builds

def cargo(name, release):
    """Build harness crate /verif/harness/<name>; returns the binary directory."""
    with lock("cargo-" + name):
        tgt = os.path.join(BUILD, name)
        prof = "release" if release else "debug"
        stamp = os.path.join(tgt, "stamp-" + prof)
        want = sha(repo_hash(), tree_hash(os.path.join(ROOT, "harness", name)))
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want:
            return os.path.join(tgt, prof)
        if os.path.isdir(os.path.join(tgt, prof)):
            shutil.rmtree(os.path.join(tgt, prof))     # never trust time stamps
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE="true")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        r = subprocess.run(["cargo", "build", "--offline", "-q"] + (["--release"] if release else []),
                           cwd=os.path.join(ROOT, "harness", name), env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("building harness %s failed:\n%s" % (name, r.stderr[-4000:]))
        open(stamp, "w").write(want)
        return os.path.join(tgt, prof)


# ---------------------------------------------------------------- TLC

def cfg_text(consts, init="Init", next_="Next", view=None, invs=("InvOk",), extra=""):
    def val(v):
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, str):
            return '"%s"' % v
        if isinstance(v, (set, list, tuple)):
            return "{" + ", ".join(val(x) for x in (sorted(v, key=str) if isinstance(v, set) else v)) + "}"
        return str(v)
    s = ""
    if consts:
        s += "CONSTANTS\n" + "\n".join("  %s = %s" % (k, val(v)) for k, v in consts.items()) + "\n"
    s += "INIT %s\nNEXT %s\n" % (init, next_)
    if view:
        s += "VIEW %s\n" % view
    for i in invs:
        s += "INVARIANT %s\n" % i
    return s + "CHECK_DEADLOCK FALSE\n" + extra


class Tlc:
    """Result of a TLC run."""
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        self.states = self.transitions = self.distinct = 0
        self.error = ""
        self.violated = ""
        with open(out, errors="replace") as f:
            for l in f:
                if l[:2] in ('"T', '"A', '"R'):
                    continue
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", l)
                if m:
                    self.transitions, self.distinct = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", l)
                if m:
                    self.transitions = self.distinct = int(m.group(1))
                if "is violated" in l or "Deadlock reached" in l or "Temporal properties were violated" in l:
                    self.violated = self.violated or l.strip()
                if l.startswith("Error:") and not self.error:
                    self.error = l.strip()
        self.states = self.distinct


def tlc(module, cfg, tag, workers=4, args=(), env=None, files=(), timeout=800, cache=True, heap="6g", expect_error=False):
    """Run TLC on spec/<module>.tla; the output is cached by the content of everything that goes in."""
    key = sha(tree_hash(SPEC), module, cfg, list(args), *[open(f, "rb").read() for f in files], sorted((env or {}).items()) if not files else "")
    d = os.path.join(BUILD, "tlc")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s.out" % (tag, key))
    meta = out + ".json"
    with lock(out):
        if cache and os.path.exists(meta):
            m = json.load(open(meta))
            return Tlc(out, m["rc"], m["wall"])
        cf = os.path.join(d, "%s-%s.cfg" % (tag, key))
        open(cf, "w").write(cfg)
        md = os.path.join(d, "md-%s-%d" % (key, os.getpid()))
        os.makedirs(md, exist_ok=True)
        t0 = time.time()
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC", "-metadir", md,
               "-noGenerateSpecTE", "-workers", str(workers), "-config", cf] + list(args) + [module + ".tla"]
        try:
            with open(out, "w") as f:
                r = subprocess.run(cmd, cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s (%s)" % (module, tag))
        finally:
            shutil.rmtree(md, ignore_errors=True)
        res = Tlc(out, r.returncode, time.time() - t0)
        if r.returncode != 0 and not expect_error:
            raise ToolError("TLC failed on %s (%s): rc=%d %s %s, see %s" % (module, tag, r.returncode, res.error, res.violated, out))
        json.dump({"rc": r.returncode, "wall": res.wall}, open(meta, "w"))
        return res


def tlines(path, prefix):
    """The JSON values TLC printed as "<prefix> {...}" lines."""
    p = '"' + prefix + " "
    with open(path, errors="replace") as f:
        for l in f:
            if l.startswith(p):
                yield json.loads(json.loads(l)[len(prefix) + 1:])


# ---------------------------------------------------------------- running harness processes

class Crash:
    def __init__(self, cmd, sig, where, hang=False):
        self.cmd, self.sig, self.where, self.hang = cmd, sig, where, hang


_run_id = [0]
HANG = 90


def cpu_of(pid):
    """Processor time used by a child of ours."""
    try:
        f = open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError):
        return 0.0


def run_harness(cmd, timeout=700, env=None):
    """Returns (list of JSON lines, Crash or None)."""
    with _lk:
        _run_id[0] += 1
        n = _run_id[0]
    prog = os.path.join(BUILD, "progress-%d-%d" % (os.getpid(), n))
    e = dict(os.environ, PROGRESS=prog)
    e.update(env or {})
    hang = False
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, text=True, errors="replace")
    # hanging: no progress for a long while, of which it had the processor for a good part (or slept all along)
    t0 = time.time()
    last, since, cpu0 = None, t0, 0.0
    while True:
        try:
            so, se = p.communicate(timeout=5)
            break
        except subprocess.TimeoutExpired:
            pass
        now, cpu = time.time(), cpu_of(p.pid)
        try:
            cur = open(prog, errors="replace").read()
        except OSError:
            cur = None
        if cur != last:
            last, since, cpu0 = cur, now, cpu
        hang = now - since > HANG and (cpu - cpu0 > HANG / 2 or cpu - cpu0 < 1)
        if hang or now - t0 > timeout:
            p.kill()
            so, se = p.communicate()
            if not hang:
                raise ToolError("not finished within %d s: %s" % (timeout, " ".join(cmd)))
            break
    rows = []
    for l in so.splitlines():
        if l.startswith("{"):
            try:
                rows.append(json.loads(l))
            except ValueError:
                pass
    where = ""
    if os.path.exists(prog):
        where = open(prog, errors="replace").read().strip()
        os.unlink(prog)
    crash = None
    if hang:
        crash = Crash(cmd, "no progress for %d s" % HANG, where, True)
    elif p.returncode != 0:
        if p.returncode == -9:
            raise ToolError("harness was killed (memory?): %s" % " ".join(cmd))
        crash = Crash(cmd, "exit %d: %s" % (p.returncode, se[-600:]), where)
    elif not any(r.get("summary") for r in rows):
        crash = Crash(cmd, "ended without a summary: " + se[-600:], where)
    return rows, crash


def pmap(fn, items, n=CPUS):
    with ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))
