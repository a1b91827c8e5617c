"""P19: behaviours of spec/Slice.tla on the real code inside an interpreter that notices undefined behaviour (Miri)."""
import json, os, random, re, shutil, subprocess
from vlib import *
import profiles as P
import concgen

T = THOROUGH
GENS = ["all", "excl", "weakmut", "revive", "assign", "mut", "item", "itern", "sparts", "mparts", "passign"] + \
       (["reassign2", "gm", "im", "sparts2", "spartsn", "mpartsn"] if T else [])
EACH = 2000 if T else 100
WALKS = {"mix": 200 if T else 16, "iters": 100 if T else 16, "parts": 200 if T else 24, "small": 100 if T else 16}
FLAGS = "-Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-preemption-rate=0.05"
ITEMS = ["bx", "bx", "bx", "pl", "al", "al", "zs"]
SHARDS = CPUS
PROGRAMS, TIMES = (20000, 6) if T else (560, 2)


OPS = "new newm wn drop pt bp im fz it cf cnt gm set up nx nb nt nk ls cp clone cl cr dg sl sr sf st".split()


def code(*ns):
    return "".join(chr(48 + n) for n in ns)


def sequential(fam, item, var, bomb, ops):
    """One line for harness/pure."""
    return fam + code(["bx", "pl", "al", "zs"].index(item), var, bomb) + "".join(code(OPS.index(o[0]), o[1], o[2]) for o in ops)


def parallel(item, var, times, program):
    """The same for a line of concgen.programs."""
    f = program.split(";")[1:-1]
    def ops(t):
        return [(OPS.index(o[0]), int(o[1]), int(o[2]), int(o[3])) for o in (x.split(",") for x in t.split())]
    ths = [ops(t) for t in f[2:]]
    n = int(f[0])
    both = [s for s in range(1, n + 1) if sum(any(s in (o[1], o[3]) for o in t) for t in ths) > 1]
    return "p" + code(["bx", "pl", "al"].index(item), var, times, n) + "".join(" " + "".join(code(*o) for o in t) for t in [ops(f[1])] + ths) + " " + code(*both)


def environment():
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, "pure"), CARGO_NET_OFFLINE="true", MIRIFLAGS=FLAGS,
               MIRI_SYSROOT=os.path.join(BUILD, "miri-sysroot"))
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    return env


def prepare():
    """The interpreter's own standard library."""
    env = environment()
    stamp = env["MIRI_SYSROOT"] + ".stamp"
    want = subprocess.run(["rustc", "+nightly", "-vV"], capture_output=True, text=True).stdout
    if not (os.path.exists(stamp) and open(stamp).read() == want):
        r = subprocess.run(["cargo", "+nightly", "miri", "setup"], env=env, capture_output=True, text=True)
        if r.returncode != 0:
            raise ToolError("cargo miri setup failed:\n%s" % r.stderr[-3000:])
        open(stamp, "w").write(want)
    return env


def interpret(env, path, timeout):
    """Runs the behaviours of one file; returns (how many were begun, the number of the last one, error message or None)."""
    p = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", path], cwd=os.path.join(ROOT, "harness", "pure"), env=env,
                       capture_output=True, text=True, errors="replace", timeout=timeout)
    at = [int(x) for x in re.findall(r"^at (\d+)$", p.stdout, re.M)]
    if p.returncode == 0 and p.stdout.endswith("done\n"):
        return len(at), None, None
    m = re.search(r"^error: (Undefined Behavior|abnormal termination|the evaluated program).*", p.stderr, re.M)
    if not m:
        if at and p.returncode in (101, 134) and "unsupported" not in p.stderr:
            return len(at), at[-1], "ended with %d: %s" % (p.returncode, p.stderr[-600:])
        raise ToolError("Miri failed:\n%s" % p.stderr[-3000:])
    return len(at), at[-1] if at else None, p.stderr[m.start():m.start() + 1500]


def threads(rep, rng, number, pid):
    """Programs of threads."""
    progs, _ = concgen.programs(SEED, 30000, pid)
    rep.cov["programs_of_threads"] = min(number, len(progs))
    res = []
    for p in rng.sample(progs, min(number, len(progs))):
        item = rng.choice(["bx", "pl", "al"])
        res.append(("threads", parallel(item, rng.randrange(16), TIMES, p), "arc", item, p))
    return res


def run(rep, runner, rng, env, lines, tag):
    d = os.path.join(BUILD, "traces", "pure-" + rep.pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rng.shuffle(lines)
    jobs = []
    for i in range(SHARDS):
        path = os.path.join(d, "b%d" % i)
        with open(path, "w") as f:
            for l in lines[i::SHARDS]:
                f.write(l[1] + "\n")
        jobs.append(path)
    subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q"], cwd=os.path.join(ROOT, "harness", "pure"), env=env, capture_output=True)
    groups = {}
    for i, (path, (k, n, err)) in enumerate(zip(jobs, pmap(lambda p: interpret(env, p, 6000 if T else 700), jobs))):
        rep.add("traces_validated_against_impl", k)
        rep.add("run_in_the_interpreter", k)
        if err:
            src, _, fam, item, ops = lines[i::SHARDS][n] if n is not None else ("?", "", "?", "?", "")
            cls = "undefined-behaviour" if "Undefined Behavior" in err else "abort"
            groups.setdefault((cls, fam), []).append((len(ops), item, err, ops, path, src))
    for (cls, fam), xs in groups.items():
        xs.sort()
        _, item, err, ops, path, src = xs[0]
        rep.findings.append(runner.Finding(tag, cls, src, "-", fam, item, err, ops, len(xs), replay=["MIRIFLAGS=" + FLAGS, "cargo", "+nightly", "miri", "run", "--", path]))
    for n in range(0, len(lines), max(1, len(lines) // 8)):
        rep.sample({"source": "behaviour of " + lines[n][0], "behaviour": lines[n][4]})


def races(rep, runner):
    """For P11: programs of threads only (data races on anything, use of what is gone)."""
    rng = random.Random(SEED)
    run(rep, runner, rng, prepare(), threads(rep, rng, 6000 if T else 320, "P11"), "threads in Miri")


def check(rep, runner):
    rng = random.Random(SEED)

    def explore(name):
        if name == "sysroot":
            return prepare()
        if name.startswith("walk "):
            return name, runner.run_walk(name[5:])[2], WALKS[name[5:]]
        c = P.GEN[name]
        return name, tlc("SliceGen", cfg_text(c, view="View"), "gen-" + name, workers=4), EACH
    env, *runs = pmap(explore, ["sysroot"] + ["walk " + w for w in WALKS] + GENS, 4)
    lines = []
    for name, r, num in runs:
        rep.add("states", r.distinct)
        rep.add("transitions", r.transitions)
        ts = [l for l in open(r.out, errors="replace") if l.startswith('"T ')]
        if not ts:
            raise ToolError("no behaviours of " + name)
        for l in rng.sample(ts, min(num, len(ts))):
            ops = json.loads(json.loads(l)[2:])["p"]
            # an invalid number of parts destroys items while unwinding already
            bomb = rng.randrange(1, 5) if rng.random() < 0.25 and all(o[0] != "bp" for o in ops) else 0
            fam, item, var = rng.choice("ra"), rng.choice(["bx", "al"]) if bomb else rng.choice(ITEMS), rng.randrange(16)
            lines.append((name, sequential(fam, item, var, bomb, ops), {"r": "rc", "a": "arc"}[fam], item, " ".join("%s(%d,%d)" % (o[0], o[1], o[2]) for o in ops)))
    lines += threads(rep, rng, PROGRAMS, None)
    run(rep, runner, rng, env, lines, "pure")
    rep.assumptions = ["undefined behaviour as Miri finds it (Tree Borrows, permissive provenance), one execution per behaviour, %d schedules per program of threads" % TIMES,
                       "items: owning memory, plain bytes, over-aligned, zero-sized; in a quarter of the behaviours one destructor panics"]
