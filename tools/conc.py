"""P11-P13: interleavings of the real ArcSlice code, histories validated against spec/Calls.tla."""
import json, os, re, shutil, subprocess
import vlib
from vlib import *
import concgen

H = os.path.join(ROOT, "harness", "conc")
T = THOROUGH

# programs; preemptions, stale reads, executions and random schedules per program
SIZE = dict(programs=100000 if T else 9000, preempt=3 if T else 2, stale=2 if T else 1, cap=20000 if T else 2500, rnd=200 if T else 60)


def build():
    """Compile the library, unmodified, against the shims; falls back to the real alloc crate."""
    with lock("conc"):
        d = os.path.join(BUILD, "conc")
        os.makedirs(d, exist_ok=True)
        stamp = os.path.join(d, "stamp")
        want = sha(repo_hash(), tree_hash(H, os.path.join(ROOT, "harness", "seq", "src", "track.rs")))
        if os.path.exists(stamp) and open(stamp).read() == want:
            return os.path.join(d, "conch")
        env = dict(os.environ, RUSTC_BOOTSTRAP="1")
        for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
            env.pop(k, None)
        opt = ["-C", "opt-level=2", "--cap-lints", "allow", "-L", d]
        ed = re.search(r'edition *= *"(\d+)"', open(REPO + "/Cargo.toml").read())
        ed = ed.group(1) if ed else "2015"

        def rustc(*a):
            r = subprocess.run(["rustc"] + list(a), cwd=d, env=env, capture_output=True, text=True)
            return r.returncode == 0, r.stderr

        for what, args in [
            ("core_shim", ["--edition", "2018", "--crate-type", "rlib", "--crate-name", "core_shim", H + "/shim_core.rs"]),
            ("alloc_shim", ["--edition", "2018", "--crate-type", "rlib", "--crate-name", "alloc_shim", "--extern", "core_shim=libcore_shim.rlib", H + "/shim_alloc.rs"]),
        ]:
            ok, e = rustc(*(args + opt))
            if not ok:
                raise ToolError("building %s failed: %s" % (what, e[-3000:]))
        lib = ["--edition", ed, "-C", "debug-assertions=on", "--crate-type", "rlib", "--crate-name", "rc_slice", REPO + "/src/lib.rs"] + opt
        core = ["--extern", "core=libcore_shim.rlib"]
        ok, e = rustc(*(lib + core + ["-Zcrate-attr=feature(arbitrary_self_types)", "--extern", "alloc=liballoc_shim.rlib"]))
        if not ok:
            log("the library does not compile against the Arc of the harness, using the real one:\n" + e[-1500:])
            ok, e = rustc(*(lib + core))
        if not ok:
            raise ToolError("the library does not compile against the scheduler: " + e[-3000:])
        ok, e = rustc("--edition", "2021", "--crate-name", "conch", "--extern", "rc_slice=librc_slice.rlib", "-o", "conch.new", H + "/main.rs", *opt)
        if not ok:
            raise ToolError("building the concurrency harness failed: " + e[-3000:])
        os.rename(os.path.join(d, "conch.new"), os.path.join(d, "conch"))
        open(stamp, "w").write(want)
        return os.path.join(d, "conch")


RACE_USE = re.compile(r"^write of|with a write")


def props_of(cls, detail, prog):
    excl = re.search(r"\b(im|gm),", prog.split("@")[0]) is not None
    if cls == "hang":
        return {"P13"}
    if cls == "race":
        if detail.startswith("write of"):
            return {"P12"}
        if "with a write" in detail or "shared handle" in detail or "shared data" in detail:
            return {"P11", "P12"} if excl else {"P11"}
        return {"P11"}
    if cls == "gmslice":
        return {"P12"}
    if cls in ("harness",):
        return set()
    if cls == "panic":
        return {"P11", "P13"}
    return {"P11", "P12"} if excl else {"P11"}


def precedence(h):
    """Pairs of calls of which the first ended before the second began."""
    pos = {x: i for i, x in enumerate(h["e"])}
    k = range(1, len(h["o"]) + 1)
    return frozenset((p, q) for p in k for q in k if p != q and pos[-p] < pos[q])


def op_text(o):
    return "%s(%d,%d)->%s%s" % (o[0], o[1], o[2], o[4], o[5])


def judge(h, stage, reached):
    """Properties a rejected history violates, and a description."""
    ne = len(h["e"])
    hadexcl = any(o[0] in ("gm", "im") and o[4] in ("some", "ok") for o in h["o"])
    if "Q" in stage:
        k = max(reached - ne - 1, 0)
        o = h["post"][min(k, len(h["post"]) - 1)]
        if o[0] in ("gm", "im"):
            return {"P13", "P12"} if o[4] in ("some", "ok") else {"P13"}, "afterwards, %s is not what the calls one after another would give" % op_text(o)
        return {"P13", "P11"}, "afterwards, %s is not what the calls one after another would give" % op_text(o)
    if "E" in stage:
        return ({"P11", "P12"} if hadexcl else {"P11"}), "when all calls have returned, contents or destroyed items are wrong"
    n = -h["e"][min(reached, ne - 1)]
    o = h["o"][n - 1] if n > 0 else h["o"][0]
    what = "no order of the calls explains the result of %s" % op_text(o)
    if o[0] in ("gm", "im"):
        return ({"P12"} if o[4] in ("some", "ok") else {"P13"}), what
    return ({"P11", "P12"} if hadexcl else {"P11"}), what


# Without this step of the protocol, a model this large breaks that invariant (thorough tier)
NEEDED = [("climb", 2, 1, "Excused"), ("parts", 2, 1, "Safe"), ("own", 2, 1, "Exclusive"), ("moved", 3, 1, "Exclusive"), ("tell", 2, 2, "Exclusive")]


def protocol(rep):
    """The step by step model of the protocol, every interleaving: does it give what Calls promises?"""
    def cfg(threads, setup, budget, deep, without):
        return ("CONSTANTS\n  Thread = %s\n  Setup = %d\n  Budget = %d\n  Deep = %s\n  Without = %s\nSPECIFICATION Spec\n"
                % (threads, setup, budget, "TRUE" if deep else "FALSE", '{"%s"}' % without if without else "{}")
                + "".join("INVARIANT %s\n" % i for i in ("Exclusive", "Safe", "Excused", "Exact")))
    sizes = [("{1, 2}", 2, 1, False)] + ([("{1, 2}", 3, 1, False), ("{1, 2}", 2, 1, True), ("{1, 2, 3}", 2, 1, False), ("{1, 2}", 2, 2, False)] if T else [])
    for x in sizes:
        r = tlc("Protocol", cfg(*x, ""), "protocol-%s" % "-".join(re.sub(r"\W", "", str(y)) for y in x), workers=CPUS, timeout=3000 if T else 600)
        rep.add("states", r.distinct)
        rep.add("transitions", r.transitions)
        rep.add("protocol_states", r.distinct)
    for w, setup, budget, inv in NEEDED if T else ():
        r = tlc("Protocol", cfg("{1, 2}", setup, budget, False, w), "protocol-without-" + w, workers=CPUS, timeout=3000, expect_error=True)
        if inv not in r.violated:
            raise ToolError("the protocol without %s should break %s: %s %s" % (w, inv, r.error, r.violated))
        rep.add("protocol_steps_shown_to_be_needed", 1)


def check(rep, Finding):
    pid = rep.pid
    exe = build()
    protocol(rep)
    seed = SEED * 3 + {"P11": 0, "P12": 1, "P13": 2}[pid]
    z = SIZE
    lines, total = concgen.programs(seed, z["programs"], pid)
    rep.cov["programs_there_are"] = total
    d = os.path.join(BUILD, "traces", "conc-" + pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    pf = os.path.join(d, "programs")
    open(pf, "w").write("\n".join(lines) + "\n")
    text = {l.split(";")[0]: l for l in lines}
    ns = CPUS

    def one(i):
        out = os.path.join(d, "h%d" % i)
        cmd = [exe, "--file", pf, "--shard", str(i), "--of", str(ns), "--out", out, "--preempt", str(z["preempt"]), "--stale", str(z["stale"]),
               "--max", str(z["cap"]), "--random", str(z["rnd"]), "--seed", str(seed)]
        return cmd, out, run_harness(cmd, timeout=3000 if T else 700)
    rerun = [exe, "--file", pf, "--preempt", str(z["preempt"]), "--stale", str(z["stale"]), "--max", str(z["cap"]), "--random", str(z["rnd"]),
             "--seed", str(seed), "--only"]
    setups, seen = {}, {}
    for cmd, out, (rows, crash) in pmap(one, range(ns)):
        for r in rows:
            if r.get("summary"):
                rep.add("programs", r["programs"])
                rep.add("interleavings_executed", r["executions"])
                rep.add("programs_with_schedules_cut_off", r["capped"])
                rep.add("context_switches", r["switches"])
            elif "cls" in r:
                ps = props_of(r["cls"], r["detail"], r["prog"])
                f = Finding("interleavings", r["cls"], "-", "-", "arc", "-", r["detail"] + "; schedule " + r["trail"], r["prog"], replay=rerun + [r["prog"].split(";")[0]])
                f.props = ps
                rep.findings.append(f)
        if crash:
            f = Finding("interleavings", "hang" if crash.hang else "crash", "-", "-", "arc", "-", crash.sig, crash.where, replay=cmd)
            f.props = {"P13"} if crash.hang else {"P11", "P12", "P13"}
            rep.findings.append(f)
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue      # cut off by a crash
                k = (j["u"], j["n"])
                j["u"] = setups.setdefault(k, len(setups) + 1)
                j.pop("trail")
                rep.add("histories_recorded", 1)
                before = precedence(j)
                same = seen.setdefault(json.dumps([j["u"], j["o"], j["q"], j["post"]]), [])
                if any(b >= before for b, _ in same):
                    continue
                same[:] = [x for x in same if not x[0] <= before] + [(before, j)]
            os.unlink(out)
    # a history in which more calls end before others begin is the harder one to explain: keep the hardest
    hist = [j for same in seen.values() for _, j in same]
    rep.add("distinct_histories", len(hist))
    sf = os.path.join(d, "setups")
    with open(sf, "w") as f:
        for (u, n), _ in sorted(setups.items(), key=lambda x: x[1]):
            f.write(json.dumps({"n": n, "ops": [[x.split(",")[0]] + [int(y) for y in x.split(",")[1:]] for x in u.split()]}) + "\n")
    if not hist:
        return

    def run_tlc(tag, hs, debug, workers):
        path = os.path.join(d, tag)
        with open(path, "w") as f:
            for h in hs:
                f.write(json.dumps(h) + "\n")
        r = tlc("Calls", cfg_text({}, invs=("InvOk",) if T else ()), "arcapi-" + pid + tag, workers=workers, env={"TRACE_FILE": path, "SETUP_FILE": sf, "TRACE_DEBUG": "1" if debug else "0"},
                files=[path, sf], timeout=3000 if T else 600, heap="3g", cache=False)
        st, reached = {}, {}
        for l in open(r.out, errors="replace"):
            m = re.match(r'"([AEQI]) (\d+)(?: (\d+))?"', l)
            if m:
                n = int(m.group(2))
                if m.group(1) == "I":
                    reached[n] = max(reached.get(n, 0), int(m.group(3)))
                else:
                    st.setdefault(n, set()).add(m.group(1))
        os.unlink(r.out)
        return r, st, reached
    nc = CPUS
    chunk = [hist[i::nc] for i in range(nc)]
    rejected = []
    for c, (r, st, _) in zip([c for c in chunk if c], pmap(lambda x: run_tlc("c%d" % x[0], x[1], False, 1), [(i, c) for i, c in enumerate(chunk) if c], CPUS)):
        rep.add("states", r.distinct)
        rep.add("transitions", r.transitions)
        rep.add("traces_validated_against_impl", sum(1 for s in st.values() if "A" in s))
        rejected += [h for n, h in enumerate(c, 1) if "A" not in st.get(n, ())]
    for h in hist[:: max(1, len(hist) // 6)][:6]:
        rep.sample({"source": "history of an interleaving, accepted by Calls" if h not in rejected else "rejected history",
                    "program": text.get(h["p"], h["p"]), "calls": [op_text(o) for o in h["o"]], "order of calls (n) and returns (-n)": h["e"]})
    rep.add("histories_rejected", len(rejected))
    if rejected:
        rejected.sort(key=lambda h: (len(h["o"]), len(h["e"])))
        rejected = rejected[:400]
        _, st, reached = run_tlc("rej", rejected, True, CPUS)
        groups = {}
        for n, h in enumerate(rejected, 1):
            ps, what = judge(h, st.get(n, set()), reached.get(n, 0))
            g = groups.setdefault((tuple(sorted(ps)), what.split("(")[0]), [])
            g.append((h, what))
        for (ps, _), xs in groups.items():
            h, what = xs[0]
            f = Finding("histories", "history", "-", "-", "arc", "-", what + ": " + json.dumps(h)[:900], text.get(h["p"], h["p"]), len(xs), replay=rerun + [h["p"]])
            f.props = set(ps)
            rep.findings.append(f)
    rep.assumptions = ["programs of 2 or 3 threads, 1 or 2 operations each, as generated by tools/concgen.py",
                       "all schedules with at most %d preemptions and %d stale reads per execution (up to %d executions per program), plus %d random schedules per program"
                       % (z["preempt"], z["stale"], z["cap"], z["rnd"]),
                       "memory model: release/acquire with bounded stale reads, SC fences and operations; no load buffering"]
