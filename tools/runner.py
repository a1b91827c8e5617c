"""Runs the checks of one property and reports."""
import json, os, re, sys, time, traceback
import vlib
from vlib import *
import profiles as P

KNOWN = os.path.join(ROOT, "known-findings.txt")


class Finding:
    """One disagreement between the specification and the real code."""
    def __init__(self, src, cls, op="-", kind="-", fam="-", ty="-", detail="", ops="", n=1, allops=(), replay=None):
        self.src, self.cls, self.op, self.kind, self.fam, self.ty = src, cls, op, kind, fam, ty
        self.detail, self.ops, self.n, self.allops = detail, ops, n, list(allops) or [ops]
        self.replay = replay

    def key(self):
        return "%s/%s/%s/%s/%s" % (self.cls, self.op, self.kind, self.fam, self.ty)

    def sig(self):
        """What identifies this failure in the known-findings file."""
        return "%s %s(%s) %s: %s" % (self.fam, self.op, self.kind, self.cls, self.ops)


class Report:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.findings = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.t0 = time.time()

    def add(self, k, n):
        self.cov[k] = self.cov.get(k, 0) + n

    def sample(self, s):
        if len(self.cov["samples"]) < 12:
            self.cov["samples"].append(s)


# ---------------------------------------------------------------- sequential machine

MEM = {"leak", "grow", "buf-early", "buf-late", "double-free", "bad-free", "wrong-layout", "overrun"}
ZMEM = {"zero-size-alloc", "zero-size-dealloc"}
DES = {"d", "end-d", "destroyed-twice", "destroyed-garbage"}
UB = {"read-stale-item", "read-garbage", "misaligned", "reborn", "destroyed-twice", "destroyed-garbage", "double-free", "bad-free",
      "wrong-layout", "overrun", "buf-early", "crash"}
FUNC = {"res", "panic", "nopanic", "c", "y", "kind", "len", "moved", "gmslice", "clone", "hang"}

S_OPS = {("clone", "S"), ("cl", "S"), ("cr", "S"), ("cf", "S"), ("sl", "S"), ("sr", "S"), ("new", "-")}
# (op, kind of the handle it is applied to) pairs a property is directly about, and operations whose
# presence in every failing behaviour makes a failure elsewhere this property's
CORE = {
    "P04": ({("gm", "S")}, {"gm"}),
    "P05": ({("im", "S")}, {"im"}),
    "P06": ({("up", "W"), ("dg", "S"), ("clone", "W"), ("cf", "W"), ("drop", "W"), ("wn", "-")}, {"dg", "wn"}),
    "P07": ({(o, "M") for o in ("sl", "sr", "clone", "set", "fz", "drop")} | {("newm", "-"), ("im", "S")}, {"newm", "im"}),
    "P08": ({(o, "I") for o in ("nx", "nb", "nt", "nk", "ls", "sf", "st", "set", "cnt", "drop")} | {("it", "M")}, {"it"}),
    "P09": ({(o, "P") for o in ("nx", "nb", "nt", "nk", "ls", "clone", "cf", "cnt", "drop")} | {("pt", "S"), ("bp", "S")}, {"pt", "bp"}),
    "P10": ({(o, "Q") for o in ("nx", "nb", "nt", "nk", "ls", "set", "cnt", "drop")} | {("pt", "M"), ("bp", "M")}, {"pt", "bp"}),
}


def relevant(pid, f):
    if f.cls in ("crash", "hang", "timeout"):
        return True
    if pid == "P01":
        return f.cls in ({"c", "len", "kind", "panic", "moved", "gmslice"} | UB) or (f.cls == "res" and (f.op, f.kind) in S_OPS)
    if pid == "P02":
        return f.cls in DES | {"read-stale-item", "read-garbage", "reborn"}
    if pid == "P03":
        return f.cls in MEM | ZMEM | {"end-d"}
    if pid == "P17":
        return True
    pairs, ops = CORE[pid]
    if (f.op, f.kind) in pairs:
        return True
    def names(s):
        return {x.split("(")[0] for x in s.split()}
    return all(names(o) & ops for o in f.allops)


def collect(rep, rows, crash, src, cmd):
    groups = {}
    for r in rows:
        if r.get("summary"):
            rep.add("tests_replayed", r["tests"])
            rep.add("operations_executed", r["ops"])
            rep.add("replays_left_at_a_free_choice", r["abandoned"])
            rep.add("expected_panics", r["bypanic"])
        elif "cls" in r:
            groups.setdefault((r["cls"], r["op"], r["kind"], r["fam"], r["ty"]), []).append(r)
    for (cls, op, kind, fam, ty), rs in groups.items():
        rs.sort(key=lambda r: len(r["ops"]))
        rep.findings.append(Finding(src, cls, op, kind, fam, ty, rs[0]["detail"], rs[0]["ops"], len(rs), [r["ops"] for r in rs],
                                    replay=cmd + ["--only", str(rs[0]["line"])] if "--only" not in cmd and "--file" in cmd else cmd))
    if crash:
        w = crash.where.split()
        fam, ty = (w[-2], w[-1]) if len(w) >= 4 else ("-", "-")
        ops = ""
        if len(w) >= 4 and "--file" in cmd:
            ops = line_ops(cmd[cmd.index("--file") + 1], int(w[1]))
        rep.findings.append(Finding(src, "hang" if crash.hang else "crash", "-", "-", fam, ty, "%s at [%s]" % (crash.sig, crash.where), ops,
                                    replay=cmd + (["--only", w[1]] if len(w) >= 4 and "--file" in cmd else [])))


def line_ops(path, n):
    with open(path, errors="replace") as f:
        for i, l in enumerate(f):
            if i == n:
                j = json.loads(json.loads(l)[2:]) if l.startswith('"T ') else json.loads(l)
                p = j.get("p") or j.get("pre", []) + j.get("cyc", [])
                return " ".join("%s(%d,%d)" % (x[0], x[1], x[2]) for x in p)
    return ""


def seq_bins():
    return [os.path.join(d, "seqh") for d in pmap(lambda r: cargo("seq", r), [False, True], 1)]


def replay_file(rep, path, slots, types, src, mode="replay", shards=None):
    bins = seq_bins()
    nsh = shards or 4
    cmds = [[b, mode, "--file", path, "--slots", str(slots), "--types", types, "--shard", str(i), "--of", str(nsh)]
            for b in bins for i in range(nsh)]
    def one(c):
        return c, run_harness(c, timeout=700)
    for c, (rows, crash) in pmap(one, cmds):
        collect(rep, rows, crash, src, c)


def do_gen(rep, name, types):
    c = P.GEN[name]
    r = tlc("SliceGen", cfg_text(c, view="View"), "gen-" + name, workers=4)
    rep.add("states", r.distinct)
    rep.add("transitions", r.transitions)
    replay_file(rep, r.out, c["NSlots"], types, "gen-" + name)
    for t in tlines(r.out, "T"):
        if len(t["p"]) >= min(5, c["MaxDepth"]):
            rep.sample({"source": "transition of the machine (%s)" % name, "ops": ["%s(%d,%d)->%s%s" % (x[0], x[1], x[2], x[3], x[4]) for x in t["p"]],
                        "expected": t["ob"]})
            break
    with open(r.out, errors="replace") as f:
        rep.add("traces_validated_against_impl", sum(l.startswith('"T ') for l in f))


def run_walk(name):
    c, num = P.WALK[name]
    return c, num, tlc("SliceGen", cfg_text(c, next_="NextWalk"), "walk-" + name, workers=1,
                       args=["-simulate", "num=%d" % num, "-depth", "600", "-seed", str(SEED)])


def do_walk(rep, name, types):
    c, num, r = run_walk(name)
    rep.add("states", r.distinct)
    rep.add("transitions", r.transitions)
    rep.add("random_behaviours_replayed", num)
    rep.add("traces_validated_against_impl", num)
    replay_file(rep, r.out, c["NSlots"], types, "walk-" + name)


def cycles(out):
    """Cycles of the state graph found on the random behaviours: prefix and loop."""
    seen, res = set(), []
    for t in tlines(out, "T"):
        p = t["p"]
        last = {}
        for i, x in enumerate(p):
            fp = x[8]
            if fp in last:
                j = last[fp]
                if i - j <= 14 and not any(y[5] for y in p[:i + 1]):
                    cyc = [y[:3] for y in p[j + 1:i + 1]]
                    k = json.dumps([fp, cyc])
                    if k not in seen:
                        seen.add(k)
                        res.append({"pre": [y[:3] for y in p[:j + 1]], "cyc": cyc})
            last[fp] = i
    return res


def do_cycle(rep, name, types):
    c, num, r = run_walk(name)
    path = r.out + ".cyc"
    cs = cycles(r.out)
    if not os.path.exists(path):
        with open(path + ".tmp", "w") as f:
            for x in cs:
                f.write(json.dumps(x) + "\n")
        os.rename(path + ".tmp", path)
    rep.add("state_graph_cycles_repeated", len(cs))
    if cs:
        x = max(cs, key=lambda x: len(x["cyc"]))
        rep.sample({"source": "cycle of the state graph, repeated 24 times on the real code", **x})
    replay_file(rep, path, c["NSlots"], types, "cycle-" + name, mode="cycle")


TRACE_CFG = cfg_text({}, invs=("InvOk",))


def validate(rep, path, src, cmd, module="SliceTrace"):
    """Histories recorded from the real code must be behaviours of the specification."""
    n = sum(1 for _ in open(path))
    r = tlc(module, TRACE_CFG, "trace-" + src, workers=4, env={"TRACE_FILE": path}, files=[path])
    acc = len(set(re.findall(r'^"A (\d+)"', open(r.out, errors="replace").read(), re.M)))
    rep.add("states", r.distinct)
    rep.add("transitions", r.transitions)
    rep.add("traces_validated_against_impl", acc)
    rep.add("recorded_histories", n)
    rejected = list(tlines(r.out, "R"))
    if rejected:
        lines = open(path).read().splitlines()
        groups = {}
        for x in rejected:
            t = json.loads(lines[x["tid"] - 1])
            st = t["st"][:x["i"]]
            num = lambda a: sum(b << k for k, b in enumerate(a)) if isinstance(a, list) else a
            ops = " ".join("%s(%d,%d)" % (e["o"], e["s"], num(e["a"])) for e in st)
            for w in x["wrong"]:
                cls = {"buf": "buf-late"}.get(w, w)
                if w == "res" and x["got"]["t"] == "panic":
                    cls = "panic"
                g = groups.setdefault((cls, x["op"], x["kind"], t["fam"], t["ty"]), [])
                g.append((ops, json.dumps({"expected one of": x["expected"], "got": x["got"]})[:1500]))
        for (cls, op, kind, fam, ty), xs in groups.items():
            xs.sort(key=lambda x: len(x[0]))
            rep.findings.append(Finding(src, cls, op, kind, fam, ty, xs[0][1], xs[0][0], len(xs), [x[0] for x in xs], replay=cmd + ["# history in", path]))
    if acc + len({x["tid"] for x in rejected}) < n:
        raise ToolError("trace validation of %s lost histories: %d accepted, %d rejected of %d" % (src, acc, len(rejected), n))


def do_drive(rep, name, types):
    d = P.DRIVE[name]
    bins = seq_bins()
    os.makedirs(os.path.join(BUILD, "traces"), exist_ok=True)
    def one(k):
        b = bins[k % 2]
        path = os.path.join(BUILD, "traces", "%s-%s-%d.ndjson" % (rep.pid, name, k))
        cmd = [b, "drive", "--traces", str(max(1, d["traces"] // 2)), "--ops", str(d["ops"]), "--slots", str(d["slots"]), "--seed", str(SEED * 10 + k),
               "--types", types, "--weights", d["weights"], "--lens", d["lens"], "--lgs", d["lgs"], "--out", path]
        rows, crash = run_harness(cmd, timeout=700)
        collect(rep, rows, crash, "drive-" + name, cmd)
        if not crash:
            validate(rep, path, "drive-%s-%d" % (name, k), cmd)
            if k == 0:
                l = json.loads(open(path).readline())
                rep.sample({"source": "recorded history validated by the specification (%s, %s, %s)" % (name, l["fam"], l["ty"]),
                            "ops": ["%s(%d,%d)->%s%s" % (e["o"], e["s"], e["a"], e["t"], e["v"]) for e in l["st"]][:40]})
    pmap(one, [0, 1], 2)


def do_huge(rep, name, types):
    """Slices of up to 2^64-1 zero-sized items."""
    h = P.HUGE[name]
    bins = seq_bins()
    os.makedirs(os.path.join(BUILD, "traces"), exist_ok=True)
    def one(k):
        path = os.path.join(BUILD, "traces", "%s-huge-%s-%d.ndjson" % (rep.pid, name, k))
        cmd = [bins[k % 2], "huge", "--traces", str(h["traces"]), "--ops", str(h["ops"]), "--slots", str(h["slots"]), "--seed", str(SEED * 10 + k),
               "--weights", h["weights"], "--out", path]
        rows, crash = run_harness(cmd)
        collect(rep, rows, crash, "huge-" + name, cmd)
        if not crash:
            validate(rep, path, "huge-%s-%d" % (name, k), cmd, "Huge")
    pmap(one, [0, 1], 2)


def seq_check(pid):
    rep = Report(pid)
    plan = P.PLAN[pid]
    types = plan.get("types", P.ALLT)
    dtypes = plan.get("types", "t8,zst,odd")
    seq_bins()
    jobs = [(do_gen, n, types) for n in plan.get("gen", [])] + [(do_walk, n, types) for n in plan.get("walk", [])] + \
           [(do_drive, n, dtypes) for n in plan.get("drive", [])] + [(do_cycle, n, "t8,odd,zst") for n in plan.get("cycle", [])] + \
           [(do_huge, n, types) for n in plan.get("huge", [])]
    pmap(lambda j: j[0](rep, j[1], j[2]), jobs, 4)
    rep.assumptions = ["single-threaded histories", "bounds of the explorations as listed in tools/profiles.py"]
    return rep


# ---------------------------------------------------------------- reporting

def known():
    """(property, signature) of the recorded findings."""
    res = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) (.*)", l.strip())
            if m:
                res.append((m.group(1), m.group(2)))
    return res


def finish(rep):
    pid = rep.pid
    rel = [f for f in rep.findings if getattr(f, "always", False) or relevant_any(pid, f)]
    other = [f for f in rep.findings if f not in rel]
    kn = [s for p, s in known() if p == pid]
    new = [f for f in rel if f.sig() not in kn]
    for s in kn:
        if any(f.sig() == s for f in rel):
            print("KNOWN-FINDING: property=%s %s" % (pid, s))
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": rep.level, "coverage": rep.cov, "assumptions": rep.assumptions,
          "wall_s": round(time.time() - rep.t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if other:
        log("note: %d other disagreement(s), not about %s: %s" % (len(other), pid, sorted({f.key() for f in other})[:8]))
    if not new:
        log("%s held on everything explored (%.1f s)" % (pid, ev["wall_s"]))
        return 0
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    new.sort(key=lambda f: (len(f.ops), f.key()))
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump([{"class": x.cls, "op": x.op, "kind": x.kind, "family": x.fam, "item type": x.ty, "detail": x.detail, "behaviour": x.ops,
                    "source": x.src, "seen": x.n, "signature": x.sig(), "rerun": x.replay} for x in new[:60]], f, indent=1)
    for x in new[:5]:
        log("  %s\n     %s\n     %s" % (x.key(), x.detail[:600], x.ops[:600]))
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1


def relevant_any(pid, f):
    if hasattr(f, "props"):
        return pid in f.props
    return pid not in SEQ or relevant(pid, f)


SEQ = set(P.PLAN)

_seq_note = ("Exhaustive within small bounds (every transition of the abstract machine up to the listed depth and sizes is replayed on the real "
             "code, both families, several item types, with and without debug assertions), sampled beyond them. Trusts TLC, the projection of "
             "the real state in harness/seq and that item types behave alike within a size/alignment/destructor class.")
CHECKS = {p: dict(technique="TLA+ abstract machine (spec/Slice.tla) checked by TLC; its transitions replayed on the real code, recorded histories "
                            "validated by TLC", note=_seq_note) for p in P.PLAN}
for p in ("P01", "P07", "P08", "P09", "P10", "P17"):
    CHECKS[p]["note"] += " Slices of up to 2^64-1 zero-sized items and 2^63 parts are covered by spec/Huge.tla (random histories validated by TLC)."


CHECKS.update({p: dict(
    technique="TLA+ specification of concurrent calls (spec/Calls.tla over spec/Slice.tla); histories of systematically explored interleavings of "
              "the real code are validated by TLC; TLA+ model of the counting protocol (spec/Protocol.tla) explored by TLC",
    note="Bounded: small programs (2-3 threads, 1-2 operations each, all pairs of single operations of 38 situations, samples of the rest), all schedules up to a "
         "preemption and stale-read bound plus random ones. The library is compiled unmodified against a scheduler-controlled core::sync::atomic and Arc; trusts "
         "that scheduler's memory model and the Arc of the harness.") for p in ("P11", "P12", "P13")})


CHECKS["P14"] = dict(
    technique="TLA+ specification of overlapping calls (spec/Calls.tla over spec/Slice.tla); histories of the real code in which destructors and clones of items "
              "panic or call back are validated by TLC",
    note="Every transition of the abstract machine (within bounds, sampled) that destroys or clones items is repeated on the real code with the first, middle or last "
         "of these items panicking and/or calling operations on other handles. After a panic, items may stay undestroyed, nothing else may differ.")


CHECKS["P15"] = dict(
    technique="TLA+ machine of two threads (spec/Threads.tla): TLC shows which capabilities of handles are safe and which are not; the real types' Send/Sync facts "
              "are validated against the table by TLC",
    note="Complete for the 12 handle types and all combinations of Send/Sync of the item type (29 item types). Trusts that rustc's trait solving does not distinguish "
         "item types otherwise.")
CHECKS["P16"] = dict(
    technique="TLA+ functions on the items shown and a machine of maps keyed by handles (spec/Views.tla): tests enumerated by TLC are replayed on the real code, "
              "recorded results are validated by TLC",
    note="Exhaustive for pairs of short buffers over three values (one incomparable), halved in all ways, also of one buffer; random up to 130 items. Item types: "
         "small own types, bytes, strings, zero-sized ones.")
CHECKS["P18"] = dict(
    technique="TLA+ machine of programs that use handles and the references they yield (spec/Borrows.tla): TLC enumerates the programs and their verdicts, which the "
              "compiler must give on the real signatures",
    note="All programs of up to 2 operations on a handle and what it yields (three tenths of those of 3; thorough: all), owned or behind a reference, with yielded references "
         "kept, dropped or returned. Trusts the compiler's borrow checker.")
CHECKS["P19"] = dict(
    technique="TLA+ abstract machine (spec/Slice.tla): behaviours TLC generates are executed on the real code inside an interpreter (Miri) that reports undefined "
              "behaviour, all handles a state has being used in all the ways the specification allows at the same time",
    note="A sample of the transitions of 17 explorations and of random behaviours, different for every seed; one execution each. Trusts Miri, with Tree Borrows as the "
         "aliasing model and permissive provenance.")


def main(pid):
    try:
        if pid in SEQ:
            rep = seq_check(pid)
        elif pid in ("P11", "P12", "P13"):
            import conc
            rep = Report(pid)
            conc.check(rep, Finding)
            if pid == "P11":
                import pure
                pure.races(rep, sys.modules[__name__])
        elif pid == "P14":
            import unwind
            rep = Report(pid)
            unwind.check(rep, sys.modules[__name__])
        elif pid in ("P15", "P16"):
            import facts
            rep = Report(pid)
            (facts.caps if pid == "P15" else facts.views)(rep, sys.modules[__name__])
        elif pid == "P18":
            import borrows
            rep = Report(pid)
            borrows.check(rep, sys.modules[__name__])
        elif pid == "P19":
            import pure
            rep = Report(pid)
            pure.check(rep, sys.modules[__name__])
        else:
            raise ToolError("no check for " + pid)
        return finish(rep)
    except ToolError as e:
        log("error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
