"""P14: destructors and clones of items that panic or call back, histories validated against spec/Calls.tla."""
import json, os, re, shutil
from vlib import *
import profiles as P

T = THOROUGH
TYPES = "t8,odd,big,zst"
# explorations whose transitions are run with misbehaving items: one in so many lines
FILES = {"excl": 1 if T else 3, "weak": 1 if T else 4, "assign": 1 if T else 6, "weakmut": 1 if T else 3, "all": 1 if T else 2, "mut": 1, "item": 1,
         "mparts": 1 if T else 2, "sparts": 1 if T else 3, "sparts2": 1 if T else 3,
         "itern": 1 if T else 2, "mpartsn": 1 if T else 3, "spartsn": 1 if T else 4}
LIMIT = 400000 if T else 36000


def op_text(o):
    return "%s(%d,%d)->%s%s" % (o[0], o[1], o[2], o[4], o[5])


def check(rep, runner):
    bins = runner.seq_bins()
    d = os.path.join(BUILD, "traces", "unwind-" + rep.pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)

    def explore(name):
        c = P.GEN[name]
        r = tlc("SliceGen", cfg_text(c, view="View"), "gen-" + name, workers=4)
        rep.add("transitions_of_the_machine", r.transitions)
        return name, r.out, c["NSlots"]
    jobs = []
    for name, out, slots in pmap(explore, list(FILES), 2):
        for b in bins:
            for i in range(2):
                h = os.path.join(d, "%s-%s-%d" % (name, "rel" if "release" in b else "dbg", i))
                jobs.append(([b, "unwind", "--file", out, "--slots", str(slots), "--types", TYPES, "--shard", str(i), "--of", "2", "--keep", str(FILES[name]),
                              "--seed", str(SEED), "--out", h], h, name))
    seen, setups = {}, {}
    for cmd, h, name, (rows, crash) in pmap(lambda j: (j[0], j[1], j[2], run_harness(j[0], timeout=700)), jobs):
        runner.collect(rep, rows, crash, "unwind-" + name, cmd)
        if os.path.exists(h):
            for l in open(h, errors="replace"):
                try:
                    j = json.loads(l)
                except ValueError:
                    continue      # cut off by a crash
                who = {k: j.pop(k) for k in ("fam", "ty", "line", "what")}
                s = (j.pop("s"), j.pop("n"))
                j["u"] = setups.setdefault(s, len(setups) + 1)
                if not j.pop("z"):
                    pass
                else:
                    j["z"] = True
                if not j["lim"]:
                    j.pop("lim")
                who["cmd"] = cmd
                seen.setdefault(json.dumps(j), who)
            os.unlink(h)
    hist = list(seen.items())
    rep.add("distinct_histories", len(hist))
    rep.add("with_a_panic", sum('"unw"' in h for h, _ in hist))
    rep.add("with_calls_from_inside", sum('[1, 2' in h for h, _ in hist))
    if len(hist) > LIMIT:
        hist = [hist[k * len(hist) // LIMIT] for k in range(LIMIT)]
    sf = os.path.join(d, "setups")
    with open(sf, "w") as f:
        for (s, n), _ in sorted(setups.items(), key=lambda x: x[1]):
            ops = [x.split(",") for x in s.split()]
            f.write(json.dumps({"n": n, "ops": [[o[0], int(o[1]), int(o[2]), int(o[3]), o[4]] for o in ops]}) + "\n")

    def run_tlc(tag, hs):
        # the setups of these histories only
        us, ns = {}, []
        path, sp = os.path.join(d, tag), os.path.join(d, tag + ".setups")
        with open(path, "w") as f:
            for h in hs:
                j = json.loads(h)
                j["u"] = us.setdefault(j["u"], len(us) + 1)
                f.write(json.dumps(j) + "\n")
        with open(sp, "w") as f:
            for u in us:
                f.write(all_setups[u - 1])
        r = tlc("Calls", cfg_text({}, invs=("InvOk",) if T else ()), "unwind-" + tag, workers=1, env={"TRACE_FILE": path, "SETUP_FILE": sp, "TRACE_DEBUG": "0"},
                files=[path, sp], timeout=3000 if T else 600, heap="3g", cache=False)
        st = {}
        for l in open(r.out, errors="replace"):
            m = re.match(r'"([AEQ]) (\d+)"', l)
            if m:
                st.setdefault(int(m.group(2)), set()).add(m.group(1))
        os.unlink(r.out)
        return r, st
    all_setups = open(sf).readlines()
    chunks = [hist[i * len(hist) // CPUS:(i + 1) * len(hist) // CPUS] for i in range(CPUS)]
    rejected = []
    for c, (r, st) in zip(chunks, pmap(lambda i: run_tlc("c%d" % i, [h for h, _ in chunks[i]]), range(len(chunks)))):
        rep.add("states", r.distinct)
        rep.add("transitions", r.transitions)
        rep.add("traces_validated_against_impl", sum("A" in s for s in st.values()))
        rejected += [(h, w, st.get(n, set())) for n, (h, w) in enumerate(c, 1) if "A" not in st.get(n, ())]
    rep.add("histories_rejected", len(rejected))
    for h, w in hist[:: max(1, len(hist) // 8)][:8]:
        j = json.loads(h)
        rep.sample({"source": "history with misbehaving items (%s, %s)" % (w["fam"], w["ty"]), "behaviour": w["what"], "calls": [op_text(o) for o in j["o"]],
                    "order of calls (n) and returns (-n)": j["e"]})
    groups = {}
    for h, w, st in rejected:
        j = json.loads(h)
        stage = "afterwards" if "Q" in st else "state" if "E" in st else "result"
        groups.setdefault((stage, j["o"][0][0], w["fam"]), []).append((w, h))
    for (stage, op, fam), xs in groups.items():
        xs.sort(key=lambda x: len(x[0]["what"]))
        w, h = xs[0]
        rep.findings.append(runner.Finding("unwind", stage, op, "-", fam, w["ty"], "no behaviour of the specification: " + h[:1200], w["what"], len(xs),
                                           [x[0]["what"] for x in xs[:50]], replay=w["cmd"] + ["--only", str(w["line"])]))
    rep.assumptions = ["items whose destructor or clone panics once per history, or calls one or two operations on other handles",
                       "every transition of the explorations %s that destroys or clones items, sampled as in tools/unwind.py" % ", ".join(FILES)]
