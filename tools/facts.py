"""P15: Send/Sync facts against spec/Threads.tla.  P16: views of handles against spec/Views.tla."""
import json, os, re, shutil
from vlib import *

T = THOROUGH
VIEW_CONSTS = {"MaxLen": 3, "MaxSame": 5 if T else 4, "MaxPath": 2 if T else 1, "Depth": 4 if T else 3}


def bins():
    return [os.path.join(d, "facts") for d in pmap(lambda r: cargo("facts", r), [False, True], 1)]


def judge(path, module, consts, init, next_, tag, workers=2):
    """TLC's verdict on each line of a file: the numbers (from 1) of accepted and rejected ones."""
    r = tlc(module, cfg_text(consts, init=init, next_=next_, invs=()), tag, workers=workers, env={"TRACE_FILE": path, "FACTS": path}, files=[path], cache=False)
    ok, bad = set(), set()
    for l in open(r.out, errors="replace"):
        m = re.match(r'"([AR]) (\d+)"', l)
        if m:
            (ok if m.group(1) == "A" else bad).add(int(m.group(2)))
    os.unlink(r.out)
    return r, ok, bad


def caps(rep, runner):
    d = os.path.join(BUILD, "traces", "caps")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    # the required table is sound, and no larger one is (arc)
    def table():
        r = tlc("Threads", cfg_text({"Num": 4 if T else 3}, invs=("Sound",)), "threads", workers=4, timeout=3000)
        return r, {tuple(x) for x in tlines(r.out, "V")}
    def real():
        b = bins()[0]
        rows, crash = run_harness([b, "caps"])
        facts = [x for x in rows if "fam" in x]
        path = os.path.join(d, "facts")
        with open(path, "w") as f:
            for x in facts:
                f.write(json.dumps(x) + "\n")
        return (b, rows, crash, facts) + judge(path, "Threads", {"Num": 1}, "FInit", "FNext", "caps")
    (r, worse), (b, rows, crash, facts, rf, ok, bad) = [j() for j in (table, real)]
    rep.add("states", r.distinct)
    rep.add("transitions", r.transitions)
    # every entry of the arc table that is FALSE must be needed
    need = {("arc", s, y, k, t) for s in (0, 1) for y in (0, 1) for k in "SWPMIQ" for t in ("Send", "Sync")
            if not (s and y if k in "SWP" else s if t == "Send" else y)}
    if need - worse:
        raise ToolError("the specification does not show that these entries are needed: %s" % sorted(need - worse))
    rep.add("entries_shown_necessary", len(need))
    runner.collect(rep, [], crash, "caps", [b, "caps"])
    for n, x in enumerate(facts, 1):
        if n in bad or n not in ok:
            rep.findings.append(runner.Finding(
                "caps", "caps", x["trait"], x["k"], x["fam"], x["item"],
                "with items %s (Send: %s, Sync: %s) the handle is%s %s" % (x["item"], x["send"], x["sync"], "" if x["holds"] else " not", x["trait"]),
                "%s of %s items" % (x["k"], x["item"]), replay=[b, "caps"]))
    rep.add("traces_validated_against_impl", len(ok))
    rep.add("facts", len(facts))
    for x in facts[::max(1, len(facts) // 10)][:10]:
        rep.sample(x)
    rep.assumptions = ["Send and Sync of a handle depend on the item type only through the item type's Send and Sync"]


def views(rep, runner):
    d = os.path.join(BUILD, "traces", "views")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    bs = bins()

    def gen(which):
        r = tlc("Views", cfg_text(VIEW_CONSTS, init="Init" + which, next_="Next" + which, invs=("LawsOk",) if which == "Pairs" else ()), "views-" + which, workers=3)
        return which, r
    jobs = []
    for which, r in pmap(gen, ["Pairs", "Make", "Iter", "Map"]):
        rep.add("states", r.distinct)
        rep.add("transitions", r.transitions)
        n = 0
        for pre, name in (("T", "tests of pairs"), ("N", "tests of construction"), ("I", "tests of printing iterators"), ("M", "behaviours of maps")):
            for j in tlines(r.out, pre):
                n += 1
                if n in (7, 4000):
                    rep.sample({"source": name, "test": j})
        rep.add("tests_" + which.lower(), n)
        rep.add("traces_validated_against_impl", n)
        of = 4 if which == "Pairs" else 2
        jobs += [([b, "views", "--file", r.out, "--shard", str(i), "--of", str(of)], which) for b in bs for i in range(of)]
    num = 6000 if T else 600
    recs = []
    for bi, b in enumerate(bs):
        for s in range(4):
            o = os.path.join(d, "rec-%d-%d" % (bi, s))
            recs.append(o)
            jobs.append(([b, "record", "--out", o, "--num", str(num), "--seed", str(SEED * 8 + bi * 4 + s)], "record"))
    for cmd, which, (rows, crash) in pmap(lambda j: (j[0], j[1], run_harness(j[0], timeout=700)), jobs):
        runner.collect(rep, rows, crash, "views-" + which, cmd)
    def one(o):
        return o, judge(o, "Views", VIEW_CONSTS, "InitTrace", "NextTrace", "views-" + os.path.basename(o), 1)
    for o, (r, ok, bad) in pmap(one, [o for o in recs if os.path.exists(o)]):
        rep.add("recorded_pairs_validated", len(ok))
        rep.add("traces_validated_against_impl", len(ok))
        lines = open(o).readlines()
        for n in sorted(set(range(1, len(lines) + 1)) - ok)[:20]:
            j = json.loads(lines[n - 1])
            rep.findings.append(runner.Finding("views-recorded", "view", "recorded", "-", j["fam"], "-", "not what the specification gives: " + lines[n - 1][:1500],
                                               json.dumps(j["t"])[:400], replay=o))
    rep.assumptions = ["buffers of up to %(MaxLen)d (both the same: %(MaxSame)d) items of three values, halved up to %(MaxPath)d times, exhaustively" % VIEW_CONSTS,
                       "recorded: random pairs of up to 130 items, halved up to 3 times"]
