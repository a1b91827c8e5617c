"""Generates the small concurrent programs the interleavings of which are explored (harness/conc)."""
import itertools, random

# name: (items, setup operations, roles).  A role is what one thread owns: S shared slice, W weak
# reference, P parts iterator, M mutable slice, R shared slice also used by others (through & only),
# V weak reference also used by others.
SETUPS = {
    "root":      (4, "new,0,{n},1", [["R1"], ["R1"]]),
    "root3":     (4, "new,0,{n},1", [["R1"], ["R1"], ["R1"]]),
    "rootw":     (4, "new,0,{n},1 dg,1,0,2", [["S1"], ["W2"]]),
    "rootww":    (4, "new,0,{n},1 dg,1,0,2 dg,1,0,3", [["S1"], ["W2"], ["W3"]]),
    "rootv":     (4, "new,0,{n},1 dg,1,0,2", [["S1"], ["V2"], ["V2"]]),
    "twins":     (4, "new,0,{n},1 clone,1,0,2", [["S1"], ["S2"]]),
    "twinsw":    (4, "new,0,{n},1 clone,1,0,2 dg,1,0,3", [["S1"], ["S2"], ["W3"]]),
    "left":      (4, "new,0,{n},1 cl,1,0,2", [["S1"], ["S2"]]),
    "right":     (4, "new,0,{n},1 cr,1,0,2", [["S1"], ["S2"]]),
    "halves":    (4, "new,0,{n},1 sl,1,0,2", [["S1"], ["S2"]]),
    "halvesr":   (4, "new,0,{n},1 cl,1,0,2 cr,1,0,3", [["S2"], ["S3"], ["S1"]]),
    "leftw":     (4, "new,0,{n},1 cl,1,0,2 dg,2,0,3 drop,2,0,0", [["S1"], ["W3"]]),
    "leftww":    (4, "new,0,{n},1 cl,1,0,2 dg,2,0,3 dg,1,0,4 drop,2,0,0", [["S1"], ["W3"], ["W4"]]),
    "leftlw":    (4, "new,0,{n},1 cl,1,0,2 dg,2,0,3", [["S1"], ["S2"], ["W3"]]),
    "leftrw":    (4, "new,0,{n},1 cl,1,0,2 dg,1,0,3", [["S1"], ["S2"], ["W3"]]),
    "orphan":    (4, "new,0,{n},1 cl,1,0,2 dg,1,0,3 drop,1,0,0", [["S2"], ["W3"]]),
    "orphanw":   (4, "new,0,{n},1 cl,1,0,2 dg,2,0,3 drop,1,0,0", [["S2"], ["W3"]]),
    "orphans":   (4, "new,0,{n},1 cl,1,0,2 cr,1,0,3 dg,1,0,4 drop,1,0,0", [["S2"], ["S3"], ["W4"]]),
    "grand":     (4, "new,0,{n},1 cl,1,0,2 cr,2,0,3 drop,2,0,0", [["S1"], ["S3"]]),
    "grandw":    (4, "new,0,{n},1 cl,1,0,2 cr,2,0,3 dg,3,0,4 drop,2,0,0 drop,3,0,0", [["S1"], ["W4"]]),
    "grandmid":  (4, "new,0,{n},1 cl,1,0,2 cr,2,0,3 dg,3,0,4 drop,3,0,0 drop,1,0,0", [["S2"], ["W4"]]),
    "midw":      (4, "new,0,{n},1 cl,1,0,2 cr,2,0,3 dg,2,0,4 drop,2,0,0", [["S1"], ["S3"], ["W4"]]),
    "bothw":     (4, "new,0,{n},1 cl,1,0,2 cr,1,0,3 dg,2,0,4 dg,3,0,5 drop,2,0,0 drop,3,0,0", [["S1"], ["W4"], ["W5"]]),
    "own":       (4, "new,0,{n},1 dg,1,0,2 cl,1,0,3 dg,3,0,4", [["S1", "W4"], ["S3", "W2"]]),
    "parts":     (4, "new,0,{n},1 cl,1,0,2 pt,1,1,0", [["P1"], ["S2"]]),
    "partsw":    (4, "new,0,{n},1 cl,1,0,2 dg,2,0,3 drop,2,0,0 pt,1,1,0", [["P1"], ["W3"]]),
    "partsrw":   (4, "new,0,{n},1 dg,1,0,3 pt,1,2,0", [["P1"], ["W3"]]),
    "mut":       (4, "newm,0,{n},1 sl,1,0,2", [["M1"], ["M2"]]),
    "mutparts":  (4, "newm,0,{n},1 pt,1,1,0 nx,1,0,2", [["Q1"], ["M2"]]),
    "refroz":    (4, "newm,0,{n},1 sl,1,0,2 fz,1,0,0 dg,1,0,3", [["S1"], ["M2"], ["W3"]]),
    "rootR":     (4, "new,0,{n},1 cl,1,0,2 dg,2,0,3 drop,2,0,0", [["R1"], ["V3"]]),
    "leftR":     (4, "new,0,{n},1 cl,1,0,2", [["R1"], ["S2"]]),
    "leftRw":    (4, "new,0,{n},1 cl,1,0,2 dg,2,0,3", [["R1"], ["S2"], ["W3"]]),
    "one":       (1, "new,0,{n},1 cl,1,0,2 cr,1,0,3", [["S1"], ["S3"], ["S2"]]),
    "onew":      (1, "new,0,{n},1 dg,1,0,2", [["S1"], ["W2"]]),
    "two":       (2, "new,0,{n},1 cl,1,0,2 cr,1,0,3 dg,3,0,4", [["S1"], ["S2"], ["W4"]]),
    "empty":     (0, "new,0,{n},1 dg,1,0,2", [["S1"], ["W2"]]),
    "three":     (3, "new,0,{n},1 cr,1,0,2 dg,2,0,3", [["S1"], ["S2"], ["W3"]]),
    "deep":      (8, "new,0,{n},1 cl,1,0,2 cl,2,0,3 cr,3,0,4 dg,4,0,5 drop,2,0,0 drop,3,0,0", [["S1"], ["S4"], ["W5"]]),
}

# scripts for what a thread owns: x is its slot, f g its free slots; y a second slot it owns
ONE = {
    "S": ["drop,x,0,0", "gm,x,0,0", "im,x,0,0", "clone,x,0,f", "cl,x,0,f", "cr,x,0,f", "sl,x,0,f", "sr,x,0,f", "dg,x,0,f", "pt,x,1,0"],
    "W": ["up,x,0,f", "drop,x,0,0", "clone,x,0,f"],
    "R": ["clone,x,0,f", "cl,x,0,f", "cr,x,0,f", "dg,x,0,f"],
    "V": ["up,x,0,f", "clone,x,0,f"],
    "P": ["nx,x,0,f", "nb,x,0,f", "clone,x,0,f", "drop,x,0,0"],
    "M": ["fz,x,0,0", "drop,x,0,0", "sl,x,0,f", "it,x,0,0"],
    "Q": ["nx,x,0,f", "drop,x,0,0"],
}
TWO = {
    "S": ["gm,x,0,0 gm,x,0,0", "gm,x,0,0 drop,x,0,0", "gm,x,0,0 im,x,0,0", "im,x,0,0 fz,x,0,0", "im,x,0,0 drop,x,0,0", "im,x,0,0 im,x,0,0",
          "clone,x,0,f drop,f,0,0", "clone,x,0,f drop,x,0,0", "clone,x,0,f gm,x,0,0", "cl,x,0,f drop,f,0,0", "cl,x,0,f drop,x,0,0",
          "cl,x,0,f gm,f,0,0", "cl,x,0,f im,f,0,0", "cr,x,0,f drop,x,0,0", "cl,x,0,f cr,x,0,g", "sl,x,0,f drop,f,0,0", "sl,x,0,f drop,x,0,0",
          "sl,x,0,f gm,f,0,0", "sl,x,0,f im,f,0,0", "sl,x,0,f im,x,0,0", "sr,x,0,f gm,x,0,0", "sl,x,0,f cr,f,0,g",
          "dg,x,0,f drop,x,0,0", "dg,x,0,f drop,f,0,0", "dg,x,0,f up,f,0,g", "dg,x,0,f gm,x,0,0", "dg,x,0,f im,x,0,0",
          "cl,x,0,f dg,f,0,g", "pt,x,1,0 nx,x,0,f", "pt,x,2,0 nb,x,0,f", "pt,x,1,0 drop,x,0,0", "gm,x,0,0 cl,x,0,f", "im,x,0,0 sl,x,0,f"],
    "W": ["up,x,0,f drop,f,0,0", "up,x,0,f gm,f,0,0", "up,x,0,f im,f,0,0", "up,x,0,f up,x,0,g", "up,x,0,f cl,f,0,g", "up,x,0,f drop,x,0,0",
          "up,x,0,f dg,f,0,g", "up,x,0,f sl,f,0,g", "up,x,0,f cr,f,0,g"],
    "R": ["clone,x,0,f drop,f,0,0", "cl,x,0,f drop,f,0,0", "cl,x,0,f gm,f,0,0", "cl,x,0,f im,f,0,0", "cr,x,0,f im,f,0,0", "dg,x,0,f drop,f,0,0",
          "cl,x,0,f dg,f,0,g", "dg,x,0,f up,f,0,g", "cl,x,0,f cl,f,0,g", "cr,x,0,f cl,x,0,g"],
    "V": ["up,x,0,f drop,f,0,0", "up,x,0,f gm,f,0,0", "up,x,0,f im,f,0,0", "up,x,0,f cl,f,0,g"],
    "P": ["nx,x,0,f nx,x,0,g", "nx,x,0,f drop,f,0,0", "nx,x,0,f drop,x,0,0", "nx,x,0,f im,f,0,0", "nx,x,0,f gm,f,0,0", "clone,x,0,f drop,x,0,0",
          "nb,x,0,f im,f,0,0"],
    "M": ["fz,x,0,0 dg,x,0,f", "it,x,0,0 nx,x,0,0", "it,x,0,0 drop,x,0,0", "fz,x,0,0 cl,x,0,f"],
    "Q": ["nx,x,0,f fz,f,0,0", "nx,x,0,f drop,x,0,0"],
}


def put(script, x, f, g):
    return " ".join(",".join({"x": str(x), "f": str(f), "g": str(g)}.get(p, p) for p in o.split(",")) for o in script.split())


def scripts(role, f, g, two):
    """All scripts of a thread with the given role."""
    res = []
    for r in role:
        for s in (TWO if two else ONE)[r[0]]:
            res.append(put(s, int(r[1:]), f, g))
    if len(role) == 2 and two:
        a, b = role
        for s in ONE[a[0]]:
            for t in ONE[b[0]]:
                res.append(put(s, int(a[1:]), f, g) + " " + put(t, int(b[1:]), g, f))
                res.append(put(t, int(b[1:]), f, g) + " " + put(s, int(a[1:]), g, f))
    return res


def post(nset, nth, weak, rnd):
    """What is done when the threads have ended (operations that do not apply are skipped)."""
    last = nset + 2 * nth
    aux = last + 1
    k = rnd.randrange(5)
    slots = list(range(1, last + 1))
    # 0: get_mut of everything as it is; 1: without weak references; 2: also alone; 3: conversions; 4: one after the other goes
    ops = []
    if k >= 1:
        ops += ["drop,%d,0,0" % s for s in weak]
    if k >= 2:
        keep = rnd.choice(slots)
        ops += ["drop,%d,0,0" % s for s in slots if s != keep and rnd.random() < 0.7]
    if k == 4:
        way = slots if rnd.random() < 0.6 else slots[::-1]
        for i, s in enumerate(way):
            ops += ["gm,%d,0,0" % x for x in way[i:]] + ["drop,%d,0,0" % s]
        return " ".join(ops)
    ops += ["%s,%d,0,0" % ("im" if k == 3 else "gm", s) for s in slots]
    if k == 0:
        ops += ["up,%d,0,%d drop,%d,0,0" % (s, aux, aux) for s in weak]
    if k == 1:
        ops += ["dg,1,0,%d up,%d,0,%d" % (aux, aux, aux + 1)]
    return " ".join(ops)


def rank(pid, ths, rnd):
    """How soon a program is taken, for the check of property pid (lower is sooner)."""
    nm = [[o.split(",")[0] for o in t.split()] for t in ths]
    ops = [o for t in nm for o in t]
    excl = [t for t in nm if "gm" in t or "im" in t]
    lone = any(len(t) == 1 for t in excl)
    shape = tuple(sorted(len(t) for t in nm))
    r = rnd.random()
    if shape == (1, 1):
        return 0 if pid not in ("P12", "P13") or excl else r
    if pid == "P12":
        # one exclusive attempt against every script of another thread first
        if shape == (1, 2):
            return r if lone else r + 1 if excl else r + 3
        return r * 1.6 if excl and len(set(ops) & {"dg", "up"}) and shape != (1, 1, 1) else r * 2 + 0.3 if excl else r + 3
    if pid == "P13":
        # attempts that disturb each other, and what is left afterwards
        if len([o for o in ops if o in ("gm", "im")]) >= 2:
            return r
        return r * 1.5 + 0.1 if excl else r * 2 + 0.5
    if pid == "P11":
        lone = any(t in (["drop"], ["up"]) for t in nm)
        return r if lone and shape == (1, 2) else r * 2 if "drop" in ops or "up" in ops else r * 2.5 + 0.3
    return r


def programs(seed, number, pid=None):
    """Lines for the harness, the most relevant ones first, and how many there are in all."""
    rnd = random.Random(seed)
    pool = []

    def line(name, n, setup, ths, nset):
        weak = [int(o.split(",")[3]) for o in setup.split() if o.startswith("dg")] + list(range(nset + 1, nset + 1 + 2 * len(ths)))
        def isweak(s):
            return any(o.startswith("dg") and o.endswith(",%d" % s) for o in (setup + " " + " ".join(ths)).split()) or \
                any(o.startswith("clone,%d," % w) and o.endswith(",%d" % s) for w in weak for o in " ".join(ths).split()
                    if any(q.startswith("dg") and q.endswith(",%d" % w) for q in setup.split()))
        weak = [s for s in weak if isweak(s)]
        return "%d;%s;%s;@%s" % (nset + 2 * len(ths) + 2, setup.format(n=n), ";".join(ths), post(nset, len(ths), weak, rnd))

    for name, (n, setup, roles) in sorted(SETUPS.items()):
        nset = max(int(o.split(",")[3]) for o in setup.split())
        k = len(roles)
        # pairs of threads
        for a, b in itertools.combinations(range(k), 2):
            fr = [(nset + 1, nset + 2), (nset + 3, nset + 4)]
            a1, b1 = scripts(roles[a], *fr[0], False), scripts(roles[b], *fr[1], False)
            a2, b2 = scripts(roles[a], *fr[0], True), scripts(roles[b], *fr[1], True)
            same = roles[a] == roles[b]
            for i, x in enumerate(a1):
                for j, y in enumerate(b1):
                    if not same or i <= j:
                        pool.append((name, n, setup, [x, y], nset))
            for x, y in list(itertools.product(a1, b2)) + list(itertools.product(a2, b1)) + list(itertools.product(a2, b2)):
                pool.append((name, n, setup, [x, y], nset))
        if k >= 3:
            fr = [(nset + 1, nset + 2), (nset + 3, nset + 4), (nset + 5, nset + 6)]
            for t in itertools.product(*[scripts(roles[q], *fr[q], False) for q in range(3)]):
                pool.append((name, n, setup, list(t), nset))
    ranked = sorted((rank(pid, p[3], rnd), i) for i, p in enumerate(pool))
    out = [pool[i] for _, i in ranked[:number]]
    return ["p%d;%s" % (i, line(*p)) for i, p in enumerate(out)], len(pool)


if __name__ == "__main__":
    import sys
    ls, c = programs(int(sys.argv[1]), int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else None)
    print("\n".join(ls))
    print("of", c, file=sys.stderr)
