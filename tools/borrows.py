"""P18: programs of spec/Borrows.tla against the compiler's verdict on the real signatures."""
import json, os, random, re, shutil, subprocess
from vlib import *

T = THOROUGH
TYPES = {"rc": dict(S="RcSlice", W="WeakSlice", M="RcSliceMut", I="RcSliceMutIter", P="RcSliceParts", Q="RcSliceMutParts"),
         "arc": dict(S="ArcSlice", W="WeakSlice", M="ArcSliceMut", I="ArcSliceMutIter", P="ArcSliceParts", Q="ArcSliceMutParts")}

# {p}: the place, {T}: the handle's type
CODE = {
    "assign": "{p} = any()", "drop": "drop({p})", "send": "give({p})", "debug": "show(&{p})", "eq": "{p} == any::<{T}<X>>()",
    "cmp": "{p}.cmp(&any())", "hash": "hashed(&{p})", "deref": "&*{p}", "as_ref": "AsRef::<[X]>::as_ref(&{p})", "borrow": "Borrow::<[X]>::borrow(&{p})",
    "get_mut": "{T}::get_mut(&mut {p}).unwrap()", "clone": "Clone::clone(&{p})", "clone_from": "Clone::clone_from(&mut {p}, &any())",
    "clone_left": "{T}::clone_left(&{p})", "clone_right": "{T}::clone_right(&{p})", "downgrade": "{T}::downgrade(&{p})",
    "split_off_left": "{T}::split_off_left(&mut {p})", "split_off_right": "{T}::split_off_right(&mut {p})",
    "into_mut": "{T}::into_mut({p}).ok().unwrap()", "try_into": "{M}::try_from({p}).ok().unwrap()", "split_into_parts": "{T}::split_into_parts({p}, 2)",
    "upgrade": "{p}.upgrade().unwrap()", "deref_mut": "&mut *{p}", "as_mut": "AsMut::<[X]>::as_mut(&mut {p})", "borrow_mut": "BorrowMut::<[X]>::borrow_mut(&mut {p})",
    "into_immut": "{T}::into_immut({p})", "into": "{S}::from({p})", "into_iter": "{p}.into_iter()",
    "next": "{p}.next().unwrap()", "next_back": "{p}.next_back().unwrap()", "nth": "{p}.nth(1).unwrap()", "len": "{p}.len()", "size_hint": "{p}.size_hint()",
    "count": "{p}.count()", "last": "{p}.last().unwrap()", "by_ref": "{p}.by_ref()", "as_slice": "{p}.as_slice()", "as_mut_slice": "{p}.as_mut_slice()",
    "split_off_from": "{p}.split_off_from(1)", "split_off_to": "{p}.split_off_to(1)",
}
# who has only a shared reference can only pass that: whether it is enough is for the library to say
LESS = {"get_mut", "split_off_left", "split_off_right"}

HEAD = """#![allow(warnings)]
extern crate alloc;
use rc_slice::%(fam)s::*;
use std::borrow::{Borrow, BorrowMut};
type X = String;
type B<'b> = &'b str;
struct N(*mut ());
fn any<T>() -> T { loop { } }
fn end<T>(_: T) { }
fn give<T: 'static>(_: T) { }
fn show<T: core::fmt::Debug>(_: &T) { }
fn hashed<T: core::hash::Hash>(_: &T) { }
struct D<'a>(&'a String);
impl<'a> Drop for D<'a> { fn drop(&mut self) { show(self.0); } }
"""


# operations that ask something of the item type
ASKS = {("debug", k) for k in "SMIPQ"} | {(o, k) for o in ("eq", "cmp", "hash") for k in "SM"} | {("clone", "M"), ("clone_from", "M")}
ITEMS = {"String": "X", "&str": "B<'b>", "no traits": "N"}


def applies(j, item):
    if j["ret"]["l"] in ("shorter", "longer", "before", "after"):
        return item == "String"
    return item != "no traits" or not any((o["op"], o["k"]) in ASKS for o in j["ops"])


def text(fam, j, n, item="String"):
    """One program as a function on one line."""
    t = text1(fam, j, n)
    if item != "String":
        t = re.sub(r"\bX\b", ITEMS[item], t)
        if item == "&str":
            t = t.replace("<'a>(", "<'a, 'b: 'a>(", 1).replace("give(", "drop(")
    return t


def text1(fam, j, n):
    ty = TYPES[fam]
    k, via, ret = j["k"], j["via"], j["ret"]
    if ret["l"] in ("shorter", "longer"):
        a, b = ("l", "s") if ret["l"] == "shorter" else ("s", "l")
        r = {"own": "", "ref": "&'r ", "mut": "&'r mut "}[via]
        return "fn f%d<'r, 's, 'l: 's>(v: %s%s<&'%s str>) -> %s%s<&'%s str> where 'l: 'r, 's: 'r { v }" % (n, r, ty[k], a, r, ty[k], b)
    if ret["l"] in ("before", "after"):
        mk = "fn mk<T>(_: T) -> %s<T> { any() }" % ty[k]
        s = "let s = String::new();"
        h = "let mut h = None;"
        return "fn f%d() { %s %s %s h = Some(mk(D(&s))); }" % (n, mk, *((s, h) if ret["l"] == "before" else (h, s)))
    body, ends, keeps, vals, nv = [], [], [], 0, 1
    for i, o in enumerate(j["ops"]):
        on = o["on"]
        place = "v1" if on == 1 and via == "own" else "(*v1)" if on == 1 else "v%d" % on
        c = subst(CODE[o["op"]].replace("&mut ", "&") if o["op"] in LESS and on == 1 and via == "ref" else CODE[o["op"]], place, ty, o["k"])
        if o["y"] in TYPES["rc"]:
            nv += 1
            body.append("let mut v%d: %s<X> = %s;" % (nv, ty[o["y"]], c))
        elif o["y"] == "none":
            body.append(c + ";")
        elif o["y"] == "val":
            body.append("let x%d = %s;" % (i, c))
            ends.append("end(x%d);" % i)
        elif o["keep"]:
            keeps.append(i)
            body.append("let r%d = %s;" % (i, c))
        else:
            body.append("{ let r = %s; }" % c)
    out = ""
    if ret["r"]:
        i = keeps.pop(ret["r"] - 1)
        life = "'a " if ret["l"] == "a" else "'static "
        o = j["ops"][i]
        what = ("mut " if o["y"] == "ex" else "") + (ty[o["k"]] + "<X>" if o["op"] == "by_ref" else "[X]")
        out = " -> &%s%s" % (life, what)
        body += ["end(r%d);" % x for x in keeps] + ends + ["r%d" % i]
    else:
        body += ends + ["end(r%d);" % x for x in keeps]
    arg = {"own": "mut v1: %s<X>", "ref": "v1: &'a %s<X>", "mut": "v1: &'a mut %s<X>"}[via] % ty[k]
    return "fn f%d<'a>(%s)%s { %s }" % (n, arg, out, " ".join(body))


def subst(c, place, ty, k):
    c = c.replace("{p}", place).replace("{T}", ty[k])
    for x in ty:
        c = c.replace("{%s}" % x, ty[x])
    return c


def library():
    """The library's metadata, compiled by cargo as a dependency would be."""
    d = os.path.join(BUILD, "borrows")
    shutil.rmtree(d, ignore_errors=True)
    env = dict(os.environ, CARGO_TARGET_DIR=d, CARGO_NET_OFFLINE="true")
    for x in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(x, None)
    r = subprocess.run(["cargo", "check", "--offline", "--message-format=json"], cwd=os.path.join(ROOT, "harness", "borrows"), env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("building harness borrows failed:\n%s" % r.stderr[-4000:])
    for l in r.stdout.splitlines():
        j = json.loads(l)
        if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "rc_slice":
            return d, j["filenames"][0]
    raise ToolError("no artifact of rc_slice")


def rejected(d, meta, name, fam, fns):
    """The numbers of the functions the compiler rejects, with its messages."""
    bad = {}
    for _ in range(8):
        path = os.path.join(d, name + ".rs")
        head = HEAD % {"fam": fam}
        first = head.count("\n") + 1
        here = [(n, t) for n, t in fns if n not in bad]
        with open(path, "w") as f:
            f.write(head + "".join(t + "\n" for _, t in here))
        r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "p_" + name, "--emit", "metadata", "--error-format", "json",
                            "--extern", "rc_slice=" + meta, "-o", path + ".rmeta", path], capture_output=True, text=True, errors="replace")
        if r.returncode == 0:
            os.unlink(path)
            return bad
        more = 0
        for l in r.stderr.splitlines():
            if not l.startswith("{"):
                continue
            j = json.loads(l)
            if j.get("level") != "error":
                continue
            for s in j.get("spans", []):
                i = s["line_start"] - first
                if s["is_primary"] and s["file_name"] == path and 0 <= i < len(here):
                    m = bad.setdefault(here[i][0], [])
                    m.append("%s %s" % ((j.get("code") or {}).get("code", ""), j["message"]))
                    more += 1
        if not more:
            raise ToolError("rustc failed on %s:\n%s" % (path, r.stderr[-2000:]))
    raise ToolError("rustc keeps finding errors in " + name)


def check(rep, runner):
    def gen(x):
        if x == "V":
            return tlc("Borrows", cfg_text({"Depth": 1, "Roots": {"S"}}, init="VInit", next_="VNext", invs=()), "borrows-v", workers=1)
        return tlc("Borrows", cfg_text({"Depth": 3, "Roots": {x}}, invs=("Sound",)), "borrows-" + x, workers=2, timeout=800)
    runs = pmap(gen, ["V", "S", "W", "M", "I", "P", "Q"], 4)
    rng = random.Random(SEED)
    progs = []
    for r in runs:
        rep.add("states", r.distinct)
        rep.add("transitions", r.transitions)
        for j in tlines(r.out, "B"):
            rep.add("programs_enumerated", 1)
            for item, part in (("String", 0.3), ("&str", 0.1), ("no traits", 0.1)):
                if (len(j["ops"]) < 3 or T or rng.random() < part) and applies(j, item):
                    progs.append((j, item))
    d, meta = library()
    jobs = []
    for fam in ("rc", "arc"):
        fns = [(n, text(fam, j, n, item)) for n, (j, item) in enumerate(progs)]
        rng.shuffle(fns)
        of = max(4, len(fns) // 6000)
        jobs += [("%s%d" % (fam, i), fam, fns[i::of]) for i in range(of)]
    def one(x):
        return x, rejected(d, meta, *x)
    groups, acc, rej = {}, 0, 0
    for (name, fam, fns), bad in pmap(one, jobs):
        src = dict(fns)
        for n in src:
            j, item = progs[n]
            if (n not in bad) == j["ok"]:
                rep.add("traces_validated_against_impl", 1)
                rep.add("accepted" if j["ok"] else "rejected", 1)
                continue
            o = j["ops"][-1] if j["ops"] else {"op": j["ret"]["l"], "on": 1, "k": j["k"]}
            ops = [x["op"] for x in j["ops"]]
            key = (fam, "rejected" if j["ok"] else "accepted", o["op"], o["k"], item)
            g = groups.setdefault(key, [])
            g.append((len(ops), src[n], "; ".join(bad.get(n, []))))
    for (fam, cls, op, k, item), xs in sorted(groups.items()):
        xs.sort()
        what = "a well-behaved program is rejected: %s" % xs[0][2] if cls == "rejected" else "a program that must be rejected is accepted"
        rep.findings.append(runner.Finding("borrows", cls, op, k, fam, item, what, xs[0][1], len(xs), replay=["rustc", xs[0][1]]))
    for n in range(0, len(progs), max(1, len(progs) // 10)):
        rep.sample({"source": "program, %s" % ("to accept" if progs[n][0]["ok"] else "to reject"), "program": text("rc", progs[n][0], n, progs[n][1])})
    rep.assumptions = ["programs of up to 2 operations on a handle and the handles it yields, all; of 3 operations, %s" % ("all" if T else "three tenths (less for other items than strings)"),
                       "items: strings, references, a type without any traits"]
    shutil.rmtree(d, ignore_errors=True)
