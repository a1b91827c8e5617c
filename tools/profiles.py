"""Bounds of the exhaustive explorations, random behaviours and driven histories of the sequential machine."""
from vlib import THOROUGH

ALLT = "t8,big,odd,byte,zst,zst32,plain,zplain"

def gen(ops, lens, depth, slots=4, bufs=1, setup=("new",), sdepth=1, logs=(0,), bad=(0,), pos=(0,), ghost=True, prov=False, skips=(0, 1, 2, 9), trail=()):
    return dict(NSlots=slots, MaxBufs=bufs, MaxDepth=depth, Lens=list(lens), OpNames=list(ops), SetupOps=list(setup),
                SetupDepth=sdepth, PartLogs=list(logs), BadParts=list(bad), Positions=list(pos), Skips=list(skips), Ghost=ghost, Prov=prov, Trail=list(trail), Emit=True)

T = THOROUGH
SHARE = ["clone", "cl", "cr", "sl", "sr", "drop"]

# exhaustive: every transition within the bounds is replayed on the real code
GEN = {
    "share": gen(SHARE, [0, 1, 2, 3, 5, 8] + ([9, 16, 17] if T else []), 7 if T else 6),
    "excl": gen(SHARE[:3] + ["drop", "gm", "im", "fz", "dg", "up"], [0, 1, 2, 3] + ([4, 5] if T else []), 8 if T else 7),
    "weak": gen(SHARE + ["dg", "up"], [0, 1, 2, 3] + ([4, 5] if T else []), 8 if T else 7),
    "revive": gen(["cl", "cr", "dg", "up", "drop", "im", "gm"], [3] + ([4] if T else []), 10 if T else 9, prov=True),
    "weakmut": gen(["clone", "cl", "cr", "drop", "dg", "up", "im", "fz", "it", "nx"], [1, 2] + ([3, 4] if T else []), 8 if T else 7),
    "gm": gen(["clone", "cl", "cr", "sl", "dg", "up", "gm", "drop", "pt", "nx"], [1, 2, 3] + ([4, 5] if T else []), 7 if T else 6, logs=[1, 2]),
    "im": gen(["cl", "cr", "sl", "clone", "im", "fz", "drop", "pt", "nx", "dg", "up"], [1, 2, 3] + ([4] if T else []), 7 if T else 6, logs=[1]),
    "mut": gen(["cp", "sl", "sr", "clone", "set", "fz", "im", "drop"], [0, 1, 2, 3, 5] + ([8] if T else []), 7 if T else 6, bufs=2, setup=("new", "newm"), pos=(0, 1)),
    "item": gen(["it", "nx", "nb", "sf", "st", "set", "drop", "cnt", "sl"], [0, 1, 2, 3] + ([4, 5] if T else []), 8 if T else 7, setup=("newm",)),
    "sparts": gen(["pt", "bp", "nx", "nb", "clone", "drop", "cnt"], [0, 1, 2, 3, 5] + ([7, 8, 9] if T else []), 8 if T else 6,
                  slots=6, logs=[0, 1, 2, 3], bad=[0, 3, 6], ghost=False),
    "sparts2": gen(["pt", "nx", "nb", "clone", "drop", "cl", "dg", "up", "im"], [1, 2, 3, 4] + ([5] if T else []), 7 if T else 6, logs=[1, 2]),
    "mparts": gen(["pt", "bp", "nx", "nb", "drop", "set", "cnt", "fz"], [0, 1, 2, 3, 5] + ([7, 8, 9] if T else []), 8 if T else 6,
                  slots=6, logs=[0, 1, 2, 3], bad=[0, 3, 6], setup=("newm",), ghost=False),
    "itern": gen(["it", "nx", "nb", "nt", "nk", "ls", "sf", "drop"], [0, 1, 2, 4] + ([5, 8] if T else []), 7 if T else 6, setup=("newm",), skips=(0, 1, 2, 3, 9)),
    "spartsn": gen(["pt", "nx", "nb", "nt", "nk", "ls", "clone", "cl", "drop"], [0, 1, 3, 5] + ([8] if T else []), 7 if T else 5, logs=[0, 1, 2, 3],
                   skips=(0, 1, 2, 3, 9), ghost=False),
    "mpartsn": gen(["pt", "nx", "nb", "nt", "nk", "ls", "drop"], [0, 1, 3, 5] + ([8] if T else []), 7 if T else 6, setup=("newm",), logs=[0, 1, 2, 3],
                   skips=(0, 1, 2, 3, 9), ghost=False),
    "assign": gen(["clone", "cl", "cr", "cf", "dg", "up", "drop"] + (["im", "sl"] if T else []), [1, 2, 3] + ([0, 4] if T else []), 7 if T else 6,
                  bufs=2, sdepth=2),
    "reassign": gen(["cl", "cr", "dg", "cf", "up", "drop", "gm"] + (["im"] if T else []), [3] + ([4] if T else []), 14 if T else 13, trail=["W"], ghost=False),
    "reassign2": gen(["cl", "cr", "dg", "cf", "up", "drop", "gm", "im"], [3] + ([4] if T else []), 9 if T else 8, trail=["S"], ghost=False),
    "passign": gen(["pt", "cf", "nx", "nb", "clone", "drop"] + (["cl", "dg"] if T else []), [1, 3, 4] + ([8] if T else []), 7 if T else 6, logs=[1, 2], ghost=False),
    "all": gen(["clone", "cl", "cr", "sl", "sr", "drop", "gm", "im", "fz", "dg", "up", "pt", "nx", "nb", "it", "sf", "st", "set", "cnt", "wn"],
               [2, 3] + ([0, 1, 4] if T else []), 6 if T else 5, setup=("new", "newm"), logs=[1, 2], slots=4),
}

WALL = ["cp", "clone", "cf", "cl", "cr", "sl", "sr", "drop", "gm", "im", "fz", "dg", "up", "pt", "nx", "nb", "it", "sf", "st", "set", "cnt", "wn", "bp"]

def walk(ops, lens, depth, slots, bufs, sdepth=100000, logs=(0, 1, 2, 3), setup=("new", "newm"), pos=(0, 1, 3), num=150):
    g = gen(ops, lens, depth, slots, bufs, setup, sdepth, logs, [0, 3], pos, False)
    g["Emit"] = False
    return g, num * (8 if T else 1)

# random behaviours of the specification, replayed on the real code
WALK = {
    "mix": walk(WALL, [1, 2, 3, 4, 7, 8, 16], 60, 7, 2),
    "small": walk(["clone", "cf", "cl", "cr", "drop", "gm", "im", "fz", "dg", "up", "sl", "sr"], [2, 3, 4], 50, 5, 1, sdepth=1, num=300),
    "weaks": walk(["clone", "cf", "cl", "cr", "drop", "gm", "dg", "up", "dg", "im", "fz", "pt", "nx"], [4, 6, 8], 60, 8, 1, sdepth=1, num=200),
    "iters": walk(["it", "nx", "nb", "nt", "nk", "ls", "sf", "st", "set", "drop", "cnt", "sl", "sr", "clone"], [4, 9, 16], 50, 6, 2, num=200),
    "parts": walk(["pt", "nx", "nb", "nt", "nk", "ls", "clone", "cf", "drop", "cl", "dg", "up", "im", "fz", "set", "cnt", "gm"], [3, 8, 13, 16], 50, 8, 2, num=120),
    "cyc": walk(["clone", "cf", "cl", "cr", "drop", "gm", "im", "fz", "dg", "up", "sl", "sr", "pt", "nx", "nb", "it"], [2, 3, 4], 40, 4, 1, sdepth=1, logs=(1, 2), num=600),
}

# histories of the real code driven at random, validated by the specification
def drv(weights, lens, lgs, slots=8, ops=60, traces=30):
    return dict(weights=weights, lens=lens, lgs=lgs, slots=slots, ops=ops, traces=traces * (10 if T else 1))

MIXW = ("new:3,cp:1,newm:3,wn:1,clone:4,cf:2,cl:5,cr:5,sl:3,sr:3,drop:8,gm:4,im:4,fz:4,dg:4,up:4,pt:3,nx:5,nb:5,nt:1,nk:1,ls:1,it:2,sf:2,st:2,set:3,cnt:1,bp:1")
DRIVE = {
    "mix": drv(MIXW, "0,1,2,3,5,8,16,33", "0,1,2,3,4", slots=9, ops=70),
    "big": drv(MIXW, "100,1000,4096,2500", "0,1,3,6,10,12", slots=9, ops=70, traces=20),
    "deep": drv("new:3,clone:3,cf:1,cl:9,cr:9,drop:7,gm:3,im:3,fz:3,dg:4,up:4,sl:3,sr:3", "4096,1023,65537", "0", slots=10, ops=90, traces=20),
    "huge": drv("new:2,newm:2,pt:5,nx:9,nb:9,clone:3,drop:5,im:2,fz:2,it:1,dg:1,up:1,gm:1", "0,1,2,5,17", "20,31,40,62,63", slots=9, ops=60, traces=20),
    "iter": drv("newm:3,it:4,nx:9,nb:9,nt:2,nk:2,ls:1,sf:3,st:3,set:3,drop:5,sl:2,sr:2,clone:2,cnt:1", "0,1,7,64,300", "0", slots=8, ops=90, traces=20),
    "parts": drv("new:3,newm:3,pt:5,nx:9,nb:9,nt:2,nk:2,ls:1,clone:4,cf:2,drop:6,set:3,cnt:1,cl:2,fz:2,im:2,bp:1", "0,1,3,8,100,1000", "0,1,2,3,5,8", slots=9, ops=80, traces=20),
}

# histories of slices of up to 2^64-1 zero-sized items, validated by spec/Huge.tla
def huge(weights, slots=6, ops=45, traces=30):
    return dict(weights=weights, slots=slots, ops=ops, traces=traces * (10 if T else 1))

HUGE = {
    "share": huge("new:2,cl:5,cr:5,sl:4,sr:4,clone:3,drop:6,im:2,fz:2,gm:1"),
    "mut": huge("newm:2,sl:5,sr:5,fz:2,im:2,drop:5,it:1"),
    "item": huge("newm:2,it:3,nx:5,nb:5,sf:5,st:5,drop:5"),
    "parts": huge("new:2,pt:3,nx:8,nb:8,clone:2,drop:6,cl:2"),
    "mparts": huge("newm:2,pt:3,nx:8,nb:8,sl:2,drop:6"),
    "mix": huge("new:2,newm:2,pt:3,nx:8,nb:8,clone:2,drop:7,cl:2,cr:2,sl:2,sr:2,it:2,sf:2,st:2,im:2,fz:2,gm:1"),
}

# which explorations decide which property
PLAN = {
    "P01": dict(gen=["share", "excl", "assign", "all"], walk=["mix", "small"], drive=["mix", "big", "deep"], huge=["share"]),
    "P02": dict(gen=["excl", "assign", "all", "item", "itern", "mparts", "mut", "sparts"], walk=["mix", "iters", "parts"], drive=["mix", "iter", "parts"]),
    "P03": dict(gen=["excl", "weak", "all", "mut", "item", "sparts"], walk=["mix", "weaks"], drive=["mix"], cycle=["cyc"]),
    "P04": dict(gen=["excl", "gm", "revive", "reassign", "reassign2"], walk=["small", "weaks"], drive=["mix", "deep"]),
    "P05": dict(gen=["excl", "im", "weakmut", "revive", "reassign2"], walk=["small", "parts"], drive=["mix", "deep"]),
    "P06": dict(gen=["weak", "weakmut", "sparts2", "assign", "reassign", "revive"], walk=["weaks", "small"], drive=["mix", "deep"]),
    "P07": dict(gen=["mut", "excl", "all"], walk=["mix", "iters"], drive=["mix", "big"], huge=["mut"]),
    "P08": dict(gen=["item", "itern"], walk=["iters"], drive=["iter"], huge=["item"]),
    "P09": dict(gen=["sparts", "sparts2", "spartsn", "passign"], walk=["parts"], drive=["parts", "huge"], huge=["parts"]),
    "P10": dict(gen=["mparts", "mpartsn"], walk=["parts"], drive=["parts", "huge"], huge=["mparts"]),
    "P17": dict(gen=["all", "excl", "item", "mparts", "sparts"], walk=["mix"], drive=["mix", "huge"], huge=["mix"], types="big,odd,zst,zst32,zplain"),
}
