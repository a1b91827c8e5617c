------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Calls that overlap: calls of different threads, or calls made from      *)
(* inside another call (by the destructor or the clone of an item).        *)
(* Specified by the abstract machine of Slice: every call takes effect     *)
(* atomically at some moment between its call and its return               *)
(* (linearizability), with these allowances:                               *)
(*   - an owner that a step takes away may linger, as a ghost, while a     *)
(*     call that was in progress at that step (the one that takes it away, *)
(*     or another) has not returned: calls may hold references of their    *)
(*     own to what they work on, and let go of it part by part             *)
(*   - get_mut and into_mut may fail if another call overlaps them in time *)
(*   - a call that unwinds because the destructor of an item panics has    *)
(*     done its work, but may have forgotten items it should have          *)
(*     destroyed; one that unwinds because the clone of an item panics has *)
(*     had no effect (the clones it made are gone again, or forgotten);    *)
(*     one that skips items may have skipped any number of those that it   *)
(*     had to                                                              *)
(* When all these calls have returned, contents, destroyed items, buffers  *)
(* and all later (sequential) calls must agree with the machine exactly.   *)
(*                                                                         *)
(* A history is a record                                                   *)
(*   u     number of the setup (a sequence of operations done before)      *)
(*   o     the operations <<name, slot, argument, target slot, result,     *)
(*         value, contents of slot, contents of target, overlaps, thread>> *)
(*   e     calls (n) and returns (-n) of operation n, in order             *)
(*   q     h: handles when all have returned; d: items destroyed since the *)
(*         setup; b (optional): states of the buffers                      *)
(*   lim   (optional) items neither destroyed nor shown by a handle        *)
(*   z     (optional) zero-sized items: they are counted, not told apart   *)
(*   post  operations done afterwards, with results                        *)
(* Every history of the file is one initial state; "A n" is printed for an *)
(* accepted one ("E n" and "Q n" for the stages before that).              *)
(***************************************************************************)
EXTENDS Slice, Json, IOUtils

Setups == ndJsonDeserialize(IOEnv.SETUP_FILE)
Hist   == ndJsonDeserialize(IOEnv.TRACE_FILE)
Debug  == IOEnv.TRACE_DEBUG = "1"
NGhost == 2

SetupSt ==
    [u \in DOMAIN Setups |->
        FoldSeq(LAMBDA e, s : LET outs == ApplyAt(s, Op(e[1], e[2], e[3]), e[4])
                              IN IF Cardinality(outs) = 1 THEN (CHOOSE x \in outs : TRUE).st
                                 \* the machine leaves a choice: the setup says what was chosen
                                 ELSE (CHOOSE x \in outs : x.res.t = e[5]).st,
                InitSt(Setups[u].n + NGhost), Setups[u].ops)]

VARIABLES tid, i, st, d, pend, live, gh
vars == <<tid, i, st, d, pend, live, gh>>

Init == /\ tid \in 1..Len(Hist)
        /\ i = 0
        /\ st = SetupSt[Hist[tid].u]
        /\ d = {}
        /\ pend = {}
        /\ live = {}
        /\ gh = {}

N(h) == Setups[h.u].n
Cont(s2, s) == IF s = 0 THEN <<>> ELSE Shows(s2, s).c

Z(h) == "z" \in DOMAIN h
SumRuns(rs) == FoldSeq(LAMBDA r, acc : acc + r[2], 0, rs)
SameRuns(h, p, q) == IF Z(h) THEN SumRuns(p) = SumRuns(q) ELSE p = q
InRuns(id, rs) == \E k \in DOMAIN rs : rs[k][1] <= id /\ id < rs[k][1] + rs[k][2]
SetOf(rs) == {rs[k] : k \in DOMAIN rs}

\* a call that unwinds: x[6] = <<number of clones made>> or <<item whose destructor panicked>>
Unwound(s0, x) ==
    LET op == Op(x[1], x[2], x[3]) IN
    IF op.o = "clone"
    THEN {[st |-> [s0 EXCEPT !.nid = @ + x[6][1]], res |-> Res("unw", x[6]),
           d |-> IF x[6][1] = 0 THEN <<>> ELSE <<<<s0.nid, x[6][1]>>>>]}
    ELSE {[out EXCEPT !.res = Res("unw", x[6])] :
              out \in {y \in IF op.o \in {"nt", "nk"}
                             \* anywhere on its way, but past the item (or part) that panicked
                             THEN {Skip(s0, op.s, op.o = "nk", j) : j \in 1..Min2(op.a + 1, Remaining(s0.hs[op.s]))}
                             ELSE ApplyAt(s0, op, x[4]) : IF x[6][1] = 0 THEN y.d # <<>> ELSE InRuns(x[6][1], y.d)}}

\* outcomes of a call; ov: another call overlaps it
Outcomes(s0, x, ov) ==
    LET op == Op(x[1], x[2], x[3])
        all == IF x[1] = "rd" THEN {[st |-> s0, res |-> Res("ok", <<>>), d |-> <<>>]}
               ELSE IF x[5] = "unw" THEN Unwound(s0, x)
               ELSE ApplyAt(s0, op, x[4])
    IN all \cup (IF ov /\ x[1] \in {"gm", "im"}
                 THEN {[st |-> s0, res |-> Res(IF x[1] = "gm" THEN "none" ELSE "err", <<>>), d |-> <<>>]} ELSE {})

Fits(h, out, x) ==
    /\ out.res.t = x[5]
    /\ out.res.v = x[6] \/ (Z(h) /\ x[5] = "item")
    /\ SameRuns(h, Cont(out.st, x[2]), x[7])
    /\ SameRuns(h, Cont(out.st, x[4]), x[8])

Steps(h, n) == {out \in Outcomes(st, h.o[n], h.o[n][9]) : Fits(h, out, h.o[n])}

\* the owner that operation x takes away or shrinks
Loses(x) == x[1] \in {"drop", "cf", "sl", "sr", "nx", "nb", "nt", "nk", "ls", "cnt"}
HasWeak(t) == \E s \in DOMAIN st.hs : st.hs[s].k = "W" /\ st.hs[s].t = t
GhostSlots(h) == {g \in (N(h) + 1)..(N(h) + NGhost) : st.hs[g].k = "-"}

Accumulate(dd) == d \cup {dd[k] : k \in DOMAIN dd}

Linearize(h, n) ==
    LET x == h.o[n] IN
    \/ \E out \in Steps(h, n) :
          /\ st' = out.st
          /\ d' = Accumulate(out.d)
          /\ pend' = pend \ {n}
          /\ UNCHANGED <<tid, i, live, gh>>
    \/ /\ Loses(x)
       /\ GhostSlots(h) # {}
       /\ LET old == st.hs[x[2]] g == Min(GhostSlots(h)) IN
          /\ old.k \in {"S", "P"}
          /\ HasWeak(old.t)
          /\ \E y \in live :
             \E out \in Outcomes([st EXCEPT !.hs[g] = old], x, FALSE) :
                /\ Fits(h, out, x)
                /\ st' = out.st
                /\ d' = Accumulate(out.d)
                /\ pend' = pend \ {n}
                /\ gh' = gh \cup {<<g, y>>}
                /\ UNCHANGED <<tid, i, live>>

DropGhosts(gs, nd) ==      \* remove the ghosts gs
    LET r == FoldSet(LAMBDA g, acc : LET out == CHOOSE o \in ApplyAt(acc.st, Op("drop", g[1], 0), 0) : TRUE
                                     IN [st |-> out.st, d |-> acc.d \cup {out.d[k] : k \in DOMAIN out.d}],
                     [st |-> st, d |-> nd], gs)
    IN /\ st' = r.st
       /\ d' = r.d
       /\ gh' = gh \ gs

\* a ghost that stands for several parts loses some of them
Lessened(g) ==
    CASE g.k = "S" -> IF g.hi - g.lo < 2 THEN {}
                      ELSE {[g EXCEPT !.hi = Mid(g.lo, g.hi)], [g EXCEPT !.lo = Mid(g.lo, g.hi)]}
      [] g.k = "P" -> IF Exhausted(g) THEN {} ELSE {[g EXCEPT !.nf = @ + 1], [g EXCEPT !.nb = @ + 1]}
      [] OTHER -> {}
LessenGhost(g) ==
    \E l \in Lessened(st.hs[g[1]]) :
       LET out == Out(st, [st.hs EXCEPT ![g[1]] = l], Res("ok", <<>>))
       IN /\ st' = out.st
          /\ d' = Accumulate(out.d)
          /\ UNCHANGED gh

Return(n) ==
    /\ i' = i + 1
    /\ live' = live \ {n}
    /\ DropGhosts({g \in gh : g[2] = n}, d)
    /\ UNCHANGED <<tid, pend>>
    /\ Debug => PrintT("I " \o ToString(tid) \o " " \o ToString(i + 1))
    /\ (i + 1 = Len(Hist[tid].e)) => PrintT("E " \o ToString(tid))

Lim(h) == IF "lim" \in DOMAIN h THEN h.lim ELSE <<>>

Quiet(h) ==
    /\ \A s \in 1..N(h) : LET sh == Shows(st, s) IN
          h.q.h[s][1] = sh.k /\ SameRuns(h, h.q.h[s][2], sh.c) /\ h.q.h[s][3] = sh.y
    /\ IF Z(h) THEN SumRuns(SetToSeq(d)) = SumRuns(h.q.d) + SumRuns(Lim(h))
       ELSE MergeRuns(SetOf(h.q.d) \cup SetOf(Lim(h))) = MergeRuns(d)
    \* nothing is forgotten unless something panicked
    /\ Lim(h) # <<>> => \E n \in DOMAIN h.o : h.o[n][5] = "unw"
    /\ "b" \in DOMAIN h.q =>
          \A b \in DOMAIN st.bufs : LET bs == BufState(st, b) IN
             ~(bs = "L" /\ h.q.b[b] = "F") /\ ~(bs = "F" /\ h.q.b[b] = "L")

Next ==
    LET h == Hist[tid]
        ne == Len(h.e)
        np == Len(h.post)
    IN
    IF i < ne
    THEN IF h.e[i + 1] > 0
         THEN /\ pend' = pend \cup {h.e[i + 1]}
              /\ live' = live \cup {h.e[i + 1]}
              /\ i' = i + 1
              /\ UNCHANGED <<tid, st, d, gh>>
         ELSE LET n == -h.e[i + 1]
                  \* what still sees a ghost must do so before the ghost goes
                  early == n \in pend \/ (pend # {} /\ \E g \in gh : g[2] = n)
              IN \/ n \notin pend /\ Return(n)
                 \/ early /\ \E m \in pend : Linearize(h, m)
                 \/ early /\ \E g \in gh : (DropGhosts({g}, d) \/ LessenGhost(g)) /\ UNCHANGED <<tid, i, pend, live>>
    ELSE IF i = ne
    THEN /\ Quiet(h)
         /\ i' = i + 1
         /\ PrintT("Q " \o ToString(tid))
         /\ (np = 0 => PrintT("A " \o ToString(tid)))
         /\ UNCHANGED <<tid, st, d, pend, live, gh>>
    ELSE /\ i - ne <= np
         /\ LET x == h.post[i - ne] IN
            \E out \in Outcomes(st, x, FALSE) :
               /\ Fits(h, out, x)
               /\ SameRuns(h, out.d, x[9])
               /\ st' = out.st
         /\ i' = i + 1
         /\ (i - ne = np => PrintT("A " \o ToString(tid)))
         /\ (Debug => PrintT("I " \o ToString(tid) \o " " \o ToString(i + 1)))
         /\ UNCHANGED <<tid, d, pend, live, gh>>

InvOk == Exclusive(st) /\ WeakOk(st) /\ WellFormed(st)
=============================================================================
