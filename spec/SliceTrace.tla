----------------------------- MODULE SliceTrace -----------------------------
(***************************************************************************)
(* Validates histories recorded from the real code against the abstract    *)
(* machine.  Every history of the file is one initial state; a history is  *)
(* accepted when every logged operation is a step the machine allows with  *)
(* the logged result, destroyed items, contents of every handle and state  *)
(* of every buffer.  Prints "A <n>" for each accepted history and          *)
(* "R <n> <step> ..." where a history cannot be continued.                 *)
(***************************************************************************)
EXTENDS Slice, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, i, st
vars == <<tid, i, st>>

Zst(t) == t.ty \in {"zst", "zst32", "zplain"}

SumRuns(rs) == FoldSeq(LAMBDA r, acc : acc + r[2], 0, rs)

MatchRes(t, e, out) ==
    /\ out.res.t = e.t
    /\ (Zst(t) /\ e.t = "item") \/ out.res.v = e.v
MatchD(t, e, out) ==
    \/ e.zd = -1
    \/ IF Zst(t) THEN SumRuns(out.d) = e.zd ELSE out.d = e.d
MatchH(t, e, out) ==
    \A s \in DOMAIN out.st.hs :
        LET sh == Shows(out.st, s) IN
        /\ e.h[s].k = sh.k
        /\ e.h[s].y = sh.y
        /\ IF Zst(t) THEN SumRuns(e.h[s].c) = SumRuns(sh.c) ELSE e.h[s].c = sh.c
MatchB(t, e, out) ==
    \A b \in DOMAIN out.st.bufs :
        LET bs == BufState(out.st, b) IN
        ~(bs = "L" /\ e.b[b] = "F") /\ ~(bs = "F" /\ e.b[b] = "L")

Match(t, e, out) == MatchRes(t, e, out) /\ MatchD(t, e, out) /\ MatchH(t, e, out) /\ MatchB(t, e, out)

\* what is wrong with an outcome, as a set of class names
Wrong(t, e, out) ==
    IF ~MatchRes(t, e, out) THEN {"res"}
    ELSE (IF MatchD(t, e, out) THEN {} ELSE {"d"}) \cup (IF MatchH(t, e, out) THEN {} ELSE {"c"})
         \cup (IF MatchB(t, e, out) THEN {} ELSE {"buf"})

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ st = InitSt(Traces[tid].n)

OpOf(e) == Op(e.o, e.s, e.a)

Next ==
    LET t == Traces[tid] IN
    IF i = Len(t.st) THEN FALSE
    ELSE LET e == t.st[i + 1] IN
         /\ Assert(CanApply(st, OpOf(e)), <<"driver logged an impossible operation", tid, i, e>>)
         /\ LET outs == Apply(st, OpOf(e))
                good == {o \in outs : Match(t, e, o)}
            IN IF good = {}
               THEN /\ PrintT("R " \o ToJson([tid |-> tid, i |-> i + 1,
                              wrong |-> UNION {Wrong(t, e, o) : o \in outs},
                              kind |-> IF e.s > 0 THEN st.hs[e.s].k ELSE "-", op |-> e.o,
                              expected |-> {[res |-> o.res, d |-> o.d, ob |-> Obs(o.st)] : o \in outs}, got |-> e]))
                    /\ FALSE
               ELSE /\ \E o \in good : st' = o.st
                    /\ i' = i + 1
                    /\ tid' = tid
                    /\ (i' = Len(t.st)) => PrintT("A " \o ToString(tid))

InvOk == Exclusive(st) /\ Laminar(st) /\ WeakOk(st) /\ WellFormed(st)
=============================================================================
