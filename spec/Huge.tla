-------------------------------- MODULE Huge --------------------------------
(***************************************************************************)
(* Slices of astronomically many (zero-sized) items: how many items every  *)
(* handle shows and how many parts an iterator has left, with numbers of   *)
(* any size.  Numbers are sequences of binary digits, the least            *)
(* significant first and without leading zeros.  Validates recorded        *)
(* histories like SliceTrace.  Whether get_mut and into_mut succeed is     *)
(* left open here (see Slice).                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Json, IOUtils

-----------------------------------------------------------------------------
(* Big numbers *)

RECURSIVE Trim(_)
Trim(a) == IF a = <<>> \/ a[Len(a)] = 1 THEN a ELSE Trim(SubSeq(a, 1, Len(a) - 1))
Digit(a, i) == IF i \in DOMAIN a THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) < Len(b) THEN Len(b) ELSE Len(a)

RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, i, c) ==
    IF i > MaxLen(a, b) THEN IF c = 0 THEN <<>> ELSE <<c>>
    ELSE LET x == Digit(a, i) + Digit(b, i) + c IN <<x % 2>> \o AddFrom(a, b, i + 1, x \div 2)
Add(a, b) == AddFrom(a, b, 1, 0)

RECURSIVE SubFrom(_, _, _, _)
SubFrom(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET x == a[i] - Digit(b, i) - c IN <<IF x < 0 THEN x + 2 ELSE x>> \o SubFrom(a, b, i + 1, IF x < 0 THEN 1 ELSE 0)
Sub(a, b) == Trim(SubFrom(a, b, 1, 0))

\* a < b
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessAt(a, b, Len(a))

Floor2(a) == IF a = <<>> THEN a ELSE Tail(a)                  \* floor(a / 2)
Ceil2(a)  == IF a = <<>> THEN a ELSE IF a[1] = 1 THEN Add(Tail(a), <<1>>) ELSE Tail(a)
Pow2(k) == [i \in 1..(k + 1) |-> IF i = k + 1 THEN 1 ELSE 0]
One == <<1>>
RECURSIVE Small(_)
Small(n) == IF n = 0 THEN <<>> ELSE <<n % 2>> \o Small(n \div 2)

\* sanity of the arithmetic, against the integers
ASSUME \A x, y \in 0..20 : /\ Add(Small(x), Small(y)) = Small(x + y)
                           /\ x >= y => Sub(Small(x), Small(y)) = Small(x - y)
                           /\ Less(Small(x), Small(y)) <=> x < y
                           /\ Floor2(Small(x)) = Small(x \div 2) /\ Ceil2(Small(x)) = Small((x + 1) \div 2)
ASSUME \A k \in 0..10 : Pow2(k) = Small(2 ^ k)

-----------------------------------------------------------------------------
(* Handles: [k, n, lg, nf, nb]; n items in all (of parts iterators: of the slice that was split into 2^lg
   parts, nf and nb of which were yielded) *)

None == [k |-> "-", n |-> <<>>, lg |-> 0, nf |-> 0, nb |-> 0]
Mk(k, n) == [None EXCEPT !.k = k, !.n = n]

BitOf(i, b) == IF b > 29 THEN 0 ELSE (i \div (2 ^ b)) % 2

\* items of the part number i (small) from the front / from the back, of 2^lg parts of n items:
\* its number in binary says which halves to take
RECURSIVE PartSize(_, _, _, _)
PartSize(n, lg, i, back) ==
    IF lg = 0 THEN n
    ELSE PartSize(IF (BitOf(i, lg - 1) = 1) # back THEN Ceil2(n) ELSE Floor2(n), lg - 1, i, back)

PartsLeft(h) == Sub(Pow2(h.lg), Small(h.nf + h.nb))
Exhausted(h) == PartsLeft(h) = <<>>

RECURSIVE SumParts(_, _, _)
SumParts(h, i, back) == IF i = 0 THEN <<>> ELSE Add(PartSize(h.n, h.lg, i - 1, back), SumParts(h, i - 1, back))

Items(h) ==
    IF h.k \in {"P", "Q"}
    THEN IF Exhausted(h) THEN <<>> ELSE Sub(Sub(h.n, SumParts(h, h.nf, FALSE)), SumParts(h, h.nb, TRUE))
    ELSE h.n
Left(h) == CASE h.k \in {"P", "Q"} -> PartsLeft(h)
             [] h.k = "I" -> h.n
             [] OTHER -> <<>>

\* all parts together are the whole (small instances)
ASSUME \A n \in 0..9, lg \in 0..3 :
          LET h == [Mk("P", Small(n)) EXCEPT !.lg = lg] IN
          /\ SumParts(h, 2 ^ lg, FALSE) = Small(n) /\ SumParts(h, 2 ^ lg, TRUE) = Small(n)
          /\ \A i \in 0..(2 ^ lg - 1) : PartSize(Small(n), lg, i, FALSE) = PartSize(Small(n), lg, 2 ^ lg - 1 - i, TRUE)

Free(hs) == {s \in DOMAIN hs : hs[s].k = "-"}
FirstFree(hs) == CHOOSE s \in Free(hs) : \A x \in Free(hs) : s <= x

Out(hs, t, v) == [hs |-> hs, t |-> t, v |-> v]

Apply(hs, o, s, a) ==
    LET h == hs[s] f == FirstFree(hs)
        half(n, left) == IF left THEN Floor2(n) ELSE Ceil2(n)
    IN CASE o = "new"  -> {Out([hs EXCEPT ![f] = Mk("S", a)], "h", <<f>>)}
         [] o = "newm" -> {Out([hs EXCEPT ![f] = Mk("M", a)], "h", <<f>>)}
         [] o = "cl" -> {Out([hs EXCEPT ![f] = Mk("S", Floor2(h.n))], "h", <<f>>)}
         [] o = "cr" -> {Out([hs EXCEPT ![f] = Mk("S", Ceil2(h.n))], "h", <<f>>)}
         [] o = "clone" -> {Out([hs EXCEPT ![f] = h], "h", <<f>>)}
         [] o = "sl" -> {Out([hs EXCEPT ![f] = Mk(h.k, Floor2(h.n)), ![s] = Mk(h.k, Ceil2(h.n))], "h", <<f>>)}
         [] o = "sr" -> {Out([hs EXCEPT ![f] = Mk(h.k, Ceil2(h.n)), ![s] = Mk(h.k, Floor2(h.n))], "h", <<f>>)}
         [] o = "gm" -> {Out(hs, "some", <<>>), Out(hs, "none", <<>>)}
         [] o = "im" -> {Out([hs EXCEPT ![s].k = "M"], "ok", <<>>), Out(hs, "err", <<>>)}
         [] o = "fz" -> {Out([hs EXCEPT ![s].k = "S"], "ok", <<>>)}
         [] o = "it" -> {Out([hs EXCEPT ![s].k = "I"], "ok", <<>>)}
         [] o = "pt" -> {Out([hs EXCEPT ![s] = [h EXCEPT !.k = IF h.k = "S" THEN "P" ELSE "Q", !.lg = Len(a) - 1]], "ok", <<>>)}
         [] o = "drop" -> {Out([hs EXCEPT ![s] = None], "ok", <<>>)}
         [] o \in {"nx", "nb"} /\ h.k = "I" ->
                IF h.n = <<>> THEN {Out(hs, "none", <<>>)} ELSE {Out([hs EXCEPT ![s].n = Sub(h.n, One)], "item", <<>>)}
         [] o \in {"nx", "nb"} ->
                IF Exhausted(h) THEN {Out(hs, "none", <<>>)}
                ELSE LET back == o = "nb"
                         p == PartSize(h.n, h.lg, IF back THEN h.nb ELSE h.nf, back)
                     IN {Out([hs EXCEPT ![f] = Mk(IF h.k = "P" THEN "S" ELSE "M", p),
                                        ![s] = IF back THEN [h EXCEPT !.nb = @ + 1] ELSE [h EXCEPT !.nf = @ + 1]], "h", <<f>>)}
         [] o \in {"sf", "st"} ->
                IF Less(h.n, a) THEN {Out(hs, "panic", <<>>)}
                ELSE {Out([hs EXCEPT ![f] = Mk("I", IF o = "sf" THEN Sub(h.n, a) ELSE a),
                                     ![s] = Mk("I", IF o = "sf" THEN a ELSE Sub(h.n, a))], "h", <<f>>)}

-----------------------------------------------------------------------------
Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES tid, i, hs
vars == <<tid, i, hs>>

Init == tid \in 1..Len(Traces) /\ i = 0 /\ hs = [s \in 1..Traces[tid].n |-> None]

MatchRes(e, out) == out.t = e.t /\ out.v = e.v
MatchH(e, out) == \A s \in DOMAIN out.hs : e.h[s] = <<out.hs[s].k, Items(out.hs[s]), Left(out.hs[s])>>

Next ==
    LET t == Traces[tid] IN
    /\ i < Len(t.st)
    /\ LET e == t.st[i + 1]
           outs == Apply(hs, e.o, e.s, e.a)
           good == {o \in outs : MatchRes(e, o) /\ MatchH(e, o)}
       IN IF good = {}
          THEN /\ PrintT("R " \o ToJson([tid |-> tid, i |-> i + 1, kind |-> e.k, op |-> e.o,
                            wrong |-> UNION {IF MatchRes(e, o) THEN {"c"} ELSE {"res"} : o \in outs},
                            expected |-> {[t |-> o.t, v |-> o.v, h |-> [s \in DOMAIN o.hs |-> <<o.hs[s].k, Items(o.hs[s]), Left(o.hs[s])>>]] : o \in outs},
                            got |-> e]))
               /\ FALSE
          ELSE /\ \E o \in good : hs' = o.hs
               /\ i' = i + 1 /\ tid' = tid
               /\ (i' = Len(t.st)) => PrintT("A " \o ToString(tid))

\* what is left of an iterator never exceeds what it began with
InvOk == \A s \in DOMAIN hs : ~Less(hs[s].n, Items(hs[s]))
=============================================================================
