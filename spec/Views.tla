------------------------------- MODULE Views -------------------------------
(***************************************************************************)
(* What comparing, hashing, printing, borrowing and making handles has to  *)
(* give, as functions of the items shown; and a map keyed by handles.      *)
(*                                                                         *)
(* A view is <<buffer, path>>: a slice of these items, halved along the    *)
(* path ("l" left half, "r" right half).  Item 9 is like NaN in the        *)
(* partially ordered item type: not equal to and not comparable with       *)
(* anything, itself included.  In the totally ordered type it is ordinary. *)
(*                                                                         *)
(* InitPairs/NextPairs, InitMake/NextMake: all tests of a size, printed as *)
(* "T {..}" with the expected results.                                     *)
(* InitIter/NextIter: all states of iterators that steps from both ends    *)
(* lead to, printed as "I {..}" with what they show.                       *)
(* InitMap/NextMap: all behaviours of a map with handles as keys, looked   *)
(* up by plain slices, printed as "M {..}".                                *)
(* InitTrace/NextTrace: results recorded from the real code (TRACE_FILE)   *)
(* are accepted ("A n") or rejected ("R n").                               *)
(***************************************************************************)
EXTENDS Slice, Json, IOUtils

CONSTANTS MaxLen,   \* longest buffer of a pair
          MaxSame,  \* longest buffer that both handles show parts of
          MaxPath,  \* longest path
          Depth     \* operations on the map

VARIABLES v, done
vars == <<v, done>>

-----------------------------------------------------------------------------
(* The functions *)
Vals == {1, 2, 9}
NaN == 9

RECURSIVE Window(_, _)
Window(r, path) == IF path = <<>> THEN r
                   ELSE Window(IF path[1] = "l" THEN LeftOf(r) ELSE RightOf(r), Tail(path))
Win(buf, path) == LET w == Window(<<0, Len(buf)>>, path) IN IF w[1] = w[2] THEN <<0, 0>> ELSE w
Shown(buf, path) == LET w == Win(buf, path) IN SubSeq(buf, w[1] + 1, w[2])

\* partially ordered items
ItemEq(x, y) == x # NaN /\ x = y
ItemCmp(x, y) == IF x = NaN \/ y = NaN THEN "none" ELSE IF x < y THEN "lt" ELSE IF x > y THEN "gt" ELSE "eq"
\* equality between items of two different types: x of one equals x + 1 of the other
ItemEqHet(x, y) == x # NaN /\ x + 1 = y

EqBy(E(_, _), a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : E(a[i], b[i])
\* lexicographic: the first pair that is not equal decides, then the length
CmpBy(C(_, _), a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        d == {i \in 1..n : C(a[i], b[i]) # "eq"}
    IN IF d # {} THEN LET i == CHOOSE i \in d : \A j \in d : i <= j IN C(a[i], b[i])
       ELSE IF Len(a) < Len(b) THEN "lt" ELSE IF Len(a) > Len(b) THEN "gt" ELSE "eq"
TotCmp(x, y) == IF x < y THEN "lt" ELSE IF x > y THEN "gt" ELSE "eq"
TotEq(x, y) == x = y

Eq(a, b)    == EqBy(ItemEq, a, b)
Het(a, b)   == EqBy(ItemEqHet, a, b)
PCmp(a, b)  == CmpBy(ItemCmp, a, b)
Cmp(a, b)   == CmpBy(TotCmp, a, b)
TEq(a, b)   == EqBy(TotEq, a, b)

\* what is fed to a hasher: the length, then the items one by one, or all at once
\* if the item type says so (-1 marks the end of such a run)
HashEach(a) == <<Len(a)>> \o a
HashBulk(a) == <<Len(a)>> \o a \o <<-1>>

RECURSIVE Join(_, _, _)
Join(ss, sep, i) == IF i > Len(ss) THEN "" ELSE (IF i = 1 THEN "" ELSE sep) \o ss[i] \o Join(ss, sep, i + 1)
RECURSIVE Wrap(_, _, _, _)
Wrap(ss, pre, post, i) == IF i > Len(ss) THEN "" ELSE pre \o ss[i] \o post \o Wrap(ss, pre, post, i + 1)
Strs(a) == [i \in 1..Len(a) |-> ToString(a[i])]
Pads(a) == [i \in 1..Len(a) |-> "00" \o ToString(a[i])]     \* width 3, zeros: all items are one digit
Dbg(a)  == "[" \o Join(Strs(a), ", ", 1) \o "]"
DbgW(a) == "[" \o Join(Pads(a), ", ", 1) \o "]"
\* {:#?}; every item that spans lines is indented
DbgA(a) == IF a = <<>> THEN "[]" ELSE "[|" \o Wrap(Strs(a), "    ", ",|", 1) \o "]"      \* | stands for a new line
DbgS(a) == IF a = <<>> THEN "[]" ELSE "[|" \o Wrap(Strs(a), "    Some(|        ", ",|    ),|", 1) \o "]"  \* of Some(item)

Is(c, s) == c \in s
Expect(a, b) ==
    LET p == PCmp(a, b) IN
    [eq |-> Eq(a, b), ne |-> ~Eq(a, b), het |-> Het(a, b), pc |-> p,
     ops |-> <<Is(p, {"lt"}), Is(p, {"lt", "eq"}), Is(p, {"gt"}), Is(p, {"gt", "eq"})>>,
     teq |-> TEq(a, b), cmp |-> Cmp(a, b)]
ExpectOne(a) == [each |-> HashEach(a), bulk |-> HashBulk(a), d |-> Dbg(a), dw |-> DbgW(a), da |-> DbgA(a), ds |-> DbgS(a)]

-----------------------------------------------------------------------------
(* Laws the functions must satisfy themselves *)
Laws(a, b) ==
    /\ TEq(a, b) <=> Cmp(a, b) = "eq"
    /\ TEq(a, b) => HashEach(a) = HashEach(b) /\ HashBulk(a) = HashBulk(b)
    /\ (Cmp(a, b) = "lt") <=> (Cmp(b, a) = "gt")
    /\ Eq(a, b) <=> PCmp(a, b) = "eq"
    /\ PCmp(a, b) # "none" => PCmp(a, b) = Cmp(a, b)
    /\ Eq(a, b) = Eq(b, a)

Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Paths == Seqs({"l", "r"}, MaxPath)

Pair(x, y, same) == [a |-> [buf |-> x[1], p |-> x[2]], b |-> [buf |-> y[1], p |-> y[2]], same |-> same]
Views == {<<buf, p>> : buf \in Seqs(Vals, MaxLen), p \in Paths}
\* halving a buffer too short for it shows nothing new
Useful(x) == \A n \in 1..Len(x[2]) : LET w == Win(x[1], SubSeq(x[2], 1, n - 1)) IN w[2] - w[1] > 1
InitPairs == /\ done = FALSE
             /\ \/ \E x \in {y \in Views : Useful(y)}, y \in {z \in Views : Useful(z)} : v = Pair(x, y, FALSE)
                \/ \E buf \in Seqs(Vals, MaxSame), p \in Paths, q \in Paths :
                      Useful(<<buf, p>>) /\ Useful(<<buf, q>>) /\ v = Pair(<<buf, p>>, <<buf, q>>, TRUE)

ShowA(t) == Shown(t.a.buf, t.a.p)
ShowB(t) == Shown(t.b.buf, t.b.p)
NextPairs ==
    /\ ~done
    /\ done' = TRUE /\ UNCHANGED v
    /\ PrintT("T " \o ToJson([t |-> v, e |-> Expect(ShowA(v), ShowB(v)), r |-> Expect(ShowB(v), ShowA(v)), o |-> ExpectOne(ShowA(v)),
                              w |-> Win(v.a.buf, v.a.p)]))
LawsOk == "a" \in DOMAIN v => Laws(ShowA(v), ShowB(v))

-----------------------------------------------------------------------------
(* Making handles from vectors, boxes, iterators *)
Ways == {"vec", "vec1", "vec5", "box", "iter", "nohint", "low", "high", "wild", "refs", "mut", "rest", "filter", "chain", "flat", "again", "onto-less", "onto-same", "onto-more"}
\* Long ones: item i is i * 7 % 251 (written as their length only)
Long == {64, 255, 256, 1000, 1023, 1024, 1025, 4097, 70000}
\* iterators that panic instead of giving item k: no handle, the items given so far are destroyed
InitMake == /\ done = FALSE
            /\ \/ \E buf \in Seqs({1, 2}, MaxSame) : \/ \E w \in Ways : v = [way |-> w, buf |-> buf, long |-> 0, k |-> 0]
                                                      \/ \E k \in 1..Len(buf) : v = [way |-> "panic", buf |-> buf, long |-> 0, k |-> k]
               \/ \E n \in Long : \/ \E w \in Ways : v = [way |-> w, buf |-> <<>>, long |-> n, k |-> 0]
                                  \/ \E k \in {1, n \div 2, n} : v = [way |-> "panic", buf |-> <<>>, long |-> n, k |-> k]
NextMake ==
    /\ ~done
    /\ done' = TRUE /\ UNCHANGED v
    /\ PrintT("N " \o ToJson([t |-> v, shows |-> IF v.way = "panic" THEN <<>> ELSE v.buf, long |-> IF v.way = "panic" THEN 0 ELSE v.long, gone |-> IF v.way = "panic" THEN v.k - 1 ELSE 0]))

-----------------------------------------------------------------------------
(* Printing iterators: the number of parts that remain (parts iterators only), then the items.  Items are 11, 12, .. *)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
InitIter == /\ done = FALSE
            /\ \E n \in 0..MaxSame + 2, s \in Seqs({"f", "b"}, MaxSame) :
                  \/ v = [k |-> "I", n |-> n, lg |-> 0, steps |-> s]
                  \/ \E k \in {"P", "Q"}, lg \in 0..3 : v = [k |-> k, n |-> n, lg |-> lg, steps |-> s]
\* steps beyond the end change nothing
RECURSIVE Walk(_, _, _)
Walk(h, s, i) == IF i > Len(s) \/ Exhausted(h) THEN h
                 ELSE Walk(IF s[i] = "f" THEN [h EXCEPT !.nf = @ + 1] ELSE [h EXCEPT !.nb = @ + 1], s, i + 1)
Left(t) == LET f == Count(t.steps, "f") b == Count(t.steps, "b")
               h == Walk([H("P", 1, 1, 0, t.n) EXCEPT !.lg = t.lg], t.steps, 1)
           IN IF t.k = "I" THEN [parts |-> -1, r |-> IF f + b >= t.n THEN <<0, 0>> ELSE <<f, t.n - b>>]
              ELSE [parts |-> NumParts(t.lg) - h.nf - h.nb, r |-> RangeOf(h)]
NextIter ==
    /\ ~done
    /\ done' = TRUE /\ UNCHANGED v
    /\ LET x == Left(v) IN
       PrintT("I " \o ToJson([t |-> v, nums |-> (IF v.k = "I" THEN <<>> ELSE <<x.parts>>) \o [i \in 1..x.r[2] - x.r[1] |-> 10 + x.r[1] + i]]))

-----------------------------------------------------------------------------
(* A map keyed by handles: a function from contents to values *)
MapKeys == Seqs({1, 2}, 2)
Entry(m, k) == IF k \in DOMAIN m THEN m[k] ELSE 0
InitMap == /\ done = FALSE
           /\ v = [ops |-> <<>>, m |-> <<>>]
MapOps == {"ins", "get", "rem"}
NextMap ==
    /\ Len(v.ops) < Depth
    /\ done' = done
    /\ \E k \in MapKeys, o \in MapOps :
          LET n == Len(v.ops) + 1
              r == Entry(v.m, k)
              m2 == CASE o = "ins" -> (k :> n) @@ v.m
                      [] o = "rem" -> [x \in DOMAIN v.m \ {k} |-> v.m[x]]
                      [] OTHER -> v.m
              ord == SetToSortSeq(DOMAIN m2, LAMBDA x, y : Cmp(x, y) = "lt")
          IN /\ v' = [ops |-> Append(v.ops, <<o, k, r>>), m |-> m2]
             /\ n = Depth => PrintT("M " \o ToJson([ops |-> v'.ops, ord |-> ord]))

-----------------------------------------------------------------------------
(* Results recorded from the real code *)
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Accepts(x) == LET a == ShowA(x.t) b == ShowB(x.t) IN
    /\ x.e = Expect(a, b)
    /\ x.r = Expect(b, a)
    /\ x.o = ExpectOne(a)
    /\ x.w = Win(x.t.a.buf, x.t.a.p)
InitTrace == done = FALSE /\ v \in 1..Len(Trace)
NextTrace == /\ ~done
             /\ done' = TRUE /\ UNCHANGED v
             /\ PrintT((IF Accepts(Trace[v]) THEN "A " ELSE "R ") \o ToString(v))
=============================================================================
