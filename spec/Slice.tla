------------------------------- MODULE Slice -------------------------------
(***************************************************************************)
(* Abstract machine of the public API of rc_slice.                         *)
(*                                                                         *)
(* A state is a set of numbered slots, each holding one handle, plus the   *)
(* backing buffers the handles point into.  Handles:                       *)
(*   S  shared slice            (RcSlice / ArcSlice)                       *)
(*   W  weak reference          (WeakSlice)                                *)
(*   M  mutable slice           (RcSliceMut / ArcSliceMut)                 *)
(*   I  by-value item iterator  (..MutIter)                                *)
(*   P  shared parts iterator   (..SliceParts)                             *)
(*   Q  mutable parts iterator  (..MutParts)                               *)
(* A handle covers the half-open index range [lo,hi) of buffer b.  For the  *)
(* parts iterators [lo,hi) is the slice that was split, 2^lg the number of  *)
(* parts and nf/nb how many were yielded from the front/back.              *)
(* Shared and weak handles belong to a hierarchy t of halvings: making or  *)
(* freezing a slice starts one, its parts and references stay in it.  (It  *)
(* only matters for slices without items: there may be several at one      *)
(* place of a buffer that have nothing to do with each other.)             *)
(*                                                                         *)
(* The whole sequential semantics is one operator, Apply(st, op), giving   *)
(* the set of allowed outcomes.  It is used                                *)
(*   - by SliceGen      to enumerate behaviours that are replayed on the   *)
(*                      real code (spec -> code),                          *)
(*   - by SliceTrace    to validate histories recorded from the real code  *)
(*                      (code -> spec),                                    *)
(*   - by Calls         as the sequential object of overlapping calls:     *)
(*                      threads, re-entrancy, panics.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

None == [k |-> "-", b |-> 0, t |-> 0, lo |-> 0, hi |-> 0, lg |-> 0, nf |-> 0, nb |-> 0, w |-> ""]

H(k, b, t, lo, hi) == [None EXCEPT !.k = k, !.b = b, !.t = t, !.lo = lo, !.hi = hi]
DeadW == [None EXCEPT !.k = "W", !.w = "dead"]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

-----------------------------------------------------------------------------
(* Halving.  Mid(lo,hi) is where a slice is cut: the left half has floor(n/2) items. *)

Mid(lo, hi) == lo + (hi - lo) \div 2

LeftOf(r)  == IF r[2] = r[1] THEN r ELSE <<r[1], Mid(r[1], r[2])>>
RightOf(r) == IF r[2] - r[1] <= 1 THEN r ELSE <<Mid(r[1], r[2]), r[2]>>

\* 2^(lg-1) parts in each half; beyond TLC's integers: larger than any count that occurs
HalfParts(lg) == IF lg > 30 THEN 2000000000 ELSE 2 ^ (lg - 1)
NumParts(lg) == IF lg > 30 THEN 2000000000 ELSE 2 ^ lg

RECURSIVE FrontOf(_, _, _, _), BackOf(_, _, _, _)
\* index of the first item not yielded after n parts were taken from the front
FrontOf(lo, hi, lg, n) ==
    IF n = 0 THEN lo
    ELSE IF n >= NumParts(lg) THEN hi
    ELSE IF n >= HalfParts(lg) THEN FrontOf(Mid(lo, hi), hi, lg - 1, n - HalfParts(lg))
    ELSE FrontOf(lo, Mid(lo, hi), lg - 1, n)
\* index one past the last item not yielded after n parts were taken from the back
BackOf(lo, hi, lg, n) ==
    IF n = 0 THEN hi
    ELSE IF n >= NumParts(lg) THEN lo
    ELSE IF n >= HalfParts(lg) THEN BackOf(lo, Mid(lo, hi), lg - 1, n - HalfParts(lg))
    ELSE BackOf(Mid(lo, hi), hi, lg - 1, n)

RECURSIVE NodeDepth(_, _, _, _)
\* number of halvings from [lo,hi) down to its descendant [l,h) (nonempty)
NodeDepth(lo, hi, l, h) ==
    IF lo = l /\ hi = h THEN 0
    ELSE IF hi - lo <= 1 THEN 0
    ELSE IF l >= Mid(lo, hi) THEN 1 + NodeDepth(Mid(lo, hi), hi, l, h)
    ELSE 1 + NodeDepth(lo, Mid(lo, hi), l, h)

-----------------------------------------------------------------------------
(* What a handle covers *)

IsIter(h)  == h.k \in {"P", "Q"}
IsOwner(h) == h.k \in {"S", "M", "I", "P", "Q"}
Exhausted(h) == h.nf + h.nb >= NumParts(h.lg)

RangeOf(h) ==
    IF IsIter(h)
    THEN IF Exhausted(h) THEN <<h.lo, h.lo>>
         ELSE <<FrontOf(h.lo, h.hi, h.lg, h.nf), BackOf(h.lo, h.hi, h.lg, h.nb)>>
    ELSE <<h.lo, h.hi>>

Size(h) == LET r == RangeOf(h) IN r[2] - r[1]

Overlap(r, q) == Max2(r[1], q[1]) < Min2(r[2], q[2])
Within(r, q)  == q[1] <= r[1] /\ r[2] <= q[2]          \* r inside q

\* Is node r = <<lo, hi, t>> (of a live weak reference) certainly kept alive by owner h?
\* An empty node <<l,l>> hangs below leaf <<l,l+1>>.
KeptBy(r, h) ==
    IF r[3] # h.t THEN FALSE ELSE
    CASE h.k = "S" ->
            IF r[1] = r[2] THEN (h.lo = r[1] /\ h.hi = r[1]) \/ (h.lo <= r[1] /\ r[1] < h.hi)
            ELSE Within(r, <<h.lo, h.hi>>)
      [] h.k = "P" ->
            /\ ~Exhausted(h)
            /\ LET q == RangeOf(h)
               IN /\ r[1] < r[2]
                  /\ Within(r, q)
                  /\ (r[2] - r[1] = 1 \/ h.lg <= NodeDepth(h.lo, h.hi, r[1], r[2]))
      [] OTHER -> FALSE

\* Might h keep it alive?  (A parts iterator may hold a block of several parts as one slice, or not.)
MaybeKeptBy(r, h) ==
    \/ KeptBy(r, h)
    \/ /\ h.k = "P" /\ ~Exhausted(h) /\ h.t = r[3]
       /\ LET q == RangeOf(h) IN
          IF r[1] = r[2] THEN q[1] <= r[1] /\ r[1] <= q[2] ELSE Within(r, q)

-----------------------------------------------------------------------------
(* States *)

\* bufs[b] = [n, base, ov]: item at index p has id ov[p] if p \in DOMAIN ov, else base + p
NoBuf == [n |-> -1, base |-> 0, ov |-> <<>>]

InitSt(nslots) == [hs |-> [s \in 1..nslots |-> None], bufs |-> <<>>, nid |-> 1]

ItemAt(buf, p) == IF p \in DOMAIN buf.ov THEN buf.ov[p] ELSE buf.base + p

Owners(hs, b) == {s \in DOMAIN hs : hs[s].b = b /\ IsOwner(hs[s])}
UsedBufs(hs) == {hs[s].b : s \in DOMAIN hs} \ {0}

\* Sequence of <<firstId, count>>, maximal runs of consecutive ids, of the items [lo,hi)
Runs(buf, lo, hi) ==
    IF lo >= hi THEN <<>>
    ELSE LET ovs == {p \in DOMAIN buf.ov : lo <= p /\ p < hi}
             cuts == SetToSortSeq({lo, hi} \cup ovs \cup {p + 1 : p \in ovs}, <)
             seg(i) == <<ItemAt(buf, cuts[i]), cuts[i + 1] - cuts[i]>>
             RECURSIVE Build(_, _)
             Build(i, acc) ==
                IF i >= Len(cuts) THEN acc
                ELSE LET s == seg(i) IN
                     IF acc # <<>> /\ acc[Len(acc)][1] + acc[Len(acc)][2] = s[1]
                     THEN Build(i + 1, [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + s[2]>>])
                     ELSE Build(i + 1, Append(acc, s))
         IN Build(1, <<>>)

\* merge a set of <<firstId,count>> into sorted maximal runs
MergeRuns(rs) ==
    LET sq == SetToSortSeq(rs, LAMBDA x, y : x[1] < y[1])
        RECURSIVE Build(_, _)
        Build(i, acc) ==
            IF i > Len(sq) THEN acc
            ELSE IF acc # <<>> /\ acc[Len(acc)][1] + acc[Len(acc)][2] = sq[i][1]
                 THEN Build(i + 1, [acc EXCEPT ![Len(acc)] = <<@[1], @[2] + sq[i][2]>>])
                 ELSE Build(i + 1, Append(acc, sq[i]))
    IN Build(1, <<>>)

\* id runs of the items covered by an owner in hs but by none in hs2
Lost(bufs, hs, hs2) ==
    LET changed == {s \in DOMAIN hs : IsOwner(hs[s]) /\ (hs2[s] # hs[s])}
        bs == {hs[s].b : s \in changed}
        LostIn(b) ==
            LET before == {RangeOf(hs[s]) : s \in {x \in changed : hs[x].b = b}}
                after  == {RangeOf(hs2[s]) : s \in Owners(hs2, b)}
                ovs    == DOMAIN bufs[b].ov
                cuts == SetToSortSeq({r[1] : r \in before \cup after} \cup {r[2] : r \in before \cup after}
                                     \cup ovs \cup {p + 1 : p \in ovs}, <)
                in(p, rs) == \E r \in rs : r[1] <= p /\ p < r[2]
            IN {<<ItemAt(bufs[b], cuts[i]), cuts[i + 1] - cuts[i]>> :
                   i \in {j \in 1..(Len(cuts) - 1) : in(cuts[j], before) /\ ~in(cuts[j], after)}}
    IN UNION {LostIn(b) : b \in bs}

\* live references lose their slice when nothing keeps it alive any more
Settle(hs) ==
    [s \in DOMAIN hs |->
        LET h == hs[s] IN
        IF h.k # "W" \/ h.w = "dead" THEN h
        ELSE LET r == <<h.lo, h.hi, h.t>>
                 own == Owners(hs, h.b)
             IN IF \E o \in own : KeptBy(r, hs[o]) THEN h
                ELSE IF \E o \in own : MaybeKeptBy(r, hs[o]) THEN [h EXCEPT !.w = "maybe"]
                ELSE DeadW]

FreeSlots(hs) == {s \in DOMAIN hs : hs[s].k = "-"}
FreeSlot(hs) == Min(FreeSlots(hs))
\* a number for a new hierarchy
FreeTree(hs) == LET used == {hs[s].t : s \in DOMAIN hs}
                IN CHOOSE t \in 1..(Cardinality(used) + 1) : t \notin used /\ \A u \in 1..(t - 1) : u \in used
FreeBuf(st) == CHOOSE b \in 1..(Len(st.bufs) + 1) :
                   /\ b \notin UsedBufs(st.hs)
                   /\ \A c \in 1..(b - 1) : c \in UsedBufs(st.hs)
PutBuf(bufs, b, buf) == IF b <= Len(bufs) THEN [bufs EXCEPT ![b] = buf] ELSE Append(bufs, buf)

-----------------------------------------------------------------------------
(* Outcomes.  An outcome is [st, res, d]: next state, result and the id runs of the items destroyed. *)

Res(t, v) == [t |-> t, v |-> v]

\* hs2: new slots; keep: id runs moved out to the caller (not destroyed); more: destroyed besides
OutX(st, hs2, bufs2, nid2, res, keep, more) ==
    LET settled == Settle(hs2)
    IN [st  |-> [hs |-> settled, bufs |-> bufs2, nid |-> nid2],
        res |-> res,
        d   |-> MergeRuns((Lost(st.bufs, st.hs, hs2) \ keep) \cup more)]

Out(st, hs2, res) == OutX(st, hs2, st.bufs, st.nid, res, {}, {})

Others(st, s) == {x \in DOMAIN st.hs : x # s}

\* handles that share items with slot s / empty handles taken from inside s
Sharers(st, s) ==
    {x \in Others(st, s) : /\ st.hs[x].b = st.hs[s].b
                           /\ st.hs[x].k \in {"S", "P"}
                           /\ Overlap(RangeOf(st.hs[x]), RangeOf(st.hs[s]))}
EmptySharers(st, s) ==
    {x \in Others(st, s) :
        LET h == st.hs[x] r == RangeOf(h) IN
        /\ h.b = st.hs[s].b
        /\ h.t = st.hs[s].t
        /\ CASE h.k = "S" -> h.lo = h.hi
             \* a parts iterator with more parts than items still has empty parts to yield
             [] h.k = "P" -> ~Exhausted(h) /\ h.hi - h.lo < NumParts(h.lg)
             [] OTHER -> FALSE
        /\ Max2(r[1], st.hs[s].lo) <= Min2(r[2], st.hs[s].hi)}
\* live weak references to s or to a part of s
WeakInside(st, s) ==
    {x \in Others(st, s) : /\ st.hs[x].k = "W" /\ st.hs[x].w # "dead"
                           /\ st.hs[x].b = st.hs[s].b
                           /\ st.hs[x].t = st.hs[s].t
                           /\ IF st.hs[x].lo = st.hs[x].hi
                              THEN st.hs[s].lo <= st.hs[x].lo /\ st.hs[x].lo <= st.hs[s].hi
                              ELSE Within(<<st.hs[x].lo, st.hs[x].hi>>, RangeOf(st.hs[s]))}
\* the weak references among those that surely count
SureWeakInside(st, s) ==
    {x \in WeakInside(st, s) : st.hs[x].w = "live" /\ st.hs[x].lo < st.hs[x].hi}

\* May get_mut / into_mut succeed, may it fail?
GetMutCan(st, s)  == Sharers(st, s) = {} /\ SureWeakInside(st, s) = {}
GetMutMust(st, s) == /\ Sharers(st, s) = {} /\ EmptySharers(st, s) = {} /\ WeakInside(st, s) = {}
                     /\ Size(st.hs[s]) > 0
IntoMutCan(st, s)  == Sharers(st, s) = {}
IntoMutMust(st, s) == Sharers(st, s) = {} /\ EmptySharers(st, s) = {} /\ Size(st.hs[s]) > 0

-----------------------------------------------------------------------------
(* Operations: records [o, s, a] = name, slot, argument *)

Op(o, s, a) == [o |-> o, s |-> s, a |-> a]

Fresh(st, k, n, s) ==
    LET b == FreeBuf(st)
    IN OutX(st, [st.hs EXCEPT ![s] = H(k, b, IF k = "S" THEN FreeTree(st.hs) ELSE 0, 0, n)],
            PutBuf(st.bufs, b, [n |-> n, base |-> st.nid, ov |-> <<>>]),
            st.nid + n, Res("h", <<s>>), {}, {})

Replace(st, b, p) ==     \* overwrite the item at index p of buffer b by a new one
    [bufs |-> [st.bufs EXCEPT ![b].ov = (p :> st.nid) @@ @],
     old  |-> {<<ItemAt(st.bufs[b], p), 1>>}]

ApplyClone(st, s, f) ==
    LET h == st.hs[s] IN
    IF h.k = "M"
    THEN Fresh(st, "M", h.hi - h.lo, f)
    ELSE Out(st, [st.hs EXCEPT ![f] = h], Res("h", <<f>>))

ApplyHalf(st, s, half, f) ==     \* clone_left / clone_right
    LET h == st.hs[s] IN
    Out(st, [st.hs EXCEPT ![f] = H("S", h.b, h.t, half[1], half[2])], Res("h", <<f>>))

ApplySplit(st, s, left, f) ==    \* split_off_left / split_off_right
    LET h == st.hs[s]
        r == <<h.lo, h.hi>>
        \* a mutable slice is cut strictly: both halves of it are disjoint
        l == IF h.k = "S" THEN LeftOf(r) ELSE <<h.lo, Mid(h.lo, h.hi)>>
        q == IF h.k = "S" THEN RightOf(r) ELSE <<Mid(h.lo, h.hi), h.hi>>
        off == IF left THEN l ELSE q
        rem == IF left THEN q ELSE l
    IN Out(st, [st.hs EXCEPT ![f] = H(h.k, h.b, h.t, off[1], off[2]), ![s] = H(h.k, h.b, h.t, rem[1], rem[2])],
           Res("h", <<f>>))

ApplyGetMut(st, s, a) ==      \* a = 0: look only; a = p+1: also overwrite the item at index p
    LET h == st.hs[s]
        p == a - 1
        yes == IF p >= 0 /\ p < h.hi - h.lo
               THEN LET w == Replace(st, h.b, h.lo + p)
                    IN OutX(st, st.hs, w.bufs, st.nid + 1, Res("some", <<>>), {}, w.old)
               ELSE Out(st, st.hs, Res("some", <<>>))
        no == Out(st, st.hs, Res("none", <<>>))
    IN (IF GetMutCan(st, s) THEN {yes} ELSE {}) \cup (IF GetMutMust(st, s) THEN {} ELSE {no})

ApplyIntoMut(st, s) ==
    LET h == st.hs[s]
        yes == Out(st, [st.hs EXCEPT ![s] = H("M", h.b, 0, h.lo, h.hi)], Res("ok", <<>>))
        no == Out(st, st.hs, Res("err", <<>>))
    IN (IF IntoMutCan(st, s) THEN {yes} ELSE {}) \cup (IF IntoMutMust(st, s) THEN {} ELSE {no})

ApplyUpgrade(st, s, f) ==
    LET h == st.hs[s]
        yes == Out(st, [st.hs EXCEPT ![s].w = "live", ![f] = H("S", h.b, h.t, h.lo, h.hi)], Res("h", <<f>>))
        no == Out(st, [st.hs EXCEPT ![s] = DeadW], Res("none", <<>>))
    IN CASE h.w = "live" -> {yes}
         [] h.w = "dead" -> {no}
         [] OTHER -> {yes, no}

ApplySet(st, s, p) ==
    LET h == st.hs[s] r == RangeOf(h)
        w == Replace(st, h.b, r[1] + p)
    IN OutX(st, st.hs, w.bufs, st.nid + 1, Res("ok", <<>>), {}, w.old)

ApplyNext(st, s, back, f) ==
    LET h == st.hs[s] r == RangeOf(h) IN
    IF h.k = "I"
    THEN IF r[1] = r[2] THEN Out(st, st.hs, Res("none", <<>>))
         ELSE LET p == IF back THEN r[2] - 1 ELSE r[1]
                  id == ItemAt(st.bufs[h.b], p)
              IN OutX(st, [st.hs EXCEPT ![s] = IF back THEN [h EXCEPT !.hi = p] ELSE [h EXCEPT !.lo = p + 1]],
                      st.bufs, st.nid, Res("item", <<id>>), {<<id, 1>>}, {})
    ELSE IF Exhausted(h) THEN Out(st, st.hs, Res("none", <<>>))
         ELSE LET h2 == IF back THEN [h EXCEPT !.nb = @ + 1] ELSE [h EXCEPT !.nf = @ + 1]
                  part == IF back THEN <<BackOf(h.lo, h.hi, h.lg, h.nb + 1), r[2]>>
                                  ELSE <<r[1], FrontOf(h.lo, h.hi, h.lg, h.nf + 1)>>
              IN Out(st, [st.hs EXCEPT ![s] = h2,
                                       ![f] = H(IF h.k = "P" THEN "S" ELSE "M", h.b, h.t, part[1], part[2])],
                     Res("h", <<f>>))

ApplyIterSplit(st, s, at, from, f) ==
    LET h == st.hs[s] IN
    IF at > h.hi - h.lo THEN Out(st, st.hs, Res("panic", <<>>))
    ELSE Out(st, [st.hs EXCEPT ![s] = IF from THEN [h EXCEPT !.hi = h.lo + at] ELSE [h EXCEPT !.lo = h.lo + at],
                               ![f] = IF from THEN [h EXCEPT !.lo = h.lo + at] ELSE [h EXCEPT !.hi = h.lo + at]],
             Res("h", <<f>>))

ApplyParts(st, s, lg) ==
    LET h == st.hs[s] IN
    Out(st, [st.hs EXCEPT ![s] = [h EXCEPT !.k = IF h.k = "S" THEN "P" ELSE "Q", !.lg = lg]], Res("ok", <<>>))

\* clone_from (assignment of a clone): the handle becomes a clone of the one in slot a, what it was is dropped
ApplyAssign(st, s, a) == Out(st, [st.hs EXCEPT ![s] = st.hs[a]], Res("ok", <<>>))

ApplyCount(st, s) ==
    LET h == st.hs[s] IN
    Out(st, [st.hs EXCEPT ![s] = None],
        Res("n", <<IF h.k = "I" THEN h.hi - h.lo ELSE NumParts(h.lg) - h.nf - h.nb>>))

\* nth / nth_back: k items or parts are dropped, the next one is yielded
Remaining(h) == IF h.k = "I" THEN h.hi - h.lo ELSE NumParts(h.lg) - h.nf - h.nb
Skip(st, s, back, j) ==
    LET h == st.hs[s]
        h2 == IF h.k = "I" THEN (IF back THEN [h EXCEPT !.hi = @ - j] ELSE [h EXCEPT !.lo = @ + j])
              ELSE (IF back THEN [h EXCEPT !.nb = @ + j] ELSE [h EXCEPT !.nf = @ + j])
    IN Out(st, [st.hs EXCEPT ![s] = h2], Res("ok", <<>>))
ApplyNth(st, s, back, k, f) ==
    LET j == Min2(k, Remaining(st.hs[s]))
        skipped == Skip(st, s, back, j)
        out == ApplyNext(skipped.st, s, back, f)
    IN [out EXCEPT !.d = MergeRuns({@[i] : i \in DOMAIN @} \cup {skipped.d[i] : i \in DOMAIN skipped.d})]

\* last: the last item or part is yielded, the iterator with the rest is dropped
ApplyLast(st, s, f) ==
    LET out == ApplyNext(st, s, TRUE, f)
        rest == Out(out.st, [out.st.hs EXCEPT ![s] = None], out.res)
    IN [rest EXCEPT !.d = MergeRuns({@[i] : i \in DOMAIN @} \cup {out.d[i] : i \in DOMAIN out.d})]

\* f is the slot that takes a new handle
ApplyAt(st, op, f) ==
    LET s == op.s
        r == IF s \in DOMAIN st.hs THEN <<st.hs[s].lo, st.hs[s].hi>> ELSE <<0, 0>>
    IN
    CASE op.o = "new"  -> {Fresh(st, "S", op.a, f)}
      [] op.o = "newm" -> {Fresh(st, "M", op.a, f)}
      \* collecting an iterator that panics after op.a items
      [] op.o = "cp"   -> {OutX(st, st.hs, st.bufs, st.nid + op.a, Res("panic", <<>>), {},
                                IF op.a = 0 THEN {} ELSE {<<st.nid, op.a>>})}
      [] op.o = "wn"   -> {Out(st, [st.hs EXCEPT ![f] = DeadW], Res("h", <<f>>))}
      [] op.o = "clone" -> {ApplyClone(st, s, f)}
      [] op.o = "cf"   -> {ApplyAssign(st, s, op.a)}
      [] op.o = "cl"   -> {ApplyHalf(st, s, LeftOf(r), f)}
      [] op.o = "cr"   -> {ApplyHalf(st, s, RightOf(r), f)}
      [] op.o = "sl"   -> {ApplySplit(st, s, TRUE, f)}
      [] op.o = "sr"   -> {ApplySplit(st, s, FALSE, f)}
      [] op.o = "drop" -> {Out(st, [st.hs EXCEPT ![s] = None], Res("ok", <<>>))}
      [] op.o = "gm"   -> ApplyGetMut(st, s, op.a)
      [] op.o = "im"   -> ApplyIntoMut(st, s)
      [] op.o = "fz"   -> {Out(st, [st.hs EXCEPT ![s] = [@ EXCEPT !.k = "S", !.t = FreeTree(st.hs)]], Res("ok", <<>>))}
      [] op.o = "dg"   -> {Out(st, [st.hs EXCEPT ![f] = [st.hs[s] EXCEPT !.k = "W", !.w = "live"]], Res("h", <<f>>))}
      [] op.o = "up"   -> ApplyUpgrade(st, s, f)
      [] op.o = "set"  -> {ApplySet(st, s, op.a)}
      [] op.o = "it"   -> {Out(st, [st.hs EXCEPT ![s] = [@ EXCEPT !.k = "I"]], Res("ok", <<>>))}
      [] op.o = "nx"   -> {ApplyNext(st, s, FALSE, f)}
      [] op.o = "nb"   -> {ApplyNext(st, s, TRUE, f)}
      [] op.o = "nt"   -> {ApplyNth(st, s, FALSE, op.a, f)}
      [] op.o = "nk"   -> {ApplyNth(st, s, TRUE, op.a, f)}
      [] op.o = "ls"   -> {ApplyLast(st, s, f)}
      [] op.o = "sf"   -> {ApplyIterSplit(st, s, op.a, TRUE, f)}
      [] op.o = "st"   -> {ApplyIterSplit(st, s, op.a, FALSE, f)}
      [] op.o = "pt"   -> {ApplyParts(st, s, op.a)}
      [] op.o = "bp"   -> {Out(st, [st.hs EXCEPT ![s] = None], Res("panic", <<>>))}
      [] op.o = "cnt"  -> {ApplyCount(st, s)}

\* new handles go to the first free slot
Apply(st, op) == ApplyAt(st, op, IF FreeSlots(st.hs) = {} THEN 0 ELSE FreeSlot(st.hs))

\* kinds an operation applies to, and whether it needs a free slot
Kinds(o) == CASE o \in {"cl", "cr", "gm", "im", "dg"} -> {"S"}
              [] o = "clone" -> {"S", "W", "M", "P"}
              [] o = "cf" -> {"S", "W", "P"}
              [] o \in {"sl", "sr", "pt", "bp"} -> {"S", "M"}
              [] o = "drop" -> {"S", "W", "M", "I", "P", "Q"}
              [] o \in {"fz", "it"} -> {"M"}
              [] o = "up" -> {"W"}
              [] o = "set" -> {"M", "I", "Q"}
              [] o \in {"nx", "nb", "nt", "nk", "ls"} -> {"I", "P", "Q"}
              [] o = "cnt" -> {"I", "P", "Q"}
              [] o \in {"sf", "st"} -> {"I"}
              [] OTHER -> {}
Allocates(o) == o \in {"new", "newm", "wn", "clone", "cl", "cr", "sl", "sr", "dg", "up", "sf", "st"}
NeedsSlot(st, op) ==
    \/ Allocates(op.o)
    \/ op.o \in {"nx", "nb", "nt", "nk", "ls"} /\ st.hs[op.s].k \in {"P", "Q"}

CanApply(st, op) ==
    /\ op.o \in {"new", "newm", "wn", "cp"} \/ (op.s \in DOMAIN st.hs /\ st.hs[op.s].k \in Kinds(op.o))
    /\ NeedsSlot(st, op) => FreeSlots(st.hs) # {}
    /\ op.o = "cf" => op.a # op.s /\ op.a \in DOMAIN st.hs /\ st.hs[op.a].k = st.hs[op.s].k
    /\ op.o = "set" => op.a < Size(st.hs[op.s])
    /\ op.o \in {"cnt", "nt", "nk", "ls"} => st.hs[op.s].lg <= 30

-----------------------------------------------------------------------------
(* Observation of a state: what every handle shows and what became of the buffers *)

Shows(st, s) ==
    LET h == st.hs[s] r == RangeOf(h) IN
    [k |-> h.k,
     c |-> IF IsOwner(h) THEN Runs(st.bufs[h.b], r[1], r[2]) ELSE <<>>,
     y |-> IF IsIter(h) THEN h.nf + h.nb ELSE 0]

\* "L" still allocated, "F" freed, "?" only empty handles left on it
BufState(st, b) ==
    IF st.bufs[b].n = 0 THEN "F"
    ELSE IF Owners(st.hs, b) = {} THEN "F"
    ELSE IF \E s \in Owners(st.hs, b) : Size(st.hs[s]) > 0 THEN "L" ELSE "?"

Obs(st) == [h |-> [s \in DOMAIN st.hs |-> Shows(st, s)],
            b |-> [b \in DOMAIN st.bufs |-> BufState(st, b)]]

-----------------------------------------------------------------------------
(* The listed properties as invariants of a state (checked by SliceGen on every reachable state) *)

Slots(st) == DOMAIN st.hs
\* P07, P10: a mutable owner is the only way to its items
Exclusive(st) ==
    \A s, t \in Slots(st) :
        (s # t /\ st.hs[s].k \in {"M", "I", "Q"} /\ IsOwner(st.hs[t]) /\ st.hs[t].b = st.hs[s].b)
        => ~Overlap(RangeOf(st.hs[s]), RangeOf(st.hs[t]))
\* ranges of shared handles nest or are disjoint (they are nodes of one halving tree), so do the remainders
Laminar(st) ==
    \A s, t \in Slots(st) :
        (st.hs[s].k = "S" /\ st.hs[t].k = "S" /\ st.hs[t].b = st.hs[s].b)
        => LET r == RangeOf(st.hs[s]) q == RangeOf(st.hs[t])
           IN ~Overlap(r, q) \/ Within(r, q) \/ Within(q, r)
\* no two positions show the same item
Unique(st) ==
    \A s, t \in Slots(st) :
        (IsOwner(st.hs[s]) /\ IsOwner(st.hs[t])) =>
        \A p \in RangeOf(st.hs[s])[1]..(RangeOf(st.hs[s])[2] - 1), q \in RangeOf(st.hs[t])[1]..(RangeOf(st.hs[t])[2] - 1) :
            ItemAt(st.bufs[st.hs[s].b], p) = ItemAt(st.bufs[st.hs[t].b], q)
            => (p = q /\ st.hs[s].b = st.hs[t].b)
\* P06: a live weak reference always has an owner; a dead one points nowhere
WeakOk(st) ==
    \A s \in Slots(st) : st.hs[s].k = "W" =>
        IF st.hs[s].w = "dead" THEN st.hs[s] = DeadW
        ELSE \E o \in Owners(st.hs, st.hs[s].b) : MaybeKeptBy(<<st.hs[s].lo, st.hs[s].hi, st.hs[s].t>>, st.hs[o])
WellFormed(st) ==
    \A s \in Slots(st) : LET h == st.hs[s] IN
        /\ (h.k \in {"S", "P"} \/ (h.k = "W" /\ h.w # "dead")) <=> (h.t > 0)
        /\ IsOwner(h) => /\ 0 <= h.lo /\ h.lo <= h.hi /\ h.hi <= st.bufs[h.b].n
                         /\ Within(RangeOf(h), <<h.lo, h.hi>>)
                         /\ RangeOf(h)[1] <= RangeOf(h)[2]
StateOk(st) == Exclusive(st) /\ Laminar(st) /\ Unique(st) /\ WeakOk(st) /\ WellFormed(st)
=============================================================================
