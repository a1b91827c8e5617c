----------------------------- MODULE Protocol -----------------------------
(* How atomically counted slices keep track of each other, step by step.   *)
(*                                                                         *)
(* Slice and Calls say what callers may observe. This module specifies the *)
(* protocol that brings it about: counts of strong and weak references,    *)
(* the guard of each slice and its gate, the chain of guards up to the     *)
(* whole, the count of downgrades, the flag of items that moved away.      *)
(* Every step below is one access to shared memory. TLC looks at every     *)
(* interleaving (no bound on preemptions), which the real code is not run  *)
(* under; what is only true of weaker memory orderings is left to the      *)
(* runs of the real code.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Thread,   \* the threads, positive numbers
          Setup,    \* operations that one thread makes before the others start
          Budget,   \* operations of each thread after that
          Deep,     \* is there a quarter (node 3), or just the halves?
          Without   \* steps left out on purpose: shows that they are needed

Node == IF Deep THEN 0..3 ELSE 0..2
Parent == [n \in Node |-> IF n = 0 THEN -1 ELSE IF n = 3 THEN 1 ELSE 0]
Kids(n) == { k \in Node : Parent[k] = n }
ItemsOf == [n \in Node |-> CASE n = 0 -> {1, 2, 3} [] n = 1 -> {1, 2} [] n = 2 -> {3} [] n = 3 -> {1}]
RECURSIVE Above(_)
Above(n) == IF Parent[n] = -1 THEN {} ELSE {Parent[n]} \union Above(Parent[n])
Overlap(m, n) == ItemsOf[m] \intersect ItemsOf[n] # {}

Guard == 1..5

VARIABLES
    data,    \* node -> counts, children, flag, guard
    guard,   \* guards: node, count, parent, gate, downgrades
    th,      \* thread -> stack of steps to do, registers, handles
    gone,    \* items destroyed
    phase,   \* "setup", "run"
    left,    \* operations left (per thread; 0: those of the setup)
    exc      \* threads whose upgrade in progress may fail: at some moment no owner stood

vars == <<data, guard, th, gone, phase, left, exc>>

None == [k |-> "none"]
NoGuard == [n |-> -1, st |-> 0, par |-> 0, shut |-> FALSE, nd |-> 0]
S(n, g) == [k |-> "s", n |-> n, g |-> g, x |-> FALSE]    \* a shared slice; x: mutable access is going on
W(n) == [k |-> "w", n |-> n, g |-> 0, x |-> FALSE]       \* a weak reference
M(n) == [k |-> "m", n |-> n, g |-> 0, x |-> FALSE]       \* a mutable slice

\* A thread: the operation and its steps left (first is next), a register for guards and one for counts, the handle
\* it works on (and where it is), the handles it has
Idle(hs) == [op |-> "", stk |-> <<>>, r |-> 0, c |-> 0, h |-> None, i |-> 0, hs |-> hs]

Init ==
    /\ data = [n \in Node |-> [st |-> IF n = 0 THEN 1 ELSE 0, wk |-> 0, kid |-> {}, moved |-> FALSE, g |-> IF n = 0 THEN 1 ELSE 0]]
    /\ guard = [g \in Guard |-> IF g = 1 THEN [NoGuard EXCEPT !.n = 0, !.st = 1] ELSE NoGuard]
    /\ th = [t \in Thread \union {0} |-> Idle(IF t = 0 THEN <<S(0, 1)>> ELSE <<>>)]
    /\ gone = <<>>
    /\ phase = "setup"
    /\ left = [t \in Thread \union {0} |-> IF t = 0 THEN Setup ELSE Budget]
    /\ exc = {}

Without1(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]

(* ------------------------------ operations ------------------------------ *)
\* The steps of each operation on handle h, which is taken out of the thread's list while an operation consumes it.
Code(op, h) ==
    CASE op = "clone"     -> << <<"incD", h.n>>, <<"incG", h.g>>, <<"put", h>> >>
      [] op = "drop"      -> IF h.k = "s" THEN << <<"decD", h.n>>, <<"decG", h.g>> >>
                             ELSE IF h.k = "w" THEN << <<"decW", h.n>> >> ELSE << <<"kill", h.n>> >>
      [] op = "downgrade" -> << <<"incW", h.n>>, <<"tell", h.g>>, <<"put", W(h.n)>> >>
      [] op = "upgrade"   -> << <<"up", h.n>> >>
      [] op = "getmut"    -> << <<"nd", h.g>>, <<"weak", h.n, 0, Kids(h.n)>>, <<"shut", h.g>>, <<"one", h.g>>, <<"own", h.n, h.g>>,
                                <<"same", h.g>>, <<"open", h.g>>, <<"begin">> >>
      [] op = "intomut"   -> << <<"shut", h.g>>, <<"one", h.g>>, <<"move", h.n, TRUE>>, <<"take", h.n, h.g>>, <<"open", h.g>>,
                                <<"decG", h.g>>, <<"put", M(h.n)>> >>
\* A half or quarter
KidCode(h, k) == << <<"wait", h.g>>, <<"kid", h.n, k>>, <<"guard", k>>, <<"putR", k>> >>

Consumes == {"drop", "intomut"}

Can(op, h) ==
    /\ ~h.x
    /\ \/ op = "drop"
       \/ op \in {"clone", "downgrade", "getmut", "intomut"} /\ h.k = "s"
       \/ op = "upgrade" /\ h.k = "w"

Start(t) ==
    /\ th[t].stk = <<>> /\ left[t] > 0
    /\ phase = IF t = 0 THEN "setup" ELSE "run"
    /\ left' = [left EXCEPT ![t] = @ - 1]
    /\ \E i \in 1..Len(th[t].hs) : LET h == th[t].hs[i] IN
        \/ \E op \in {"clone", "drop", "downgrade", "upgrade", "getmut", "intomut"} :
            /\ Can(op, h)
            /\ t = 0 => op \in {"clone", "drop", "downgrade"}
            /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.op = op, !.stk = Code(op, h), !.h = h, !.i = i,
                                        !.hs = IF op \in Consumes THEN Without1(@, i) ELSE @]]
        \/ \E k \in Kids(h.n) :
            /\ h.k = "s" /\ ~h.x
            /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.op = "half", !.stk = KidCode(h, k), !.h = h, !.i = i]]
        \/ \* mutable access ends
            /\ h.x /\ t # 0
            /\ th' = [th EXCEPT ![t].hs[i].x = FALSE]
    /\ UNCHANGED <<data, guard, gone, phase>>

\* The handles made so far are given to the threads
RECURSIVE Deal(_, _)
Deal(hs, own) == IF hs = <<>> THEN [t \in Thread |-> <<>>]
                 ELSE LET d == Deal(Tail(hs), Tail(own)) IN [d EXCEPT ![Head(own)] = <<Head(hs)>> \o @]
First == CHOOSE t \in Thread : \A u \in Thread : t <= u
Share ==
    /\ phase = "setup" /\ th[0].stk = <<>>
    /\ phase' = "run"
    /\ \E own \in [1..Len(th[0].hs) -> Thread] :
        /\ Len(th[0].hs) > 0 => own[1] = First
        /\ LET d == Deal(th[0].hs, own) IN th' = [t \in DOMAIN th |-> IF t = 0 THEN Idle(<<>>) ELSE Idle(d[t])]
    /\ UNCHANGED <<data, guard, gone, left>>

(* -------------------------------- steps --------------------------------- *)
\* Replace the first step of t by the steps s
Then(t, s) == [th EXCEPT ![t].stk = s \o Tail(@)]
Pop(t) == [th EXCEPT ![t].stk = Tail(@)]
\* The operation fails, after the steps s; into_mut hands back its handle
Fail(t, s) == [th EXCEPT ![t].stk = s \o (IF th[t].op = "intomut" THEN << <<"put", th[t].h>> >> ELSE <<>>)]
\* An upgrade gives nothing, after the steps s
Nothing(t, s) == [th EXCEPT ![t].stk = s \o << <<"none">> >>]

FreeGuard == CHOOSE g \in Guard : guard[g].st = 0 /\ \A f \in Guard : guard[f].st = 0 => g <= f

StepDecD(t, n) ==
    IF data[n].st > 1
    THEN /\ data' = [data EXCEPT ![n].st = @ - 1] /\ th' = Pop(t) /\ UNCHANGED <<guard, gone>>
    ELSE \* the last one: children first, then the items that no child covers
        LET kids == data[n].kid
            \* a sequence of the children
            ks == IF Cardinality(kids) = 2 THEN << <<"decD", 1>>, <<"decD", 2>> >>
                  ELSE IF kids = {} THEN <<>> ELSE << <<"decD", CHOOSE k \in kids : TRUE>> >>
        IN /\ data' = [data EXCEPT ![n].st = 0, ![n].kid = {}]
           /\ th' = Then(t, (IF data[n].moved THEN <<>> ELSE << <<"lose", ItemsOf[n] \ UNION { ItemsOf[k] : k \in kids }>> >>)
                            \o ks \o (IF n = 0 THEN <<>> ELSE << <<"decW", Parent[n]>> >>))
           /\ UNCHANGED <<guard, gone>>

StepDecG(t, g) ==
    IF g = 0 THEN th' = Pop(t) /\ UNCHANGED <<data, guard, gone>>
    ELSE IF guard[g].st > 1
    THEN /\ guard' = [guard EXCEPT ![g].st = @ - 1] /\ th' = Pop(t) /\ UNCHANGED <<data, gone>>
    ELSE /\ guard' = [guard EXCEPT ![g] = NoGuard]
         /\ data' = [n \in Node |-> IF data[n].g = g THEN [data[n] EXCEPT !.g = 0] ELSE data[n]]   \* a dead weak reference
         /\ th' = Then(t, << <<"decG", guard[g].par>> >>)
         /\ UNCHANGED gone

Step(t) ==
    /\ th[t].stk # <<>>
    /\ UNCHANGED <<phase, left>>
    /\ LET i == Head(th[t].stk) IN
       CASE i[1] = "incD" -> data' = [data EXCEPT ![i[2]].st = @ + 1] /\ th' = Pop(t) /\ UNCHANGED <<guard, gone>>
         [] i[1] = "incG" -> guard' = [guard EXCEPT ![i[2]].st = @ + 1] /\ th' = Pop(t) /\ UNCHANGED <<data, gone>>
         [] i[1] = "incW" -> data' = [data EXCEPT ![i[2]].wk = @ + 1] /\ th' = Pop(t) /\ UNCHANGED <<guard, gone>>
         [] i[1] = "decW" -> data' = [data EXCEPT ![i[2]].wk = @ - 1] /\ th' = Pop(t) /\ UNCHANGED <<guard, gone>>
         [] i[1] = "decD" -> StepDecD(t, i[2])
         [] i[1] = "decG" -> StepDecG(t, i[2])
         [] i[1] = "lose" -> /\ gone' = gone \o [j \in 1..Cardinality(i[2]) |-> CHOOSE x \in i[2] : Cardinality({ y \in i[2] : y < x }) = j - 1]
                             /\ th' = Pop(t) /\ UNCHANGED <<data, guard>>
         [] i[1] = "kill" -> /\ th' = Then(t, << <<"lose", ItemsOf[i[2]]>> >>) /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "put"  -> th' = [th EXCEPT ![t] = [@ EXCEPT !.stk = Tail(@), !.hs = Append(@, i[2])]] /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "putR" -> th' = [th EXCEPT ![t] = [@ EXCEPT !.stk = Tail(@), !.hs = Append(@, S(i[2], th[t].r))]]
                             /\ UNCHANGED <<data, guard, gone>>
         \* ---- guards: the lock of the cell makes each of these one step
         [] i[1] = "guard" ->
              IF data[i[2]].g # 0
              THEN /\ guard' = [guard EXCEPT ![data[i[2]].g].st = @ + 1] /\ th' = [Pop(t) EXCEPT ![t].r = data[i[2]].g]
                   /\ UNCHANGED <<data, gone>>
              ELSE /\ th' = Then(t, << <<"parent", i[2]>> >>) /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "parent" ->
              LET p == Parent[i[2]] IN
              IF p = -1 \/ (p # -1 /\ data[IF p = -1 THEN 0 ELSE p].st = 0)
              THEN th' = [Then(t, << <<"setG", i[2]>> >>) EXCEPT ![t].r = 0] /\ UNCHANGED <<data, guard, gone>>
              ELSE /\ data' = [data EXCEPT ![p].st = @ + 1]
                   /\ th' = Then(t, << <<"guard", p>>, <<"decD", p>>, <<"setG", i[2]>> >>)
                   /\ UNCHANGED <<guard, gone>>
         [] i[1] = "setG" ->
              IF data[i[2]].g # 0
              THEN /\ guard' = [guard EXCEPT ![data[i[2]].g].st = @ + 1]
                   /\ th' = [Then(t, << <<"decG", th[t].r>> >>) EXCEPT ![t].r = data[i[2]].g]
                   /\ UNCHANGED <<data, gone>>
              ELSE LET g == FreeGuard IN
                   /\ guard' = [guard EXCEPT ![g] = [NoGuard EXCEPT !.n = i[2], !.st = 1, !.par = th[t].r]]
                   /\ data' = [data EXCEPT ![i[2]].g = g]
                   /\ th' = [Pop(t) EXCEPT ![t].r = g]
                   /\ UNCHANGED gone
         \* ---- gates
         [] i[1] = "wait" -> ~guard[i[2]].shut /\ th' = Pop(t) /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "climb" ->
              IF i[2] = 0 \/ "climb" \in Without THEN th' = Pop(t) /\ UNCHANGED <<data, guard, gone>>
              ELSE ~guard[i[2]].shut /\ th' = Then(t, << <<"climb", guard[i[2]].par>> >>) /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "open" -> guard' = [guard EXCEPT ![i[2]].shut = FALSE] /\ th' = Pop(t) /\ UNCHANGED <<data, gone>>
         [] i[1] = "shut" ->
              IF guard[i[2]].shut THEN th' = Fail(t, <<>>) /\ UNCHANGED <<data, guard, gone>>
              ELSE guard' = [guard EXCEPT ![i[2]].shut = TRUE] /\ th' = Pop(t) /\ UNCHANGED <<data, gone>>
         [] i[1] = "one" ->
              /\ th' = IF guard[i[2]].st = 1 THEN Pop(t) ELSE Fail(t, << <<"open", i[2]>> >>)
              /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "own" ->
              /\ th' = IF data[i[2]].st = 1 \/ "own" \in Without THEN Pop(t) ELSE Fail(t, << <<"open", i[3]>> >>)
              /\ UNCHANGED <<data, guard, gone>>
         \* ---- downgrades
         [] i[1] = "tell" ->
              IF i[2] = 0 \/ "tell" \in Without THEN th' = Pop(t) /\ UNCHANGED <<data, guard, gone>>
              ELSE guard' = [guard EXCEPT ![i[2]].nd = @ + 1] /\ th' = Then(t, << <<"tell", guard[i[2]].par>> >>) /\ UNCHANGED <<data, gone>>
         [] i[1] = "nd"   -> th' = [Pop(t) EXCEPT ![t].c = guard[i[2]].nd] /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "same" ->
              /\ th' = IF guard[i[2]].nd = th[t].c THEN Pop(t) ELSE Fail(t, << <<"open", i[2]>> >>)
              /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "weak" ->
              /\ th' = IF i[4] # {} /\ "parts" \notin Without
                       THEN LET k == CHOOSE k \in i[4] : \A l \in i[4] : k <= l IN
                            IF k \in data[i[2]].kid
                            THEN Then(t, << <<"weak", k, 0, Kids(k)>>, <<"weak", i[2], i[3] + 1, i[4] \ {k}>> >>)
                            ELSE Then(t, << <<"weak", i[2], i[3], i[4] \ {k}>> >>)
                       ELSE IF data[i[2]].wk = (IF "parts" \in Without THEN Cardinality(data[i[2]].kid) ELSE i[3]) THEN Pop(t) ELSE Fail(t, <<>>)
              /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "begin" -> th' = [Pop(t) EXCEPT ![t].hs[th[t].i].x = TRUE] /\ UNCHANGED <<data, guard, gone>>
         \* ---- halves
         [] i[1] = "kid" ->
              IF i[3] \in data[i[2]].kid
              THEN data' = [data EXCEPT ![i[3]].st = @ + 1] /\ th' = Pop(t) /\ UNCHANGED <<guard, gone>>
              ELSE data' = [data EXCEPT ![i[2]].wk = @ + 1] /\ th' = Then(t, << <<"swap", i[2], i[3]>> >>) /\ UNCHANGED <<guard, gone>>
         [] i[1] = "swap" ->
              IF i[3] \in data[i[2]].kid
              THEN /\ data' = [data EXCEPT ![i[3]].st = @ + 1] /\ th' = Then(t, << <<"decW", i[2]>> >>) /\ UNCHANGED <<guard, gone>>
              ELSE /\ data' = [data EXCEPT ![i[3]].st = 2, ![i[2]].kid = @ \union {i[3]}] /\ th' = Pop(t) /\ UNCHANGED <<guard, gone>>
         \* ---- into_mut: mark the items, then take them
         [] i[1] = "move" ->
              /\ data' = [data EXCEPT ![i[2]].moved = i[3]]
              /\ th' = Then(t, IF "parts" \in Without THEN <<>> ELSE << <<"moveK", i[2], i[3], Kids(i[2])>> >>)
              /\ UNCHANGED <<guard, gone>>
         [] i[1] = "moveK" ->
              /\ th' = IF i[4] = {} THEN Pop(t)
                       ELSE LET k == CHOOSE k \in i[4] : \A l \in i[4] : k <= l IN
                            Then(t, (IF k \in data[i[2]].kid THEN << <<"move", k, i[3]>> >> ELSE <<>>) \o << <<"moveK", i[2], i[3], i[4] \ {k}>> >>)
              /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "take" ->
              IF data[i[2]].st = 1
              THEN LET kids == data[i[2]].kid IN
                   /\ data' = [data EXCEPT ![i[2]].st = 0, ![i[2]].kid = {}]
                   /\ th' = Then(t, (IF 1 \in kids THEN << <<"decD", 1>> >> ELSE <<>>) \o (IF 2 \in kids THEN << <<"decD", 2>> >> ELSE <<>>)
                                    \o (IF 3 \in kids THEN << <<"decD", 3>> >> ELSE <<>>)
                                    \o (IF i[2] = 0 THEN <<>> ELSE << <<"decW", Parent[i[2]]>> >>))
                   /\ UNCHANGED <<guard, gone>>
              ELSE /\ th' = Fail(t, << <<"move", i[2], FALSE>>, <<"open", i[3]>> >>) /\ UNCHANGED <<data, guard, gone>>
         \* ---- upgrade
         [] i[1] = "up" ->
              IF data[i[2]].st = 0 THEN th' = Nothing(t, <<>>) /\ UNCHANGED <<data, guard, gone>>
              ELSE /\ data' = [data EXCEPT ![i[2]].st = @ + 1]
                   /\ th' = Then(t, << <<"guard", i[2]>>, <<"climbR">>, <<"moved", i[2]>> >>)
                   /\ UNCHANGED <<guard, gone>>
         [] i[1] = "none" -> th' = Pop(t) /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "climbR" -> th' = Then(t, << <<"climb", th[t].r>> >>) /\ UNCHANGED <<data, guard, gone>>
         [] i[1] = "moved" ->
              /\ th' = IF data[i[2]].moved /\ "moved" \notin Without THEN Nothing(t, << <<"decD", i[2]>>, <<"decG", th[t].r>> >>)
                       ELSE Then(t, << <<"putR", i[2]>> >>)
              /\ UNCHANGED <<data, guard, gone>>

\* Between operations nothing of the last one is left
Finish(t) ==
    /\ th[t].stk = <<>> /\ th[t].op # ""
    /\ th' = [th EXCEPT ![t] = Idle(@.hs)]
    /\ UNCHANGED <<data, guard, gone, phase, left>>

Threads == IF phase = "setup" THEN {0} ELSE Thread
\* An owner of n or of something larger that no operation in progress is taking away
Stands(n, hs) == \E t \in DOMAIN hs : \E i \in 1..Len(hs[t].hs) : LET h == hs[t].hs[i] IN h.k = "s" /\ h.n \in {n} \union Above(n)

Quiet == \A t \in DOMAIN th : th[t].op = ""
Done == Quiet /\ phase = "run" /\ UNCHANGED vars

Next ==
    \/ /\ \/ \E t \in Threads : (th[t].op = "" /\ Start(t)) \/ Step(t) \/ Finish(t)
          \/ Share
       /\ exc' = { t \in Thread : th'[t].op = "upgrade" /\ (t \in exc \/ ~Stands(th'[t].h.n, th')) }
    \/ Done
Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Live == { <<t, i>> : t \in DOMAIN th, i \in 1..6 } \* places of handles
Has(p) == p[2] <= Len(th[p[1]].hs)
At(p) == th[p[1]].hs[p[2]]
Places == { p \in Live : Has(p) }

\* P12: mutable access excludes everything overlapping, and, for get_mut, weak references to (parts of) the slice
Exclusive ==
    \A p \in Places, q \in Places : p # q =>
        LET e == At(p) f == At(q) IN
        /\ (e.k = "m" \/ e.x) /\ f.k \in {"s", "m"} => ~Overlap(e.n, f.n)
        /\ e.x /\ f.k = "w" => e.n \notin {f.n} \union Above(f.n)

\* P11: nothing is destroyed twice, or while a handle shows it
Once == \A i \in 1..Len(gone), j \in 1..Len(gone) : gone[i] = gone[j] => i = j
Shown == UNION { IF At(p).k = "w" THEN {} ELSE ItemsOf[At(p).n] : p \in Places }
Safe == Once /\ \A i \in 1..Len(gone) : gone[i] \notin Shown

\* P11: an upgrade gives nothing only if at some moment during the call no owner stood
Excused == \A t \in Thread : th[t].stk # <<>> /\ th[t].stk[Len(th[t].stk)] = <<"none">> => t \in exc

\* P13: once all calls have returned, counts say exactly which handles there are, gates are open, and what nobody shows is gone
RECURSIVE Chain(_)
Chain(g) == IF g = 0 THEN {} ELSE {g} \union Chain(guard[g].par)
Handles(k, n) == { p \in Places : At(p).k = k /\ At(p).n = n }
Exact ==
    Quiet =>
    /\ \A g \in Guard : ~guard[g].shut
    /\ \A n \in Node :
        /\ data[n].st = Cardinality(Handles("s", n)) + (IF n # 0 /\ n \in data[IF n = 0 THEN 0 ELSE Parent[n]].kid THEN 1 ELSE 0)
        /\ data[n].wk = Cardinality(Handles("w", n)) + Cardinality({ k \in Kids(n) : data[k].st > 0 })
        /\ data[n].st > 0 => ~data[n].moved
    /\ \A g \in Guard :
        guard[g].st = Cardinality({ p \in Places : At(p).k = "s" /\ At(p).g = g }) + Cardinality({ f \in Guard : guard[f].st > 0 /\ guard[f].par = g })
    /\ \A p \in Places : At(p).k = "s" =>
        /\ At(p).g = data[At(p).n].g /\ guard[At(p).g].n = At(p).n
        /\ \A q \in Places : At(q).k = "s" /\ At(q).n \in Above(At(p).n) => At(q).g \in Chain(At(p).g)
    /\ { gone[i] : i \in 1..Len(gone) } = ItemsOf[0] \ Shown
=============================================================================
