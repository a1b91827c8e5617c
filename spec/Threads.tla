------------------------------ MODULE Threads ------------------------------
(***************************************************************************)
(* Which handles may be sent to another thread (Send) or used by two       *)
(* threads through a shared reference (Sync), depending on whether the     *)
(* item type is Send and/or Sync.                                          *)
(*                                                                         *)
(* Required is the table the library must show.  It is not taken on trust: *)
(* a small machine (two threads, handles to a slice of two items made by   *)
(* thread 1) moves, borrows and operates handles as far as a table allows, *)
(* and looks for what the item type forbids:                               *)
(*   - an item that is not Send is owned, mutated or destroyed elsewhere   *)
(*   - an item that is not Sync is in reach of two threads                 *)
(*   - counts that are not atomic are in reach of two threads (rc)         *)
(* With the table as required none of this is reachable; with any entry of *)
(* the arc table that is FALSE changed to TRUE it is.  So for arc the      *)
(* table is the largest sound one, which is what the property demands.     *)
(* TLC prints "V n" for a configuration n in which trouble is reachable.   *)
(*                                                                         *)
(* Facts observed of the real types (FACTS) are compared with Required:    *)
(* "A n" or "R n" for each.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Num     \* handles alive at a time

Families == {"rc", "arc"}
Shared == {"S", "W", "P"}      \* shared slice, weak reference, shared parts
Mut    == {"M", "I", "Q"}      \* mutable slice, its item iterator, its parts
Kinds  == Shared \cup Mut
Traits == {"Send", "Sync"}
Caps   == [send : BOOLEAN, sync : BOOLEAN]

Required(fam, k, trait, caps) ==
    CASE fam = "rc"   -> FALSE
      [] k \in Shared -> caps.send /\ caps.sync
      [] trait = "Send" -> caps.send
      [] OTHER        -> caps.sync

-----------------------------------------------------------------------------
\* configurations: the required table, or with one more entry
None == <<"-", "-">>
Configs == {c \in [fam : Families, caps : Caps, more : {None} \cup (Kinds \X Traits)] :
               c.more = None \/ (~Required(c.fam, c.more[1], c.more[2], c.caps))}
Name(c) == <<c.fam, IF c.caps.send THEN 1 ELSE 0, IF c.caps.sync THEN 1 ELSE 0, c.more[1], c.more[2]>>

VARIABLES cfg,    \* configuration
          hs,     \* bag of handles: a function from handle number to record or "-"
          lent,   \* handle numbers the other thread has a shared reference to
          sick    \* what went wrong
vars == <<cfg, hs, lent, sick>>

N == 1..Num
Nothing == [k |-> "-", at |-> 0, items |-> {}]
H(k, at, items) == [k |-> k, at |-> at, items |-> items]

Can(k, trait) == Required(cfg.fam, k, trait, cfg.caps) \/ cfg.more = <<k, trait>>

Init == /\ cfg \in Configs
        /\ hs \in {[n \in N |-> IF n = 1 THEN H(k, 1, {1, 2}) ELSE Nothing] : k \in {"S", "M"}}
        /\ lent = {}
        /\ sick = {}

Other(t) == 3 - t
Used == {n \in N : hs[n].k # "-"}
Free == N \ Used
Strong(k) == k # "W"
\* threads that can get at an item through a handle or a reference to one
Reach(hh, ll, i) == {hh[n].at : n \in {m \in N : i \in hh[m].items}} \cup {Other(hh[n].at) : n \in {m \in ll : i \in hh[m].items}}
\* threads that can get at the counts
Counts(hh, ll) == {hh[n].at : n \in {m \in N : hh[m].k # "-"}}
                  \cup {Other(hh[n].at) : n \in {m \in ll : hh[m].k \in Shared}}

Trouble(hh, ll, owners) ==
    (IF ~cfg.caps.sync /\ \E i \in {1, 2} : Cardinality(Reach(hh, ll, i)) > 1 THEN {"not Sync"} ELSE {})
    \cup (IF ~cfg.caps.send /\ owners \ {1} # {} THEN {"not Send"} ELSE {})
    \cup (IF cfg.fam = "rc" /\ Cardinality(Counts(hh, ll)) > 1 THEN {"counts"} ELSE {})

\* weak references without a strong owner reach nothing
Settle(hh) ==
    [n \in N |-> IF hh[n].k # "W" THEN hh[n]
                 ELSE [hh[n] EXCEPT !.items = @ \cap UNION {hh[m].items : m \in {x \in N : hh[x].k \in {"S", "P"}}}]]

\* owners: threads that own, mutate or destroy items in this step
Do(hh, ll, owners) ==
    LET h2 == Settle(hh)
        l2 == {n \in ll : h2[n].k # "-"}
        tr == Trouble(h2, l2, owners)
    IN /\ hs' = h2
       /\ lent' = l2
       /\ sick' = tr
       /\ cfg' = cfg
       /\ tr # {} => PrintT("V " \o ToJson(Name(cfg)))

Send(n) == /\ n \notin lent
           /\ Can(hs[n].k, "Send")
           \* what is moved: the items go along with a handle that owns them
           /\ Do([hs EXCEPT ![n].at = Other(@)], lent, IF hs[n].k \in Mut THEN {Other(hs[n].at)} ELSE {})
Lend(n) == /\ n \notin lent
           /\ Can(hs[n].k, "Sync")
           /\ Do(hs, lent \cup {n}, {})
Back(n) == /\ n \in lent
           /\ Do(hs, lent \ {n}, {})

\* new handles made through a shared reference, by thread t
Make(n, t) ==
    LET new == CASE hs[n].k = "S" -> {H("S", t, hs[n].items), H("S", t, {1} \cap hs[n].items), H("W", t, hs[n].items)}
                 [] hs[n].k = "W" -> {H("W", t, hs[n].items)} \cup (IF hs[n].items = {} THEN {} ELSE {H("S", t, hs[n].items)})
                 [] hs[n].k = "P" -> {H("P", t, hs[n].items)}
                 [] OTHER -> {}
    IN \E h \in new, f \in Free : /\ \A g \in Free : f <= g
                                  /\ Do([hs EXCEPT ![f] = h], lent, {})

Unique(n) == \A m \in N \ {n} : hs[m].k = "W" \/ hs[m].items \cap hs[n].items = {}
\* operations that need the handle itself, by the thread it is at
Own(n) ==
    LET h == hs[n] t == h.at IN
    /\ n \notin lent
    /\ \/ /\ h.k = "S" /\ Unique(n) /\ Do([hs EXCEPT ![n].k = "M"], lent, {t})          \* into_mut, get_mut
       \/ /\ h.k = "S" /\ Do([hs EXCEPT ![n].k = "P"], lent, {})
       \/ /\ h.k = "M" /\ \E k \in {"S", "I", "Q"} : Do([hs EXCEPT ![n].k = k], lent, {t})
       \/ /\ h.k \in {"P", "Q"} /\ Cardinality(h.items) = 2                              \* yield a part
          /\ \E f \in Free : Do([hs EXCEPT ![n].items = {2}, ![f] = H(IF h.k = "P" THEN "S" ELSE "M", t, {1})], lent, IF h.k = "Q" THEN {t} ELSE {})
       \/ /\ h.k = "M" /\ Cardinality(h.items) = 2                                       \* split
          /\ \E f \in Free : Do([hs EXCEPT ![n].items = {2}, ![f] = H("M", t, {1})], lent, {t})
       \/ Do([hs EXCEPT ![n] = Nothing], lent,                                           \* drop
             IF Strong(h.k) /\ \E i \in h.items : \A m \in N \ {n} : hs[m].k = "W" \/ i \notin hs[m].items THEN {t} ELSE {})

Next == /\ sick = {}
        /\ \E n \in Used :
              \/ Send(n) \/ Lend(n) \/ Back(n) \/ Own(n)
              \/ Make(n, hs[n].at)
              \/ n \in lent /\ Make(n, Other(hs[n].at))

\* P15 on the machine: the required table is sound
Sound == cfg.more = None => sick = {}

-----------------------------------------------------------------------------
(* Facts observed of the real types *)
Facts == ndJsonDeserialize(IOEnv.FACTS)
FactOk(f) == f.holds = Required(f.fam, f.k, f.trait, [send |-> f.send, sync |-> f.sync])

FInit == cfg \in 1..Len(Facts) /\ hs = 0 /\ lent = 0 /\ sick = 0
FNext == /\ hs = 0
         /\ hs' = 1
         /\ UNCHANGED <<cfg, lent, sick>>
         /\ PrintT((IF FactOk(Facts[cfg]) THEN "A " ELSE "R ") \o ToString(cfg))
=============================================================================
