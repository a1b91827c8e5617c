------------------------------ MODULE SliceGen ------------------------------
(***************************************************************************)
(* Enumerates the abstract machine and prints every transition as a test:  *)
(* the operations leading to a state, the operation and what must be seen  *)
(* afterwards.  Also checks the state invariants and the action properties *)
(* on every transition.                                                    *)
(*                                                                         *)
(* Spec explores exhaustively (one "T" line per transition, modulo View).  *)
(* SpecWalk is for simulation mode: one "T" line per random behaviour with *)
(* the expectations of each of its steps and a fingerprint of each state   *)
(* (equal fingerprints = the behaviour went round a cycle).                *)
(***************************************************************************)
EXTENDS Slice, Json, IOUtils, TLCExt

CONSTANTS NSlots,     \* number of slots
          MaxBufs,    \* live buffers
          MaxDepth,   \* operations per behaviour
          Lens,       \* lengths of new slices
          OpNames,    \* operations explored
          SetupOps,   \* ops only used (first) at depth < SetupDepth, e.g. "new"
          SetupDepth,
          PartLogs,   \* log2 of part counts
          BadParts,   \* invalid part counts
          Positions,  \* positions written through set / gm
          Skips,      \* items or parts skipped by nth
          Ghost,      \* distinguish states by the slices that ever existed as well?
          Prov,       \* ... and by what was alive when a weak reference was upgraded / a slice was frozen?
          Trail,      \* ... and by what handles of these kinds that were assigned over (and what comes from them) were before
          Emit        \* print the transitions?

VARIABLES st, hist, mem, prov, fin

vars == <<st, hist, mem, prov, fin>>
\* slots are interchangeable, ids do not influence behaviour
Rec(h) == <<h.k, h.b, h.t, h.lo, h.hi, h.lg, h.nf, h.nb, h.w>>
Bag(hs) == LET rec(s) == <<Rec(hs[s]), prov[s]>>
               rs == {rec(s) : s \in DOMAIN hs}
           IN {<<r, Cardinality({s \in DOMAIN hs : rec(s) = r})>> : r \in rs}
\* mem (history): which slices of a buffer ever had a handle or a weak reference of their own.
\* It has no influence on what the machine allows; the code however keeps data about such slices.
View == <<Bag(st.hs), [b \in UsedBufs(st.hs) |-> st.bufs[b].n], mem>>

Args(o, s) ==
    CASE o \in {"new", "newm"} -> Lens
      [] o = "gm"  -> {0} \cup {p + 1 : p \in {x \in Positions : x < Size(st.hs[s])}}
      [] o = "set" -> {p \in Positions : p < Size(st.hs[s])}
      [] o \in {"sf", "st"} -> 0..(Size(st.hs[s]) + 1)
      [] o = "pt"  -> PartLogs
      [] o = "cf" /\ Trail # {} /\ (st.hs[s].k \notin Trail \/ \E x \in DOMAIN prov : prov[x] # {}) -> {}      \* one assignment
      [] o = "cf"  -> {x \in DOMAIN st.hs \ {s} : st.hs[x].k = st.hs[s].k /\ \A y \in 1..(x - 1) : y = s \/ st.hs[x] # st.hs[y]}
      [] o = "bp"  -> BadParts
      [] o \in {"nt", "nk"} -> Skips
      [] OTHER -> {0}

Depth == Len(hist)
FirstOfKind(s) == \A x \in 1..(s - 1) : st.hs[x] # st.hs[s] \/ prov[x] # prov[s]

OpsNow ==
    {Op(o, 0, a) : o \in (IF Depth < SetupDepth THEN SetupOps ELSE {}) \cap {"new", "newm"}, a \in Lens}
    \cup (IF "cp" \in OpNames THEN {Op("cp", 0, a) : a \in Lens} ELSE {})
    \cup (IF "wn" \in OpNames THEN {Op("wn", 0, 0)} ELSE {})
    \cup UNION {UNION {{Op(o, s, a) : a \in Args(o, s)} :
                        s \in {x \in DOMAIN st.hs : st.hs[x].k \in Kinds(o) /\ FirstOfKind(x)}} :
                o \in OpNames \ {"new", "newm", "wn", "cp"}}

NewBuf(op) == op.o \in {"new", "newm"} \/ (op.o = "clone" /\ st.hs[op.s].k = "M")

Init == st = InitSt(NSlots) /\ hist = <<>> /\ mem = {} /\ prov = [s \in 1..NSlots |-> {}] /\ fin = FALSE

Remember(q) ==
    IF ~Ghost THEN {}
    ELSE LET used == UsedBufs(q.hs)
             seen == {<<q.hs[s].b, IF q.hs[s].k = "W" THEN "W" ELSE "S", q.hs[s].lo, q.hs[s].hi>> :
                        s \in {x \in DOMAIN q.hs : q.hs[x].k \in {"S", "W", "M"} /\ q.hs[x].b # 0}}
         IN {m \in mem : m[1] \in used} \cup seen

\* prov (history): for a slice that came out of a weak reference, the larger or equal slices that had a
\* handle at that moment (what the code could link it to), marked; its copies and parts are ordinary.
Provenance(op, out) ==
    IF Trail # {}
    THEN [s \in DOMAIN prov |->
            LET h == out.st.hs[s] IN
            IF h.k = "-" THEN {}
            ELSE IF op.o = "cf" /\ op.s = s
            THEN IF st.hs[s] = st.hs[op.a] THEN prov[s] ELSE {<<st.hs[s].lo, st.hs[s].hi>>}
            ELSE IF out.res = Res("h", <<s>>) /\ op.s # 0 THEN prov[op.s]
            ELSE IF h.k = st.hs[s].k THEN prov[s] ELSE {}]
    ELSE IF ~Prov THEN prov
    ELSE [s \in DOMAIN prov |->
            LET h == out.st.hs[s] IN
            IF h.k # "S" THEN {}
            ELSE IF op.o = "up" /\ out.res = Res("h", <<s>>)
            THEN {<<0, 0>>} \cup {<<st.hs[x].lo, st.hs[x].hi>> :
                    x \in {y \in DOMAIN st.hs : st.hs[y].k = "S" /\ st.hs[y].t = h.t /\ st.hs[y].b = h.b
                                               /\ Within(<<h.lo, h.hi>>, <<st.hs[y].lo, st.hs[y].hi>>)}}
            ELSE IF h = st.hs[s] THEN prov[s] ELSE {}]

\* P02: the items destroyed are exactly those no owner reaches any more (restated independently of Lost)
CoveredIds(q) == UNION {LET r == RangeOf(q.hs[s]) IN {ItemAt(q.bufs[q.hs[s].b], p) : p \in r[1]..(r[2] - 1)} :
                        s \in {x \in DOMAIN q.hs : IsOwner(q.hs[x])}}
IdsOf(runs) == UNION {runs[i][1]..(runs[i][1] + runs[i][2] - 1) : i \in DOMAIN runs}
OutcomeOk(q, op, out) ==
    LET moved == IF out.res.t = "item" THEN {out.res.v[1]} ELSE {}
        passing == q.nid..(out.st.nid - 1)        \* items made in this step
    IN /\ IdsOf(out.d) = ((CoveredIds(q) \cup passing) \ CoveredIds(out.st)) \ moved
       /\ moved \cap CoveredIds(out.st) = {}
       /\ \* conversions, failed conversions, splitting, cloning and downgrading destroy nothing
          op.o \in {"im", "fz", "it", "sl", "sr", "clone", "cl", "cr", "dg", "up", "sf", "st", "pt", "nx", "nb"} => out.d = <<>>
       /\ \* nothing but the slot operated on, new slots and weak references change what they show
          \A s \in DOMAIN q.hs : (s # op.s /\ IsOwner(q.hs[s])) => Shows(out.st, s) = Shows(q, s)
       /\ \* a dead weak reference stays dead
          \A s \in DOMAIN q.hs : (s # op.s /\ q.hs[s] = DeadW) => out.st.hs[s] = DeadW

Step(op) ==
    LET outs == Apply(st, op)
    IN \E out \in outs :
        /\ Assert(OutcomeOk(st, op, out), <<"outcome", st, op, out>>)
        /\ st' = out.st
        /\ mem' = Remember(out.st)
        /\ prov' = Provenance(op, out)
        /\ fin' = fin
        /\ hist' = Append(hist, <<op.o, op.s, op.a, out.res.t, out.res.v>>)
        /\ (Emit /\ (Trail # {} => op.o \in {"cf", "up", "gm", "im"} /\ \E s \in DOMAIN prov' : prov'[s] # {})) => PrintT("T " \o ToJson([p |-> hist', dc |-> Cardinality(outs) > 1, d |-> out.d, ob |-> Obs(out.st)]))

Allowed(op) == /\ CanApply(st, op)
               /\ NewBuf(op) => Cardinality(UsedBufs(st.hs)) < MaxBufs

Next == /\ Depth < MaxDepth
        /\ \E op \in OpsNow : Allowed(op) /\ Step(op)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Random behaviours (tlc -simulate) *)

WalkOps == {op \in OpsNow : Allowed(op)}

WalkStep ==
    /\ ~fin
    /\ Depth < MaxDepth
    /\ LET ops == WalkOps IN
       /\ ops # {}
       /\ \E nm \in {RandomElement({op.o : op \in ops})} :
          \E op \in {RandomElement({x \in ops : x.o = nm})} :
          LET outs == Apply(st, op) IN
          \* where the machine leaves a choice the real code may go the other way: seldom go there
          IF Cardinality(outs) > 1 /\ RandomElement(1..10) > 1 THEN UNCHANGED vars
          ELSE
          \E out \in {RandomElement(outs)} :
            /\ Assert(OutcomeOk(st, op, out), <<"outcome", st, op, out>>)
            /\ st' = out.st
            /\ hist' = Append(hist, <<op.o, op.s, op.a, out.res.t, out.res.v, Cardinality(outs) > 1, out.d, Obs(out.st),
                                      TLCFP(<<out.st.hs, [b \in UsedBufs(out.st.hs) |-> out.st.bufs[b].n]>>)>>)
            /\ UNCHANGED <<mem, prov, fin>>

WalkEnd ==
    /\ ~fin
    /\ IF Depth = MaxDepth THEN TRUE ELSE WalkOps = {}
    /\ fin' = TRUE
    /\ PrintT("T " \o ToJson([p |-> hist]))
    /\ UNCHANGED <<st, hist, mem, prov>>

NextWalk == WalkStep \/ WalkEnd

SpecWalk == Init /\ [][NextWalk]_vars

InvOk == StateOk(st)
=============================================================================
