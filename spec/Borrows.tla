------------------------------ MODULE Borrows ------------------------------
(***************************************************************************)
(* Which programs that use handles and the references they hand out are    *)
(* well-behaved.                                                           *)
(*                                                                         *)
(* A program works on variables.  The first is a handle of kind Kind,      *)
(* owned by the program or received through a shared or mutable reference  *)
(* (via); others are handles that operations returned, owned.  Every       *)
(* operation needs a kind of access to its handle                          *)
(*   sh  it is only looked at              (any via; any number at a time) *)
(*   ex  it is changed                     (not through a shared reference)*)
(*   as  another handle is put in its place(as ex; also when it is gone)   *)
(*   mv  it is consumed                    (only an owned handle)          *)
(* and yields nothing, a plain value, another handle, or a reference       *)
(* into the handle's items: shared (sh) or mutable (ex).  A reference that *)
(* is kept is used at the end of the program (or returned from it).        *)
(*                                                                         *)
(* A program is well-behaved if no kept reference can see its items        *)
(* change, be destroyed, or go to another owner: until a shared one's last *)
(* use its handle is only looked at, and until a mutable one's not even    *)
(* that.  Values and handles that were yielded stand for themselves:       *)
(* nothing happens to them with the handle they came from.                 *)
(*                                                                         *)
(* TLC prints every program up to Depth operations with the verdict:       *)
(*     B {k, via, ops, ret, ok}                                            *)
(* The compiler must accept exactly those with ok.                         *)
(*                                                                         *)
(* Well is not taken on trust: the machine also tracks what the memory     *)
(* looks like (which items a handle has, which were changed or went away   *)
(* since a reference was made), and the invariant Sound says that in a     *)
(* program judged ok no kept reference is to items that changed, and that  *)
(* one judged not ok does something wrong at its last step.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth,
          Roots      \* kinds of the first variable

Kinds == {"S", "W", "M", "I", "P", "Q"}
Vias  == {"own", "ref", "mut"}

O(op, acc, y) == [op |-> op, acc |-> acc, y |-> y]
Every == {O("assign", "as", "none"), O("drop", "mv", "none"), O("send", "mv", "none")}
Show == {O("debug", "sh", "val")}
View == {O("deref", "sh", "sh"), O("as_ref", "sh", "sh"), O("borrow", "sh", "sh")}
Walk(k) == {O("next", "ex", k), O("next_back", "ex", k), O("nth", "ex", k), O("len", "sh", "val"), O("size_hint", "sh", "val"),
            O("count", "mv", "val"), O("last", "mv", k), O("by_ref", "ex", "ex"), O("as_slice", "sh", "sh")}
Ops(k) == Every \cup
    CASE k = "S" -> Show \cup View \cup
                    {O("get_mut", "ex", "ex"), O("clone", "sh", "S"), O("clone_left", "sh", "S"), O("clone_right", "sh", "S"), O("downgrade", "sh", "W"),
                     O("eq", "sh", "val"), O("cmp", "sh", "val"), O("hash", "sh", "val"),
                     O("split_off_left", "ex", "S"), O("split_off_right", "ex", "S"), O("clone_from", "ex", "none"),
                     O("into_mut", "mv", "M"), O("try_into", "mv", "M"), O("split_into_parts", "mv", "P")}
      [] k = "W" -> {O("upgrade", "sh", "S"), O("clone", "sh", "W"), O("clone_from", "ex", "none")}
      [] k = "M" -> Show \cup View \cup
                    {O("deref_mut", "ex", "ex"), O("as_mut", "ex", "ex"), O("borrow_mut", "ex", "ex"), O("clone", "sh", "M"),
                     O("eq", "sh", "val"), O("cmp", "sh", "val"), O("hash", "sh", "val"),
                     O("split_off_left", "ex", "M"), O("split_off_right", "ex", "M"), O("clone_from", "ex", "none"),
                     O("into_immut", "mv", "S"), O("into", "mv", "S"), O("into_iter", "mv", "I"), O("split_into_parts", "mv", "Q")}
      [] k = "I" -> Show \cup Walk("val") \cup {O("as_mut_slice", "ex", "ex"), O("split_off_from", "ex", "I"), O("split_off_to", "ex", "I")}
      [] k = "P" -> Show \cup Walk("S") \cup {O("clone", "sh", "P"), O("clone_from", "ex", "none")}
      [] k = "Q" -> Show \cup Walk("M") \cup {O("as_mut_slice", "ex", "ex")}

VARIABLES via,     \* how the first variable was received
          vs,      \* variables: <<[k, st]>>
          refs,    \* kept references: <<[on, m]>>
          prog,    \* the operations: <<[op, on, keep]>>
          ret,     \* what is returned: 0 or number of a reference, and for how long
          ok,
          mem      \* what happened to the memory: [now: variable -> stamp, saw: reference -> stamp]
vars == <<via, vs, refs, prog, ret, ok, mem>>

Via(n) == IF n = 1 THEN via ELSE "own"

(* the rules *)
MayUse(n, acc) ==
    /\ acc # "as" => vs[n].st = "live"
    /\ acc \in {"ex", "as"} => Via(n) # "ref"
    /\ acc = "mv" => Via(n) = "own"
    /\ \A r \in 1..Len(refs) : refs[r].on = n => acc = "sh" /\ refs[r].m = "sh"

(* the memory: stamps of variables go up when their items change or leave *)
Touch(n, acc) == IF acc = "sh" THEN mem.now ELSE [mem.now EXCEPT ![n] = @ + 1]

Say(c) == PrintT("B " \o ToJson([k |-> c.vs[1].k, via |-> c.via, ops |-> c.prog, ret |-> c.ret, ok |-> c.ok]))
State == [vs |-> vs, via |-> via, prog |-> prog, ret |-> ret, ok |-> ok]

Init == /\ \E k \in Roots : vs = <<[k |-> k, st |-> "live"]>>
        /\ via \in Vias
        /\ refs = <<>>
        /\ prog = <<>>
        /\ ret = [r |-> 0, l |-> "-"]
        /\ ok = TRUE
        /\ mem = [now |-> <<0>>, saw |-> <<>>]

Call(n, o, keep) ==
    LET good == MayUse(n, o.acc)
        isref == o.y \in {"sh", "ex"}
        vs1 == [vs EXCEPT ![n].st = IF o.acc = "mv" THEN "gone" ELSE "live"]
        now == Touch(n, o.acc)
    IN /\ keep => isref
       /\ prog' = Append(prog, [op |-> o.op, on |-> n, k |-> vs[n].k, y |-> o.y, keep |-> keep])
       /\ ok' = good
       /\ vs' = IF o.y \in Kinds THEN Append(vs1, [k |-> o.y, st |-> "live"]) ELSE vs1
       /\ refs' = IF keep THEN Append(refs, [on |-> n, m |-> o.y]) ELSE refs
       /\ mem' = [now |-> IF o.y \in Kinds THEN Append(now, 0) ELSE now,
                  saw |-> IF keep THEN Append(mem.saw, now[n]) ELSE mem.saw]
       /\ UNCHANGED <<via, ret>>
       /\ (~good \/ (Len(prog) + 1 = Depth /\ ~keep)) => Say(State')

(* return a kept reference: it lives as long as the reference the handle came by, no longer *)
Return(r, l) ==
    LET good == refs[r].on = 1 /\ via # "own" /\ l = "a"
    IN /\ ret' = [r |-> r, l |-> l]
       /\ ok' = good
       /\ UNCHANGED <<via, vs, refs, prog, mem>>
       /\ Say(State')

Next == /\ ok
        /\ ret.r = 0
        /\ \/ /\ Len(prog) < Depth
              /\ \E n \in 1..Len(vs) : \E o \in Ops(vs[n].k), keep \in BOOLEAN : Call(n, o, keep)
           \/ \E r \in 1..Len(refs), l \in {"a", "static"} : Return(r, l)

Stale == \E r \in 1..Len(refs) : mem.now[refs[r].on] # mem.saw[r]
Sound ==
    /\ ok => ~Stale /\ \A r \in 1..Len(refs) : vs[refs[r].on].st = "live"
    /\ (~ok /\ ret.r = 0) =>
          LET p == prog[Len(prog)]
              acc == (CHOOSE o \in Ops(p.k) : o.op = p.op).acc
          IN \/ Stale
             \/ \E r \in 1..Len(refs) : refs[r].on = p.on /\ refs[r].m = "ex"      \* seen while it may be written
             \/ acc # "sh" /\ Via(p.on) # "own"                                   \* somebody else's handle
             \/ acc # "as" /\ \E q \in 1..(Len(prog) - 1) : prog[q].on = p.on /\ (CHOOSE o \in Ops(prog[q].k) : o.op = prog[q].op).acc = "mv"

-----------------------------------------------------------------------------
(* Items that borrow.  A handle may be used as one whose items live shorter, never longer (dir), itself or through a shared reference *)
(* but not through a mutable one; and it must be gone before what its items refer to is (order), unless its items cannot be reached.  *)
VInit == /\ \E k \in Kinds : vs = <<[k |-> k, st |-> "live"]>>
         /\ via \in Vias
         /\ refs = <<>> /\ prog = <<>> /\ ret = [r |-> 0, l |-> "-"] /\ ok = TRUE /\ mem = 0
VNext == /\ ret.l = "-"
         /\ \/ \E l \in {"shorter", "longer"} : /\ ret' = [r |-> 0, l |-> l]
                                                /\ ok' = (l = "shorter" /\ via # "mut")
            \/ \E l \in {"before", "after"} : /\ via = "own"
                                              /\ l = "after" => vs[1].k # "W"
                                              /\ ret' = [r |-> 0, l |-> l]
                                              /\ ok' = (l = "before")
         /\ UNCHANGED <<via, vs, refs, prog, mem>>
         /\ Say(State')
=============================================================================
