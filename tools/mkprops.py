#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
RS="src/rc/rc_slice.rs"; RM="src/rc/rc_slice_mut.rs"; AS="src/arc/arc_slice.rs"; AM="src/arc/arc_slice_mut.rs"
SI="src/internal/slice_model/slice_items.rs"; SA="src/internal/slice_model/slice_alloc.rs"; SM="src/internal/slice_model/mod.rs"
BP="src/internal/bin_parts_iter.rs"; GA="src/internal/gate.rs"; MAC="src/internal/macros"
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("P01","Every slice handle shows exactly its own items, in order",
 "At every moment of every history, a shared or mutable slice handle dereferences to exactly the items of its subslice in their original order, and operations on other handles never change what it shows except through a legitimate mutation of those very items. Taking the left or right half of a slice of n items gives its first floor(n/2) items or the rest; splitting a half off leaves the other half behind; halving an empty slice, or taking the right half of a one-item slice, gives the slice itself.",
 ["inputs","histories"],"all lengths, element types and sequences of construct/clone/halve/split/convert/drop over any number of coexisting handles, both the Rc and the Arc family",
 "Tests check a handful of 1-8 item slices after one or two splits; they never look at the other live handles after each operation nor at odd lengths deep in a hierarchy.",
 [RS,RM,AS,AM,SI],
 [("left_sub/right_sub halving arithmetic and clone_child node sharing",RS),("same, atomic child pointers",AS),("SliceItems split_off_left/right",SI)],
 [("data node ptr/len","which items a node spans",RS),("child pointers","lazily created, shared sub-nodes",RS+", "+AS)],
 ["Deref of every live handle after every call"])
prop("P02","Every item is destroyed exactly once, exactly when nothing reaches it",
 "Each item put into a slice is destroyed exactly once: during the operation that removes the last owner covering it (shared slices, mutable slices, item iterators and parts iterators all own what they cover; weak references do not), never earlier and never later. Conversions between shared and mutable forms, failed conversions and splitting destroy nothing.",
 ["inputs","histories"],"all sequences of operations over any number of overlapping handles, including lazily created sub-slices that outlive their parents, and every order of dropping",
 "Destruction of a parent depends on which children were ever created and are still alive: an exponential family of hierarchies and drop orders, of which the tests exercise about ten.",
 [RS,AS,RM,AM,SI],
 [("Drop for the slice data node: destroys only the part not delegated to children",RS),("same",AS),("forget_items during conversion",RS+", "+AS),("Drop for SliceItems/SliceItemsIter/SliceItemsParts",SI)],
 [("child links","who is responsible for which half",RS)],["item destructors"])
prop("P03","The backing buffer lives as long as needed, and no memory is leaked",
 "The memory that holds the items stays allocated while any handle covers an item in it and is returned exactly once, no later than when the last slice, mutable slice or iterator over it is gone, even if weak references remain. When all handles including weak ones are gone, the library holds no memory at all, and repeating create/split/upgrade/drop cycles on a long-lived slice does not make memory use grow.",
 ["inputs","histories"],"all histories, lengths (including 0) and element types, and any number of repetitions of a cycle",
 "No test observes the allocator; a leaked or prematurely freed buffer, or bookkeeping that accumulates per cycle, passes every existing assertion.",
 [SA,SM,RS,AS,RM,AM],
 [("SliceAlloc Drop frees the buffer; every non-empty handle holds a reference to it",SA),("alloc sharing rules on split/next/into_iter",RM+", "+AM),("guard bookkeeping of a slice node",AS)],
 [("alloc reference","who keeps the buffer alive","alloc fields of all handle structs")],["a counting global allocator"])
prop("P04","get_mut gives access exactly when the handle is the only way in",
 "get_mut on a shared slice succeeds only if no other handle or iterator that can still read any of its items exists and no weak reference to it or to any part of it exists; what it returns is exactly the handle's items. If no overlapping slice or iterator exists and no weak reference to it or a part of it is left, get_mut does succeed, whatever happened before (handles without items taken from inside the slice may or may not count).",
 ["histories","inputs"],"all single-threaded histories that create and remove overlapping slices, parts iterators and weak references (also ones whose slice handle is long gone) at any place of the hierarchy, both families",
 "The answer depends on the whole hierarchy of live ancestors, descendants and weak references with gaps; tests try six hierarchies for the Rc family and none for the Arc family.",
 [RS,AS],
 [("strong counts of data node and of the get-mut guard chain",RS),("weak/strong counts of the data guard and data node behind two gates",AS)],
 [("GetMutGuard tree","weak and strong presence below a node",RS),("DataGuard tree","strong presence below a node",AS)],["return value and contents of get_mut"])
prop("P05","into_mut converts exactly when no other owner overlaps, else changes nothing",
 "Converting a shared slice into a mutable one succeeds exactly when no other slice or parts iterator shares any of its items (weak references do not matter), and then the mutable slice holds the same items in the same order and every weak reference to them is dead for good. Otherwise the very same handle is handed back, still fully usable, and nothing else changes. (Handles without items taken from inside the slice may or may not count as sharing it.)",
 ["histories","inputs"],"all single-threaded histories over overlapping slices, iterators and weak references at any place of the hierarchy, both families",
 "Success depends on the live ancestors and descendants, and the conversion has to neutralise every lazily created sub-slice record below; tests cover two small trees.",
 [RS,AS],
 [("into_mut guard/strong-count test, then forget_items over the whole sub-tree",RS+", "+AS)],
 [("IntoMutGuard/DataGuard strong count","live descendants",RS+", "+AS)],["result of into_mut / TryFrom, all other handles, destructors"])
prop("P06","A weak reference revives its slice exactly while an owner covers it",
 "Upgrading a weak reference succeeds exactly while some owner of that slice or of a larger slice containing it (in the hierarchy it came from) is still alive, and then yields a slice with the same items that counts as a full owner from then on. Once it fails it fails forever, also after the items were converted to mutable and back; weak references never keep items alive, and one made from nothing never upgrades.",
 ["histories","inputs"],"all single-threaded histories mixing downgrade, clone of weak references, drop of any ancestor or descendant, upgrade, conversions",
 "Tests use at most three generations and one order of drops; the Arc family's weak references are not tested at all.",
 [RS,AS],
 [("Weak::upgrade of the data node plus re-creation of the guard chain",RS),("same with DataGuard::guard",AS)],
 [("weak data pointer + guard pointer","which node a weak reference denotes",RS+", "+AS)],["result of upgrade, later get_mut/into_mut of all relatives"])
prop("P07","Mutable slices own disjoint ranges and survive freezing and thawing intact",
 "A mutable slice is the only route to its items: splitting partitions it exactly at the midpoint, writes through one handle are visible only through that handle (and to whatever it is later converted into), and clone makes an independent copy. Freezing it into a shared slice and thawing it back, any number of times and on any sub-range, preserves items, order and writes.",
 ["histories","inputs"],"all histories of split/write/clone/freeze/thaw/iterate/drop over all handles of one or more buffers, all lengths, both families",
 "Tests write to one element of one handle once; they do not check the neighbours' contents nor mixed freeze/thaw hierarchies on sub-ranges of one buffer.",
 [RM,AM,SI,RS,AS],
 [("SliceItems split arithmetic",SI),("into_immut / from_raw_parts hand-over",RM+", "+AM)],[],["contents of all handles after each write"])
prop("P08","The item iterator yields every remaining item once, from both ends",
 "Consuming a mutable slice as an iterator yields its items by value, each exactly once, from the front in order and from the back in reverse under any interleaving, then keeps returning nothing; its reported length and its slice view always equal what remains, and what is not yielded is destroyed with the iterator. Splitting the iterator at any position up to its length partitions what remains; a position beyond it panics and leaves the iterator unchanged.",
 ["inputs","histories"],"all lengths, interleavings of front/back steps, writes through the view and nested splits at all positions, both families, sized and zero-sized items",
 "Tests follow a few fixed walks over up to 8 items.",
 [SI,RM,AM],[("SliceItemsIter start/end range and zst index emulation",SI),("early release of the buffer on exhaustion",RM+", "+AM)],
 [("range start/end","what remains",SI)],["returned items, len, size_hint, as_slice, destructors"])
prop("P09","Shared parts iteration partitions the slice into equal-depth halvings",
 "Splitting a shared slice into 2^k parts yields exactly 2^k slices which are the k-fold halvings of the slice in order, from either end under any interleaving, and then nothing; the reported length and the view of the remainder always match what is left, and yielded parts are independent owners. Cloning the iterator at any point gives an independent iterator with the same remainder; a part count that is zero or not a power of two panics.",
 ["inputs","histories"],"all lengths against all part counts (also more parts than items), all interleavings of next and next_back, clones at any point, debug and release builds",
 "The tests enumerate walks for 4 parts and one walk for 32, and clone once when nothing more has to be split.",
 [BP,RS,AS],[("deque of pending slices; number of splits computed from trailing zeros",BP)],
 [("deque","pending sub-slices",BP),("num_yielded_front/back","position",BP)],["yielded slices, len, as_slice, Clone"])
prop("P10","Mutable parts iteration partitions the slice into disjoint mutable parts",
 "Splitting a mutable slice into 2^k parts yields exactly 2^k mutable slices which are its k-fold halvings in order, from either end under any interleaving, and then nothing; parts and remainder never overlap and together always cover everything not yet destroyed. Length, read and write views of the remainder match what is left, dropping the iterator destroys exactly the remainder, and an invalid part count panics and destroys the items once.",
 ["inputs","histories"],"all lengths against all part counts, all interleavings of next and next_back with writes through the remainder view and through yielded parts, both families",
 "The tests enumerate walks for 4 parts on 4 items and one walk each for 16 and 32.",
 [SI,RM,AM],[("bit walk over the number of yielded parts",SI),("buffer reference hand-over when the remainder becomes empty",RM+", "+AM)],
 [("num_yielded_front/back","position",SI)],["yielded parts, len, as_slice, as_mut_slice, destructors"])
prop("P11","Sharing an Arc slice between threads is safe under every interleaving",
 "For every interleaving of threads that clone, halve, split, iterate in parts, downgrade, upgrade, convert and drop overlapping atomically counted slices, every handle shows its items while it lives, every item is destroyed exactly once and only after the last owner covering it started to go away, and the memory is freed once, with nothing leaked after all threads are done. Results of upgrade agree with some sequential order of the calls, where a call in progress may still count as an owner of the slices it works on.",
 ["schedules","programs"],"all schedules of atomic steps of 2-3 concurrent threads over all small programs of slice operations",
 "The tests start four threads that split the same slice and hope that the scheduler produces a race; upgrade and conversion are never run concurrently.",
 [AS,AM,GA],[("compare-and-swap publication of child nodes and undo of the loser",AS),("guard re-creation loop",AS),("Drop of the data node",AS)],
 [("left_child/right_child","published child nodes",AS),("guard","current guard of a node",AS)],["call/return of each operation, destructors, allocator"])
prop("P12","Exclusive access to an Arc slice is exclusive under every schedule",
 "Whenever get_mut or into_mut succeeds on an atomically counted slice, then for as long as the mutable access lasts no other thread has or can obtain a slice or iterator overlapping it, whatever clone, halve, downgrade, upgrade or drop calls run at the same time. All accesses made earlier through handles that have since gone away happen before the mutable access begins.",
 ["schedules","programs"],"all schedules of atomic steps of 2-3 threads where one asks for exclusive access while others hold, create and drop overlapping slices and weak references",
 "No test calls get_mut or into_mut on an Arc slice from more than one thread.",
 [AS,GA],[("gates around the count checks",AS+", "+GA),("try_unwrap + forget_items",AS)],
 [("clone_child_gate/downgrade_gate","exclude racing clones and downgrades",AS)],["result of get_mut/into_mut/upgrade and the period of the mutable borrow"])
prop("P13","Arc slice operations always finish, and contention leaves nothing behind",
 "Under every schedule in which running threads are given time, every operation on atomically counted slices returns: there is no deadlock and no endless wait. Once concurrent calls have returned, get_mut, into_mut, cloning and downgrading answer exactly as if the calls had been made one after another, so no failed or contended attempt permanently blocks later ones.",
 ["schedules","programs"],"all schedules of 2-3 threads contending for halving, downgrading, upgrading and exclusive access on one slice hierarchy, followed by quiescent probes",
 "A gate that stays closed after one rare interleaving only hangs or denies a later call; the tests never contend on gates.",
 [GA,AS],[("Latch Drop reopens the gate",GA),("spin waits",GA),("retry loop in guard",AS)],
 [("is_closed","gate state",GA)],["termination of every call; results of calls after quiescence"])
prop("P14","Panicking or re-entrant item destructors never corrupt anything",
 "If an item's destructor (or the clone of an item) panics while a handle is dropped, written through, cloned or iterated, no item is ever destroyed twice or read after destruction, the buffer is still freed once, and all other handles keep showing their items. The same holds when a destructor calls back into the library through weak references or other handles of the same slice.",
 ["fault_sequences","histories"],"every choice of which item panics or re-enters, at every destruction point of every history",
 "No test has a destructor that panics or that uses the slice it is part of.",
 [RS,AS,SI,SA],[("order of child release, item destruction and buffer release in Drop",RS+", "+AS),("field order items before alloc",RM+", "+AM)],
 [],["destructors, allocator, contents of other handles"])
prop("P15","Handles cross threads only when the item type allows it",
 "An Arc shared slice, its weak reference and its parts iterator can be sent or shared between threads only if the item type is both Send and Sync; the Arc mutable slice and its iterators can be sent exactly if the items are Send and shared exactly if the items are Sync; no handle of the Rc family can be sent or shared. When the item type has these capabilities, the Arc handles have them too.",
 ["programs"],"all public handle types times all combinations of Send/Sync of the item type",
 "These are compile-time facts in hand-written unsafe impls; tests only show that one good case compiles, they cannot show that bad cases do not.",
 [AS,SI,SA],[("unsafe impl Send/Sync for the data node",AS),("unsafe impl Send/Sync for SliceItems, SliceItemsIter, SliceItemsParts",SI),("unsafe impl for SliceAlloc",SA)],[],["auto-trait facts of public types"])
prop("P16","Handles compare, hash, print and convert exactly like the slice they show",
 "For all handles and contents, equality, ordering, hashing, debug output, borrowing and reference conversions of a slice handle give exactly the result of the same operation on the plain slice it shows, so that equal handles hash equally and can be looked up by plain slices. Constructing from a vector, a boxed slice or any iterator gives a handle showing exactly those items. Debug output of an iterator shows exactly the items (and the number of parts) that remain.",
 ["inputs"],"all pairs of handles and contents incl. empty, prefixes, partially ordered and unequal-length ones, all four slice types, all sources incl. vectors with spare capacity and iterators with wrong size hints",
 "One or two example pairs per type are tested.",
 [MAC+"/cmp.rs",MAC+"/hash.rs",MAC+"/fmt.rs",MAC+"/borrow.rs",MAC+"/iter.rs",RS,AS,RM,AM],[("delegation macros",MAC),("from_boxed_slice/from_vec/FromIterator",RS+", "+AS+", "+RM+", "+AM)],[],["operators and conversions on public types"])
prop("P17","Zero-sized, large and over-aligned items behave like any other items",
 "All guarantees about lengths, partitioning, iteration, destruction counts, exclusivity and weak references hold unchanged for zero-sized item types (with or without destructor) and for large or over-aligned ones; every reference handed out is properly aligned. No operation allocates or frees memory for the items of a zero-sized type.",
 ["inputs","histories"],"all histories replayed over item types of size 0, 1, odd sizes and alignments up to 64",
 "Zero-sized types take separate code paths in pointer arithmetic; tests cover a few fixed splits of unit values and count no destructors.",
 [SI,SM,SA,RS,AS,BP],[("PtrOrIdx emulation of ranges by indices",SI),("size_of checks in right_sub/mid/next",RS+", "+AS+", "+SI),("as_slice for zero-sized items in parts iteration",BP)],[],["lengths, destructor counts, addresses"])
prop("P18","References handed out never outlive or alias what they refer to",
 "In safe code, a reference that a handle or iterator hands out can be used only while that handle exists unmoved and unconverted: while a shared one lives nothing can change, split, advance or replace its handle, and while a mutable one lives nothing can use the handle at all. Changing a handle takes exclusive access to it, consuming it takes ownership; what is returned by value (clones, halves, parts, weak references, items) does not depend on the handle it came from; a handle whose items live longer serves as one whose items live shorter, never the reverse; programs that respect these rules are accepted whatever the item type (only comparing, printing, hashing, and cloning a mutable slice ask something of it).",
 ["programs"],"all safe programs that combine operations on handles of all twelve types, owned or behind references, with yielded references kept, dropped or returned",
 "These are promises about which programs compile; tests can only be programs that compile, and the crate has no compile-fail tests. References are made from raw pointers with lifetimes that only the signatures limit.",
 [RS,AS,RM,AM,SI,BP],[("signatures and lifetimes of as_slice, as_mut_slice, get_mut, Deref over slices made from raw parts",RS+", "+AS+", "+SI+", "+BP),("untyped child pointers and PhantomData keep handles covariant",RS+", "+AS)],[],["programs accepted and rejected by the compiler"])
prop("P19","No safe use of the library has undefined behaviour",
 "Whatever sequence of operations safe code performs on handles of either family, in one thread or (Arc family) several, including after a destructor has panicked, no step has undefined behaviour: no data race on anything the library or the items consist of, no access to freed or uninitialised memory, no dangling, null or misaligned reference or pointer arithmetic outside a live allocation, no two references of which a mutable one overlaps another, no use of a reference's memory in a way that invalidates another reference safe code may still use, no use of uninitialised values. All slices that live handles may show or change at the same time can actually be used at the same time.",
 ["histories","schedules"],"all histories of operations on handles of both families, all schedules of threads using Arc handles, for items that own memory, plain, over-aligned and zero-sized ones, with or without a panicking destructor",
 "Undefined behaviour usually has no effect a test could observe with today's compiler; it depends on which pointers a history leaves behind (for example a parts iterator with only empty parts left whose buffer is gone already).",
 [SI,SM,SA,RS,AS,BP],[("pointer arithmetic and slices made from raw parts",SI+", "+BP),("untyped child pointers",RS+", "+AS),("allocation and deallocation of buffers",SA)],[],["what an interpreter that detects undefined behaviour reports"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
