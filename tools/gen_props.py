#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that edits stay valid JSON)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mechanism,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mechanism],observe_at=list(observe),hook_needed=hook)))

HOOK="OOMError is not exported, so a custom Allocator cannot be written outside the crate; cfg(congee_verif) re-exports it with a constructor"

prop("C01","Point operations behave like an ordered map",
 "For every finite sequence of get, insert, remove and update operations on any keys and any values, each call returns exactly what the same call on a mathematical map from key to value would return, and afterwards the tree holds exactly the map's contents. In particular insert returns the previous value, remove returns the removed value, an absent key reads as absent, and every value (including 0, the maximum, and values that look like addresses or internal markers) is stored and returned unchanged.",
 ["inputs","histories"],"all operation sequences, all 64-bit keys and values",
 "The tests replay a few fixed or seeded workloads (mostly dense ascending keys) once; they do not enumerate operation orders, divergence depths of keys or value patterns.",
 ["src/lib.rs","src/tree.rs","src/base_node.rs","src/node_4.rs","src/node_16.rs","src/node_48.rs","src/node_256.rs","src/node_ptr.rs"],
 [("traversal with full-path prefixes and prefix split","src/tree.rs insert_inner/get/compute_if_present_inner"),("per-fanout child lookup, insert, change, remove","src/node_*.rs")],
 [("node prefix","complete key path of the node; immutable","src/base_node.rs NodeMeta"),("child slot","payload at the last byte, node pointer above","src/node_ptr.rs")],
 ["return value of every call","contents read back through get and range"],HOOK)
prop("C02","Range scans return exactly the sorted half-open interval, cut to the buffer",
 "With no concurrent writer, a range scan from start to end with a buffer of n entries returns min(n, number of keys k with start <= k < end), and fills that many entries with the smallest such keys in strictly ascending unsigned order, each with its current value. It returns 0 when start >= end or when the buffer is empty, and never touches the buffer beyond its length.",
 ["inputs","histories"],"all tree contents, all pairs of bounds, all buffer lengths",
 "Tests scan a few windows of dense key sets; a boundary inside a shared prefix, at an absent byte of a particular node size, or at byte 0/255 is hit only if somebody thought of it (the seven fuzz_N tests are each one such past miss).",
 ["src/range_scan.rs","src/utils.rs","src/lib.rs","src/node_16.rs","src/node_48.rs","src/node_256.rs","src/node_4.rs"],
 [("lower/upper boundary descent and whole-subtree copy","src/range_scan.rs scan/find_start/find_end/copy_node_recursive"),("child iteration between two bytes","src/node_*.rs get_children")],
 [("key tracker","bytes of the path walked so far","src/utils.rs KeyTracker"),("to_continue","set when the buffer is full","src/range_scan.rs")],
 ["returned count","buffer contents"],HOOK)
prop("C03","Adaptive node growth, splitting and removal never change the contents",
 "However many keys share a prefix, at whichever byte position they diverge, and in whatever order they are added and removed, the internal re-organisation this triggers never loses, duplicates, re-orders or alters any key-value pair: point reads and scans see exactly the pairs that were put in and not taken out. The contents a user sees depend only on the resulting mapping, never on the history that led to it.",
 ["inputs","histories"],"all fan-outs 0..256 at each of the 8 byte positions, all insertion orders, removal and re-insertion at any position",
 "Growth thresholds, slot free lists and shift logic each have their own corner (last slot, slot reused after removal, byte 0/255, count 4/5, 16/17, 48/49, 256); the tests cross the thresholds mostly in one order at one depth.",
 ["src/node_4.rs","src/node_16.rs","src/node_48.rs","src/node_256.rs","src/base_node.rs","src/tree.rs"],
 [("grow: copy into the bigger node and swap in the parent","src/base_node.rs insert_grow"),("split: new middle node","src/tree.rs insert_inner"),("slot free list","src/node_48.rs next_empty"),("sorted insert/remove by shifting","src/node_4.rs, src/node_16.rs")],
 [("count","number of children of a node","src/base_node.rs NodeMeta.count")],
 ["get of every key of the domain","range over the whole domain","stats node kinds"],HOOK)
prop("C04","Conditional updates apply the closure exactly as documented",
 "compute_if_present applies the closure to the current value and reports (old, new), removing the key when the closure yields nothing, and does nothing (and never runs the closure) when the key is absent; compute_or_insert stores the closure's result for the current value or for absence and returns the old value. compare_exchange replaces or removes the value only when the current value equals the expected one, returning Ok(new); otherwise it changes nothing and returns Err(current value), with Err(None) for an absent key.",
 ["inputs","histories"],"all operation sequences, keys, values, expected values and closure results, including results equal to the current value",
 "Each of these calls is exercised by one doc example; equal-value short cuts, removal through a closure, failed exchanges and closures seeing stale values are not covered.",
 ["src/lib.rs","src/tree.rs"],
 [("closure evaluated on the value read, then validated by the lock upgrade","src/tree.rs compute_if_present_inner, insert_inner"),("Ok/Err classification","src/lib.rs compare_exchange")],
 [],["return values","arguments passed to the closure","contents afterwards"],HOOK)
prop("C05","is_empty is true exactly when the tree holds no key",
 "After any history, is_empty returns true if and only if the tree currently holds no key; removing the last key makes it true again, whichever keys were inserted and removed before. With concurrent writers its answer is correct at some moment between call and return.",
 ["inputs","histories","schedules"],"all operation sequences; all interleavings with concurrent inserts and removes",
 "One doc example: empty tree, then one insert. Nothing calls it after a removal or concurrently.",
 ["src/tree.rs","src/lib.rs","src/base_node.rs"],
 [("root child count read under version validation","src/tree.rs is_empty"),("removal unlinks what it empties","src/tree.rs compute_if_present_inner")],
 [("root count","children of the root","src/base_node.rs NodeMeta.count")],
 ["return value of is_empty versus contents"],HOOK)
prop("C06","Concurrent point operations are linearizable",
 "For any number of threads calling get, insert and remove on one tree in any interleaving, the results are those of some sequential order of the calls on a map, and that order respects real time: a call that starts after another returned sees its effect. This holds across concurrent node growth, prefix splitting and node removal; no acknowledged insert is lost and no removed key reappears.",
 ["schedules","inputs","histories"],"all interleavings of the memory accesses of the operations, all small thread programs and starting trees",
 "The concurrent tests only insert distinct keys and check the final contents; shuttle runs sample random schedules with switches at atomic accesses only, over 15k inserts, so a specific three-step race is hit by luck.",
 ["src/tree.rs","src/lock.rs","src/base_node.rs","src/node_4.rs","src/node_16.rs","src/node_48.rs","src/node_256.rs"],
 [("optimistic lock coupling: read version, read, re-validate","src/lock.rs ReadGuard, src/tree.rs"),("lock upgrade by CAS on the version","src/lock.rs upgrade"),("obsolete marking of replaced nodes","src/lock.rs mark_obsolete")],
 [("version/lock/obsolete word","seqlock of the node","src/base_node.rs type_version_lock_obsolete")],
 ["call/return history","final contents"],HOOK)
prop("C07","Concurrent updates through closures and compare_exchange are atomic",
 "compute_if_present, compute_or_insert and compare_exchange act atomically under concurrency: each successful call reports the old value it really replaced and the new value it really stored, with no other write to that key in between. Hence no concurrent increment is lost, at most one of several exchanges from the same expected value to distinct values succeeds, and of several concurrent removals exactly one gets the value.",
 ["schedules","inputs","histories"],"all interleavings of concurrent conditional updates with each other and with insert, remove and get",
 "No test calls these operations concurrently.",
 ["src/tree.rs","src/lib.rs","src/lock.rs"],
 [("closure result published only if the version is unchanged since the value was read","src/tree.rs, src/lock.rs upgrade")],
 [],["call/return history with old and new values","closure arguments","final contents"],HOOK)
prop("C08","Concurrent range scans miss no stable key and return no phantom",
 "A range scan running concurrently with any writers returns strictly ascending keys inside the requested bounds, at most as many as the buffer holds; every returned pair was in the tree at some moment during the scan; and every key that is in the tree, inside the bounds and unmodified during the whole scan is returned unless the buffer was filled by smaller keys.",
 ["schedules","inputs","histories"],"all interleavings of a scan with concurrent inserts, removes, updates, growth and splits; all bounds relative to the shape of the tree",
 "test_insert_and_scan discards the scan's result; no test checks a scan's contents while writers run.",
 ["src/range_scan.rs","src/utils.rs","src/lock.rs","src/node_4.rs","src/node_16.rs","src/node_48.rs","src/node_256.rs"],
 [("version checks between child reads, whole-scan retry","src/range_scan.rs")],
 [("result_found","entries written in this attempt","src/range_scan.rs")],
 ["buffer contents against the history of writes"],HOOK)
prop("C09","No operation touches memory it does not own, under any interleaving",
 "As long as callers hold a guard as the API requires, no operation in any interleaving reads or writes tree memory that has been given back to the allocator or was never allocated, and memory unlinked by one thread is given back only after every guard that was held at that time is gone. No allocation is given back twice or with a different layout.",
 ["schedules","histories","inputs"],"all interleavings of readers, writers, scans and statistics with node replacement, removal and guard release",
 "A use after free shows only if the block is reclaimed between two particular instructions of another thread; sanitizer runs of the existing tests execute a handful of schedules.",
 ["src/base_node.rs","src/tree.rs","src/lock.rs","src/range_scan.rs","src/utils.rs","src/stats.rs","src/lib.rs"],
 [("replaced and removed nodes are freed through guard.defer","src/base_node.rs insert_grow, src/tree.rs compute_if_present_inner"),("pointers are followed only after version validation","src/tree.rs, src/range_scan.rs")],
 [],["every memory access of the operations","allocator calls"],HOOK)
prop("C10","Tree memory is returned exactly once and follows the contents",
 "Every block obtained from the allocator is returned to it exactly once with the layout it was requested with: blocks that an operation replaces or unlinks as soon as the guards held at that time are released, all others when the tree is dropped, also when a guard outlives the tree. While in use, memory follows the live keys: a tree whose keys were all removed holds no more blocks than a new one, and in general at most a constant number per live key.",
 ["histories","schedules","configurations"],"all operation histories, interleavings, guard lifetimes and tree lifetimes",
 "The leak-checking allocator of the unit tests is used by one sequential test that only checks the state after drop; accumulation while the tree lives and leaks on raced or failed paths are invisible to it.",
 ["src/tree.rs","src/base_node.rs","src/node_ptr.rs","src/utils.rs"],
 [("deferred free of replaced nodes","src/base_node.rs insert_grow"),("unlinking of emptied nodes","src/tree.rs compute_if_present_inner"),("post-order free at drop plus epoch flush","src/tree.rs Drop"),("speculatively built leaf freed when the insert must retry","src/tree.rs insert_inner")],
 [],["allocator calls (address, layout)"],HOOK)
prop("C11","Allocation failure is reported and leaves the tree unchanged",
 "If the allocator fails at any allocation an operation makes, the operation returns the out-of-memory error, the tree keeps exactly its previous contents, no memory leaks, and the tree stays fully usable: a later call succeeds once memory is available, and concurrent operations are not blocked or broken. Operations that need no new memory succeed even when the allocator always fails. The default allocator reports failure the same way instead of panicking.",
 ["fault_sequences","histories","schedules"],"every allocation of every operation of every history, single and repeated failures, also with concurrent operations",
 "Two tests fail one allocation each of an insert into a nearly empty tree and check only is_err; contents, leaks, locks left behind and later use are unchecked.",
 ["src/tree.rs","src/base_node.rs","src/node_ptr.rs","src/lib.rs"],
 [("error propagation through guards that unlock on drop","src/tree.rs insert_inner, src/base_node.rs insert_grow"),("null check of the default allocator","src/lib.rs DefaultAllocator::allocate")],
 [],["return value","contents before and after","allocator balance"],HOOK)
prop("C12","Dropping a tree drains every remaining pair exactly once",
 "When a tree is dropped its drainer is called exactly once for each pair the tree still holds, with the right key and value, and for nothing else: not for removed keys, not for overwritten values, and not before the drop. An empty tree drains nothing.",
 ["histories","inputs","configurations"],"all histories before the drop, all tree shapes, with and without guards still held",
 "The tests drop a tree holding one pair and look at the last call only.",
 ["src/tree.rs","src/lib.rs"],
 [("depth-first visit at drop with key reassembly","src/tree.rs Drop, recursive_dfs"),("typed wrapper around the callback","src/lib.rs new_with_drainer")],
 [],["calls of the drainer"],HOOK)
prop("C13","Every stored value is handed back exactly once, under any interleaving",
 "When values are resources (for example pointers), ownership is exact: each value successfully stored is eventually handed back exactly once, as the old value of the call that overwrote it, as the result of the call that removed it, or to the drainer. No interleaving of writers hands a value to two callers, forgets one, or hands back one that was never stored.",
 ["schedules","histories"],"all interleavings of concurrent insert, remove and conditional updates followed by drop",
 "No concurrent test looks at old values returned by overwrites or removals.",
 ["src/tree.rs","src/lock.rs","src/lib.rs"],
 [("old value returned belongs to the validated critical section","src/tree.rs insert_inner, compute_if_present_inner")],
 [],["multiset of values stored, returned and drained"],HOOK)
prop("C14","Operations always terminate: no deadlock, no lock left behind",
 "Whenever the scheduler keeps running every thread that has work, all concurrent operations return: no interleaving deadlocks, livelocks or leaves an operation retrying for ever. When all operations have returned, no part of the tree is left locked, so any later operation on any key completes.",
 ["schedules","histories"],"all interleavings of all pairs of operations, followed by every operation alone",
 "A lock left behind on one raced retry path needs that race to occur and then a second operation on the same node; random schedules over bulk inserts rarely do, and tests of removal and scans are sequential.",
 ["src/lock.rs","src/tree.rs","src/base_node.rs","src/range_scan.rs"],
 [("locks are try-locks released by guard drop","src/lock.rs"),("retry loops restart from the root","src/tree.rs, src/range_scan.rs")],
 [("lock bit","held between upgrade and guard drop","src/base_node.rs")],
 ["termination of every operation"],HOOK)
prop("C15","A panicking closure leaves the tree unchanged and usable",
 "If the closure passed to compute_if_present or compute_or_insert panics, the panic reaches the caller, the tree keeps its previous contents, nothing stays locked, and all operations on all keys keep working, for concurrent threads as well.",
 ["fault_sequences","histories","schedules"],"every closure invocation of every conditional update in every history, alone or with a concurrent operation",
 "No test panics inside a closure.",
 ["src/tree.rs","src/lock.rs"],
 [("write guards unlock while unwinding","src/lock.rs Drop for WriteGuard")],
 [],["contents and termination of later operations"],HOOK)
prop("C16","Statistics are exact at rest and safe under concurrency",
 "Without concurrent writers, the statistics report exactly the number of key-value pairs, the number of nodes of each size class actually allocated and their memory, and reading them changes nothing. With concurrent writers the call never panics, crashes, hangs or touches reclaimed memory, and the pair count it reports lies between the number of pairs untouched during the call and the number of distinct keys that existed during it.",
 ["histories","schedules"],"all histories; all interleavings of a statistics call with writers",
 "stats() is called once, on a quiescent tree, and only printed.",
 ["src/stats.rs","src/tree.rs"],
 [("depth-first visitors with version check","src/tree.rs recursive_dfs, value_count"),("per-level counters","src/stats.rs StatsVisitor")],
 [],["rendered statistics versus allocator and contents"],HOOK)
prop("C17","Typed and u64 front ends agree with the plain usize tree",
 "A tree with user-defined key and value types behaves as the plain tree on their usize images, in every operation including scans, drains and conditional updates, and the u64 tree behaves the same on its keys (its scans report keys as big-endian bytes). Keys are ordered as unsigned 64-bit integers over the whole range.",
 ["inputs","histories","configurations"],"all operation sequences, all key and value types that convert from and into usize",
 "All tests use usize keys and values; the u64 front end is not called by any test.",
 ["src/lib.rs"],
 [("conversions at the API boundary","src/lib.rs U64Congee, Congee")],
 [],["return values, buffers, drainer calls"],None)
prop("C18","Independent trees do not affect each other",
 "Operations on one tree never change the results, contents, memory or progress of another tree in the same process, whether the calls alternate on one thread, run on several threads, are nested (a closure or drainer of one tree using another tree), or share one guard.",
 ["histories","schedules","configurations"],"all alternations of operations on two trees, sequential, nested and concurrent",
 "Every test uses a single tree at a time.",
 ["src/tree.rs","src/range_scan.rs","src/lib.rs","src/utils.rs"],
 [("all state is reached from the tree's own root","src/tree.rs RawCongee")],
 [],["results of each tree versus a run of that tree alone"],HOOK)
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
    print(len(P),"properties")
