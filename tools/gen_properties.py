#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

T, S, M, L, A, H, C, I, K, LIB = ("src/tree.rs", "src/bitset/set.rs", "src/bitset/map/mod.rs", "src/bitset/map/list.rs",
    "src/collection/array.rs", "src/collection/hash.rs", "src/collection/mod.rs", "src/iter.rs", "src/key.rs", "src/lib.rs")
HIST = "every finite history of inserts and removals, every key of the key type, every shipped tree, wrapper and collection it can be assembled from"
FEW = "The unit tests run a handful of fixed, almost always ascending histories of a few keys on 16-bit array-backed trees; the claim quantifies over all histories, keys and assemblies"

p("C01", "Lookup returns exactly the entries currently stored",
  "After any history of insertions and removals on a tree, looking up a key (shared or mutable lookup) returns an entry if and only if that key was inserted and not removed since. The returned entry carries the looked-up key and the value most recently stored under it.",
  ["histories", "inputs", "configurations"], HIST + ".", FEW + "; no test inserts a new smallest key into a tree of two or more entries.",
  [T, S, M, LIB], [("min/max", "entries held at the node itself", "Tree::min, TreeData::max"), ("children", "entries below, by high half", "TreeData::children")],
  [("find, find_mut", T), ("find", S), ("find", M), ("find, find_mut", LIB)], ["VebTree::find", "VebTree::find_mut"])
p("C02", "Minimum and maximum queries report the true extremes",
  "At every point of any history, the minimum query returns the smallest stored key with its own value and the maximum query returns the largest stored key with its own value; the mutable forms return the same entries as the shared ones.",
  ["histories", "inputs", "configurations"], HIST + ".", FEW + ", so the order in which a new minimum displaces older entries is never exercised.",
  [T, S, M, LIB], [("min/max", "extreme entries", "Tree::min, TreeData::max")],
  [("min_val, max_val and _mut", T), ("lowest, highest", S), ("insert swap of min/max", T)], ["VebTree::min_val", "VebTree::max_val", "VebTree::min_val_mut", "VebTree::max_val_mut"])
p("C03", "Predecessor and successor are the strict neighbours",
  "For any stored key set and any query key, stored or not, predecessor returns the largest stored key strictly below the query and successor the smallest stored key strictly above it, each with its own value, or nothing when no such key exists. The mutable forms return the same entries as the shared ones.",
  ["histories", "inputs", "configurations"], HIST + "; query keys include absent ones and both ends of the key range.",
  FEW + "; neighbours that live in another subtree, at deeper levels or behind a just-emptied subtree are not reached, and the mutable forms have separate code.",
  [T, S, M, LIB], [("summary", "high halves that have a subtree", "TreeData::children.0")],
  [("predecessor(_mut), successor(_mut)", T), ("mask_lower, mask_higher", S), ("range queries", LIB)],
  ["VebTree::predecessor", "VebTree::successor", "VebTree::predecessor_mut", "VebTree::successor_mut"])
p("C04", "Insert adds or replaces one entry and touches no other",
  "Inserting (k, v) makes v the value stored under k and leaves every other entry as it was. It returns nothing when k was absent, and the previously stored pair (k, old value) when k was present.",
  ["histories", "inputs", "configurations"], HIST + ".", FEW + "; only one replacing insert is tested, on a single-entry tree.",
  [T, S, M, A, H, C, LIB], [("min/max/children", "where the new or displaced entry lands", T)],
  [("insert", T), ("insert_key", A), ("insert_key", H), ("insert_key, insert", M), ("insert", LIB)], ["VebTree::insert", "all queries afterwards"])
p("C05", "Remove by key takes out exactly that entry or nothing",
  "Removing a stored key returns that key with its value and leaves exactly the other entries; the result reports that no tree remains precisely when it was the last entry. Removing an absent key reports failure and hands back a tree with unchanged contents.",
  ["histories", "inputs", "configurations"], HIST + ".", FEW + "; removal that empties a subtree, promotes an entry from a subtree, or misses inside an existing subtree is barely exercised.",
  [T, S, M, L, A, H, LIB], [("summary/children", "must shrink together", "TreeData::children")],
  [("remove", T), ("maybe_remove_key", A), ("maybe_remove_key", H), ("maybe_remove_key", M), ("remove", LIB)], ["VebTree::remove", "all queries afterwards"])
p("C06", "Remove-min and remove-max pop the true extremes",
  "Removing the minimum (maximum) returns the smallest (largest) stored key with its value and leaves exactly the other entries; the result reports that no tree remains precisely when it was the last entry. Repeating it drains any tree in ascending (descending) order.",
  ["histories", "inputs", "configurations"], HIST + ", with the two removals mixed freely with inserts and each other.", FEW + "; one four-entry tree is drained.",
  [T, S, M, L, A, H, LIB], [("min/max", "refilled from the lowest/highest subtree", T)],
  [("remove_min, remove_max", T), ("remove_key", A), ("remove_key", H), ("remove_key", M), ("remove_min, remove_max", LIB)], ["VebTree::remove_min", "VebTree::remove_max"])
p("C07", "Single-entry status and conversion are exact",
  "A tree reports being single-entry if and only if it currently holds exactly one entry, and a tree built from one pair holds exactly that pair. Converting into a single pair succeeds exactly then and yields the stored pair; otherwise it hands back a tree with unchanged contents.",
  ["histories", "configurations"], HIST + ".", FEW + "; the status is checked after three hand-picked transitions.",
  [T, S, M, LIB], [("data", "None for a single-entry tree", "Tree::data")],
  [("is_monad, into_monad, from_monad", T), ("is_monad, into_monad", S), ("into_monad", M), ("is_monad, into_monad", LIB)], ["VebTree::is_monad", "VebTree::into_monad", "VebTree::from_monad"])
p("C08", "Writes through mutable access reach exactly the named entry",
  "A value written through the reference returned by any mutable query (lookup, minimum, maximum, predecessor, successor) is what every later query and removal reports for the key that query named. No other entry and no membership changes.",
  ["histories", "inputs", "configurations"], HIST + ", every mutable query as the writer.", "No test writes through a mutable reference at all: the tests only compare what the mutable queries return.",
  [T, M, LIB], [("values", "stored beside min, max and in leaf lists", T)],
  [("*_mut", T), ("*_mut", M), ("*_mut", LIB)], ["VebTree::find_mut", "VebTree::min_val_mut", "VebTree::max_val_mut", "VebTree::predecessor_mut", "VebTree::successor_mut"])
p("C09", "Iteration yields every entry once, in order, from both ends",
  "For any tree and any interleaving of front and back steps, front steps yield ascending keys from the minimum, back steps descending keys from the maximum, each entry exactly once with its value. Once every entry has been yielded, every further step from either end yields nothing, for ever.",
  ["histories", "schedules", "configurations"], "Every tree content reachable by any history and every finite interleaving of front and back steps, including steps after exhaustion.",
  "The tests fix about twenty interleavings over trees filled in ascending order; the claim is over all interleavings and contents.",
  [I, T, S, M], [("IterData", "Start/Front/Back/Both with last key from each end", "iter.rs IterData")],
  [("next, next_back", I), ("successor, predecessor", T)], ["Iter::next", "Iter::next_back"])
p("C10", "Reported sizes bracket the true count; the sized wrapper is exact",
  "For any tree after any history, the reported size bounds contain the number of stored entries, and an iterator's size hint contains the number of entries it has yet to yield at every step. The size-memorising wrapper reports exactly that number, both as length and through its iterator.",
  ["histories", "schedules", "configurations"], HIST + ", every interleaving of iterator steps.",
  "Four fixed histories are tested; replacing inserts, failed removals and partially consumed double-ended iteration are not combined.",
  [LIB, I, S], [("size", "memorised count", "SizedVebTree::size"), ("emitted", "entries already yielded", "Iter::emitted")],
  [("insert, remove, remove_min, remove_max, len, len_hint", LIB), ("size_hint", I)], ["SizedVebTree::len", "VebTree::len_hint", "Iter::size_hint"])
p("C11", "Key split and join are inverse and order-preserving",
  "For every supported key type and every value of it, splitting into a high and a low part and joining them gives back the value, and joining then splitting gives back the parts. Keys compare exactly as their (high, low) pairs do, and splitting by reference agrees with splitting by value.",
  ["inputs"], "Every value and pair of values of every built-in key type: signed and unsigned integers of 8 to 128 bits, the 2- and 4-bit integers, unit, and fixed-size arrays.",
  "Exhaustive only for 8-bit and smaller types; 32-bit and wider, 128-bit, by-reference splitting and the longer arrays are sampled at a few values or not at all.",
  [K], [], [("VebKey impls", K), ("VebKeyRef impls", K)], ["VebKey::split_val", "VebKey::join", "VebKeyRef::split_ref"])
p("C12", "Slot index is an order-preserving map onto the declared range",
  "For every key type that can index an array-backed collection, the slot index of every value lies inside the declared number of slots, different values get different slots, and slots increase with the key.",
  ["inputs"], "Every value of every key type usable as an array index on this platform: unit, 2-, 4-, 8-, 16-, 32- and 64-bit integers, signed and unsigned.",
  "No test calls the slot index of any type but the unsigned byte.",
  [K, A], [], [("SizedVebKey::index", K), ("OptionArray", A)], ["SizedVebKey::index", "ArrayTreeCollection::get"])
p("C13", "Subtree collections: lookup and insertion address the right subtree",
  "For every shipped subtree collection, after any history the lookup of a high key returns the subtree created under that key and nothing for any other key. Inserting creates a single-entry subtree and reports the key as new exactly when it had none; otherwise it inserts into the existing subtree and reports any replaced pair, leaving all other subtrees unchanged.",
  ["histories", "inputs", "configurations"], "Every history of collection operations on array-backed (boxed and inline), hash-backed, byte-indexed and boxed collections, every high key, every hasher.",
  "The byte-indexed collection has no behavioural test at all; array and hash collections are tested on at most two subtrees.",
  [A, H, M, L, C], [("count", "occupied slots", "ArrayTreeCollection::count"), ("set/list", "rank-indexed list of subtrees", "ByteMap")],
  [("create, get, get_mut, insert_key", A), ("same", H), ("same", M), ("insert_tree", L), ("Box forwarding", C)], ["TreeCollection::create", "TreeCollection::get", "TreeCollection::get_mut", "TreeCollection::insert_key"])
p("C14", "Subtree collections: removal reports emptied subtrees and collections",
  "For every shipped subtree collection, removal hands exactly the addressed subtree to the caller's remover, keeps what the remover returns, and reports the removed pair, whether that subtree vanished, and no collection exactly when no subtree is left. A conditional removal that finds no subtree or whose remover declines reports failure and returns the collection unchanged; no other subtree changes.",
  ["histories", "inputs", "configurations"], "Every history of collection operations on array-backed (boxed and inline), hash-backed, byte-indexed and boxed collections, every high key, every remover outcome.",
  "Byte-indexed removal is untested; for the others only one- and two-subtree collections are removed from.",
  [A, H, M, L, C], [("count", "occupied slots", "ArrayTreeCollection::count"), ("set/list", "must shrink together", "ByteMap")],
  [("remove_key, maybe_remove_key", A), ("same", H), ("same", M), ("same", L), ("Box forwarding", C)], ["TreeCollection::remove_key", "TreeCollection::maybe_remove_key"])
p("C15", "A tree keeps its summary and its subtree collection in agreement",
  "After every tree operation, at every level, the summary the tree was assembled with holds exactly the high keys for which its subtree collection holds a subtree, and neither exists when there are none. Unconditional removal is requested from a collection only for a subtree that is present.",
  ["histories", "inputs", "configurations"], "Every history on a tree assembled from caller-supplied summary and collection types, observed through those types.",
  "No test looks at summary and collection together; disagreement stays invisible until a later neighbour query or removal crosses the affected subtree.",
  [T, C], [("children", "(summary, collection) pair", "TreeData::children")],
  [("insert", T), ("remove, remove_min, remove_max", T)], ["caller-supplied TreeCollection and summary VebTree"])
p("C16", "Every stored value is owned once: never lost, duplicated or dropped early",
  "Each value given to a tree is at any moment in exactly one place: stored in the tree, handed back to the caller by a replacing insert, a removal or a conversion, or dropped. No operation other than dropping the tree drops a stored value, and dropping a tree drops each value stored in it exactly once.",
  ["histories", "configurations"], HIST + ", with values whose drops are counted.", "The tests store plain integers and strings, so a value dropped early or leaked is invisible.",
  [T, M, L, A, H, LIB], [("values", "moved between min, max and leaves", T)],
  [("insert swaps", T), ("remove_value", L), ("replace_entry_with", H), ("take/put back", A)], ["VebTree::insert", "VebTree::remove", "VebTree::into_monad", "Drop"])
p("C17", "A cloned tree is equal and independent",
  "Cloning a tree gives a tree with the same entries, and from then on no operation on either one changes what the other reports.",
  ["histories", "configurations"], "Every history before the clone and every interleaving of operations on the original and the clones, for every cloneable assembly.", "No test clones a tree.",
  [T, S], [("min/data", "cloned field by field", "Clone for Tree/TreeData")], [("Clone for Tree, TreeData", T), ("Clone/Copy for ByteSet", S)], ["Clone::clone", "all queries afterwards"])
p("C18", "Every operation on a valid tree completes without panicking",
  "On any tree reachable through the public interface, every operation with any key of the key type, including both ends of the range and absent keys, returns normally: no panic, overflow, out-of-bounds access or endless loop, with or without debug assertions.",
  ["histories", "inputs", "configurations"], HIST + "; debug and release builds; signed and unsigned high keys.",
  "The tests never build a tree with a signed high key, never insert in descending order, and run in debug mode only.",
  [T, S, M, L, A, H, K, I, LIB], [], [("expect(\"child should exist for summary key\")", T), ("index", K), ("shifts", S)], ["every public operation"])
p("C19", "Work per operation is bounded by the number of levels, not by the size",
  "Every tree operation (lookup, neighbour, minimum, maximum, insert, removal, conversion to a single entry, size and single-entry queries) and every step of an iteration performs a number of key comparisons, splits, joins, hashes, accesses to subtrees and allocations that is bounded by a fixed multiple of the number of key-splitting levels, however many entries the tree holds. Over hash tables, which may rehash themselves now and then, the updates keep this bound on average over any stretch of calls that is long against the number of entries.",
  ["histories", "inputs"], "Every history and size, on assemblies whose per-level collections take constant time.", "No test measures work; a change that scans entries or recurses twice per level passes every test.",
  [T, A, H], [], [("O(1) short circuit on a subtree's min/max before recursing once", T), ("single-entry subtree creation before summary insert", T)], ["counting key type"])
p("C20", "The byte set is an exact set over all 256 bytes",
  "For any subset of the 256 byte values built by any history, the byte set's membership, length, lowest, highest, predecessor and successor answers, insertions and removals are those of the mathematical set, including around the boundary between its two words. Two byte sets are equal exactly when they have the same members, whatever their histories. Cutting a 256-bit array down to a set keeps exactly its bits at members.",
  ["histories", "inputs"], "Every non-empty subset of 0..255 and every byte as argument.", "One ascending fill and one sliding two-element walk are tested; dense, sparse and straddling subsets are not.",
  [S], [("two 128-bit words", "bit i set iff i is a member", "ByteSet.0")], [("mask_lower, mask_higher, lowest, highest, len", S)], ["ByteSet::len", "ByteSet::lowest", "ByteSet::highest", "VebTree for ByteSet"])
p("C21", "Wrappers and the ordered-map adapter behave like the tree they stand for",
  "A boxed tree, a size-memorising wrapper, any nesting of the two, and a standard ordered map used through the tree interface give, operation by operation on every history, the same answers as a plain tree with the same contents.",
  ["histories", "inputs", "configurations"], HIST + ", for each wrapper and nesting.", "The wrappers are tested on one short history each; most of their forwarding methods are never called.",
  [LIB, C], [("tree/size", "wrapped tree and memorised size", "SizedVebTree")], [("VebTree for SizedVebTree, Box, BTreeMap", LIB), ("TreeCollection for Box", C)], ["every VebTree method on the wrappers"])
p("C22", "The 2- and 4-bit integers behave as integers of that width",
  "A 2- or 4-bit integer never holds a value outside its range: conversion from a wider value and bitwise or and left shift keep exactly the low 2 or 4 bits, right shift divides, conversion to a wider integer gives the value, conversion to a truth value the lowest bit, and comparison is comparison of values.",
  ["inputs"], "Every byte and every pair of values, every shift of less than 8.", "Only the conversion of 2-bit integers to truth values and the split are tested; shifts, or, truncation and the published limits are not.",
  [K], [], [("U2, U4: From, BitOr, Shl, Shr, Ord", K)], ["U2", "U4"])
p("C23", "A byte map keeps its list in step with its keys",
  "A byte-indexed map or subtree collection assembled with any list implementation keeps exactly one list element per key it holds, in ascending key order, after every operation. It accesses and removes only positions inside the list, inserts only up to its end, and never lets a list become empty.",
  ["histories", "inputs", "configurations"], "Every history of tree operations (leaf) or collection operations (subtrees) over all 256 keys, observed through a caller-supplied list.",
  "The only list under test is the shipped deque, and only through a handful of map operations; position arithmetic at other keys is untested.",
  [M, L], [("set, list", "list[i] belongs to the i-th smallest member of set", "ByteMap")], [("insert, remove, get, pred, succ", M)], ["caller-supplied List and TreeList", "ByteMap"])
p("C24", "The shipped lists are sequences",
  "The list a byte map is built on behaves as a sequence addressed by position: reading, replacing, inserting and removing at any valid position affects that position alone and shifts the later ones, for values and for subtrees. Removing through a subtree hands over the element at that position, keeps it in place if it is returned or declined, removes it otherwise, and reports what was taken, whether the element vanished, and no list exactly when none is left.",
  ["histories", "inputs"], "Every history of list operations, every position, lists of up to 256 elements.", "No test calls the list interfaces directly.",
  [L], [], [("List for VecDeque", L), ("TreeList for VecDeque", L)], ["List", "TreeList"])
p("C25", "Key handles mean the same key whether they own it or borrow it",
  "A key handle made from an owned key, from a borrowed key, by re-borrowing or by copying another handle always reads as that key, and two handles are equal exactly when their keys are, whatever their kinds. Taking the key out of a handle gives that key, cloning it only if it was borrowed; re-borrowing gives a borrowed handle and clones nothing.",
  ["inputs", "configurations"], "Every key type, every kind of handle and pair of handles.", "No test constructs or compares handles on their own.",
  [K], [], [("MaybeBorrowed", K)], ["MaybeBorrowed: From, borrow, into_or_clone, Deref, PartialEq, Borrow, Clone"])
p("C26", "A tree stores no more than its entries need, and gives all of it back",
  "The number of keys and key parts a tree keeps alive is bounded by a fixed multiple of the number of its entries times the number of key-splitting levels, whatever was inserted and removed before, and the memory taken by a tree that never holds many entries does not keep growing with the number of calls. Once the tree and what it handed out are dropped, no key of its is alive and all heap memory it took has been released.",
  ["histories", "configurations"], HIST + "; long lives of trees that stay small.", "No test looks at storage; a tree that keeps remnants of removed entries, or leaks, answers every query correctly.",
  [T, A, H, M, L, LIB], [("summary and children", "removed together with their last entry", T)], [("removal of an emptied subtree and of its summary entry", T), ("remove_key, maybe_remove_key", H)], ["counting key type", "heap balance"])
p("C27", "Trees are independent of each other and may be shared between threads",
  "What a call answers depends only on the calls made before on the same tree (or, for a clone, on the tree it was cloned from): other trees, of the same or another type, in the same or another thread, never change it. A tree whose keys, values and collections may be sent to another thread may itself be sent there, and one whose parts may be shared may be read by several threads at once, each getting the answers a single thread would get; a tree holding parts that may not be sent or shared may not be either. The same holds for key handles.",
  ["histories", "schedules", "configurations"], "Any interleaving of calls on several trees by several threads under Rust's ownership rules.", "Unit tests use one tree in one thread; state shared behind the API shows only when several trees or threads are at work, under particular schedules.",
  [T, A, H, M, L, S, K], [("trees", "owned data only, no state outside the tree", T)], [("VebTree, SizedVebTree and their collections as plain owned data", T), ("queries taking &self", T)], ["threads", "auto traits"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P))
