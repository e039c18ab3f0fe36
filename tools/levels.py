"""technique / level / note per property (for MANIFEST.json)."""
MC = "model_checking"
BOUND = "Code paths not reached by the histories explored are not decided."
WALK = ("TLA+ (VebMap = observable map machine, VebTree = recursive design refining it) checked with TLC; TLC's state graph and simulated behaviours replayed into every assembly; "
        "recorded runs validated by TLC against VebMap (TraceMap)")
NOTE = ("The map machine and the recursive design are checked exhaustively by TLC within small constants; the code is bound to them by replaying every transition of TLC's state graph "
        "under many random monotone key embeddings into about 55 assemblies (key types, leaves, summaries, collections, nesting) and by TLC-validated recordings. "
        "Assumes the tree depends on keys only through their order and split (C11, C12 decide those). " + BOUND)
LEVELS = {f"C{i:02}": (WALK, MC, NOTE) for i in range(1, 9)}
for i in ("C09", "C10"):
    LEVELS[i] = (WALK + "; VebIter (double-ended iteration and size hints) checked with TLC and its graph replayed from both ends; its steps are IterN's, proved right for any size and interleaving with TLAPS (thorough)", MC, NOTE)
KEYT = "TLA+ (Keys: digit sequences, split, join, order, slots) checked with TLC, the laws for integers of any width proved with TLAPS (IntProof, thorough); facts recorded from every key type validated by TLC (TraceKeys); exhaustive enumeration of 32-bit keys against the same definitions"
KEYN = ("Every 2-, 4-, 8-, 16- and 32-bit key is enumerated, every pair of small keys, every digit position and carry of the larger ones; 64- and 128-bit keys and long arrays beyond that are sampled. "
        "The laws themselves (split is injective, monotone, inverse to join; slots are distinct and below the cardinality) are checked by TLC for digit widths and lengths within small bounds.")
LEVELS["C11"] = LEVELS["C12"] = (KEYT, MC, KEYN)
LEVELS["C22"] = ("TLA+ (TraceKeys: U2 and U4 arithmetic modulo 4 and 16) - every operation on every pair of values recorded and validated by TLC", MC,
                 "Exhaustive over values and operands for the operations listed in the property; shifts by more than seven are outside it.")
COLT = "TLA+ (Collection: keyed collection with six kinds of remover) checked with TLC; its state graphs and simulated behaviours replayed into every collection over trusted subtrees; ColDesign (slots and count, byte set and list beside the map) checked with TLC, its correspondence proved for any number of keys with TLAPS (thorough)"
COLN = "Exhaustive for up to 5 keys, 3 subtree states in the model; the code is driven over every transition under random placements of the keys in the slot range, plus long simulated behaviours. " + BOUND
LEVELS["C13"] = LEVELS["C14"] = (COLT, MC, COLN)
LEVELS["C15"] = ("TLA+ (VebTree, invariant Structure) checked with TLC, its nodes shown to refine VebNode, whose induction step is proved for halves of any size with TLAPS (thorough); recording summary and collection components supplied to the real tree, their event streams validated by TLC (TraceStruct)", MC,
                 "The design invariant is exhaustive within small universes; the code's component contents are checked after every operation of the replayed histories, for ten assemblies. " + BOUND)
LEVELS["C16"] = (WALK + "; values and keys are counted objects that must be returned or dropped exactly once, as VebMap's ledger says", MC, NOTE)
LEVELS["C17"] = ("TLA+ (VebClone: several handles, copy-on-clone independence) checked with TLC; state graph and simulated behaviours replayed into every cloneable assembly", MC, NOTE)
LEVELS["C18"] = (WALK + "; both with overflow and debug checks on and in release mode", MC, NOTE)
LEVELS["C19"] = ("TLA+ (VebTree's invariant Cheap bounds the node operations a call starts) checked with TLC; key work, subtree accesses and allocations recorded from the code with counting components validated by TLC (TraceCost)", MC,
                 "The bound per call is 10 units of key work per node operation, about twice what the code does now; contents up to 50 000 keys of up to 64 bits (500 000 in the thorough tier) in four shapes. Work that touches no key, subtree or heap block is not counted. " + BOUND)
LEVELS["C26"] = ("TLA+ (VebTree's invariants Slim and Canonical: places per entry, and no history in the structure) checked with TLC; keys alive and heap balance recorded from the code, validated by TLC (TraceSpace)", MC,
                 "The number of keys alive is measured on twelve assemblies over counted keys, the heap after dropping on all plain and wrapped assemblies, over random busy lives that stay small. " + BOUND)
LEVELS["C27"] = ("TLA+ (Threads: trees handed between threads, frozen and shared) checked with TLC; its simulated behaviours run by real threads on the real trees", MC,
                 "The model's commutation is exhaustive for two keys, two trees and two (thorough: three) threads; the code is run on 16 assemblies with five trees and three threads. " + BOUND)
LEVELS["C20"] = (WALK + "; ByteLeaf (two-word masks) checked with TLC, its word arithmetic shown to be ByteWords' sets, which are proved for any word width with TLAPS (thorough)", MC, NOTE)
LEVELS["C21"] = (WALK, MC, NOTE)
LEVELS["C23"] = ("TLA+ (ByteLeaf refines VebMap and ByteWords, ColDesign, TLC; WordsProof and ColProof for any size, TLAPS, thorough) for the design; a recording list supplied to the real byte map, its accesses and contents validated by TLC against TraceLeaf", MC,
                 "The refinement is exhaustive for small universes; the code's list accesses are checked call by call on random histories over up to all 256 keys, as a leaf and as a subtree collection. " + BOUND)
LEVELS["C24"] = ("TLA+ (Lists) checked with TLC; its state graph and simulated behaviours of up to 300 elements replayed into the shipped lists", MC,
                 "Every transition of the model (up to four elements, every position and remover) is replayed from states built in several orders. " + BOUND)
LEVELS["C25"] = ("TLA+ (Handles) checked with TLC; every transition of its graph and random tours replayed into the real handles for seven key types", MC,
                 "Exhaustive for up to three handles on two keys.")
NOT_APPLICABLE = {}
