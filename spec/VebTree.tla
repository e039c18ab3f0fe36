------------------------------ MODULE VebTree -------------------------------
(***************************************************************************)
(* The recursive design, transcribed operation by operation from           *)
(* src/tree.rs, over arbitrary nestings ("shapes") of nodes and leaves.    *)
(*                                                                         *)
(*   shape   [leaf |-> TRUE,  n |-> size]                                  *)
(*           [leaf |-> FALSE, hi |-> shape, lo |-> shape]                  *)
(*   tree    leaf: an ordered map (ByteLeaf.tla justifies this for the     *)
(*           byte set / byte map; BTreeMap is one by definition)           *)
(*           node: [min |-> <<k,v>>, max |-> None or <<k,v>>,              *)
(*                  sum |-> None or <<summary tree>>,                      *)
(*                  kids |-> function from high keys to trees]             *)
(* A node with max = None is a monad; sum = None iff there are no          *)
(* subtrees.  Every operation also reports its cost: the number of nodes   *)
(* and leaves on which a non-constant-time operation was started.          *)
(*                                                                         *)
(* Checked: (1) refinement - each operation returns what OrdMap says and   *)
(* commutes with the abstraction function; (2) the structural invariant;   *)
(* (3) the cost bound, linear in the number of levels; (4) the space bound. *)
(***************************************************************************)
EXTENDS OrdMap

CONSTANTS Top,     \* the shape of the tree under test
          Val,
          Defect   \* "none", or the name of a deliberate deviation

Leaf(n) == [leaf |-> TRUE, n |-> n]
Node(h, l) == [leaf |-> FALSE, hi |-> h, lo |-> l]

RECURSIVE Size(_), Levels(_)
Size(sh) == IF sh.leaf THEN sh.n ELSE Size(sh.hi) * Size(sh.lo)
Levels(sh) == IF sh.leaf THEN 1
              ELSE 1 + (LET a == Levels(sh.hi) b == Levels(sh.lo) IN IF a > b THEN a ELSE b)

Hi(sh, k) == k \div Size(sh.lo)
Lo(sh, k) == k % Size(sh.lo)
Join(sh, h, l) == h * Size(sh.lo) + l
JoinE(sh, h, e) == <<Join(sh, h, e[1]), e[2]>>     \* e an entry of a subtree

Unit == 1     \* the value stored in summaries

----------------------------------------------------------------------------
(* Abstraction function *)
RECURSIVE Abs(_, _)
Abs(sh, t) ==
  IF sh.leaf THEN t
  ELSE LET own == {t.min} \cup (IF t.max = None THEN {} ELSE {t.max})
           sub == UNION {{JoinE(sh, h, <<l, Abs(sh.lo, t.kids[h])[l]>>) :
                             l \in DOMAIN Abs(sh.lo, t.kids[h])} : h \in DOMAIN t.kids}
           all == own \cup sub
       IN [k \in {e[1] : e \in all} |-> (CHOOSE e \in all : e[1] = k)[2]]

----------------------------------------------------------------------------
(* Constant-time queries *)
IsMonad(sh, t) == IF sh.leaf THEN Cardinality(DOMAIN t) = 1 ELSE t.max = None
TMin(sh, t) == IF sh.leaf THEN MinR(t) ELSE t.min
TMax(sh, t) == IF sh.leaf THEN MaxR(t) ELSE IF t.max = None THEN t.min ELSE t.max
TFrom(sh, k, v) == IF sh.leaf THEN Single(k, v)
                   ELSE [min |-> <<k, v>>, max |-> None, sum |-> None, kids |-> EmptyMap]
NoKids == EmptyMap

R(r, c) == [r |-> r, c |-> c]       \* result with cost

----------------------------------------------------------------------------
RECURSIVE TFind(_, _, _), TPred(_, _, _), TSucc(_, _, _)

TFind(sh, t, k) ==
  IF sh.leaf THEN R(FindR(t, k), 1)
  ELSE IF k < t.min[1] THEN R(None, 1)
  ELSE IF k = t.min[1] THEN R(t.min, 1)
  ELSE IF t.max = None THEN R(None, 1)
  ELSE IF k = t.max[1] THEN R(t.max, 1)
  ELSE IF t.sum = None THEN R(None, 1)
  ELSE LET h == Hi(sh, k) IN
       IF h \notin DOMAIN t.kids THEN R(None, 1)
       ELSE LET q == TFind(sh.lo, t.kids[h], Lo(sh, k)) IN
            R(IF q.r = None THEN None ELSE JoinE(sh, h, q.r), 1 + q.c)

TPred(sh, t, k) ==
  IF sh.leaf THEN R(PredR(t, k), 1)
  ELSE IF k <= t.min[1] THEN R(None, 1)
  ELSE IF t.max = None THEN R(t.min, 1)
  ELSE IF k > t.max[1] THEN R(t.max, 1)
  ELSE IF t.sum = None THEN R(t.min, 1)
  ELSE IF k = t.max[1]
       THEN LET h == TMax(sh.hi, t.sum[1])[1] IN R(JoinE(sh, h, TMax(sh.lo, t.kids[h])), 1)
  ELSE LET h == Hi(sh, k)
           q == IF h \in DOMAIN t.kids THEN TPred(sh.lo, t.kids[h], Lo(sh, k)) ELSE R(None, 0)
       IN IF q.r # None THEN R(JoinE(sh, h, q.r), 1 + q.c)
          ELSE LET s == TPred(sh.hi, t.sum[1], h) IN
               IF s.r # None
               THEN LET g == s.r[1] IN R(JoinE(sh, g, TMax(sh.lo, t.kids[g])), 1 + q.c + s.c)
               ELSE R(t.min, 1 + q.c + s.c)

TSucc(sh, t, k) ==
  IF sh.leaf THEN R(SuccR(t, k), 1)
  ELSE IF k < t.min[1] THEN R(t.min, 1)
  ELSE IF t.max = None \/ k >= t.max[1] THEN R(None, 1)
  ELSE IF t.sum = None THEN R(t.max, 1)
  ELSE IF k = t.min[1]
       THEN LET h == TMin(sh.hi, t.sum[1])[1] IN R(JoinE(sh, h, TMin(sh.lo, t.kids[h])), 1)
  ELSE LET h == Hi(sh, k)
           q == IF h \in DOMAIN t.kids THEN TSucc(sh.lo, t.kids[h], Lo(sh, k)) ELSE R(None, 0)
       IN IF q.r # None THEN R(JoinE(sh, h, q.r), 1 + q.c)
          ELSE LET s == TSucc(sh.hi, t.sum[1], h) IN
               IF s.r # None
               THEN LET g == s.r[1] IN R(JoinE(sh, g, TMin(sh.lo, t.kids[g])), 1 + q.c + s.c)
               ELSE R(t.max, 1 + q.c + s.c)

----------------------------------------------------------------------------
(* Writing through a mutable reference: the entry is located by the query  *)
(* and overwritten in place.                                               *)
RECURSIVE TWrite(_, _, _, _)
TWrite(sh, t, k, w) ==
  IF sh.leaf THEN [t EXCEPT ![k] = w]
  ELSE IF k = t.min[1] THEN [t EXCEPT !.min = <<k, w>>]
  ELSE IF t.max # None /\ k = t.max[1] THEN [t EXCEPT !.max = <<k, w>>]
  ELSE [t EXCEPT !.kids[Hi(sh, k)] = TWrite(sh.lo, @, Lo(sh, k), w)]

----------------------------------------------------------------------------
(* Insertion: r = <<new tree, old entry or None>> *)
RECURSIVE TInsert(_, _, _, _)
InsertBelow(sh, t, k, v) ==      \* t already has its min and max; store (k, v) in a subtree
  LET h == Hi(sh, k)  l == Lo(sh, k) IN
  IF t.sum = None
  THEN R(<<[t EXCEPT !.sum = <<TFrom(sh.hi, h, Unit)>>, !.kids = Single(h, TFrom(sh.lo, l, v))], None>>, 1)
  ELSE IF h \in DOMAIN t.kids
  THEN LET q == TInsert(sh.lo, t.kids[h], l, v) IN
       R(<<[t EXCEPT !.kids[h] = q.r[1]], IF q.r[2] = None THEN None ELSE JoinE(sh, h, q.r[2])>>, 1 + q.c)
  ELSE LET q == IF Defect = "stale-summary" THEN R(<<t.sum[1], None>>, 0)
                ELSE TInsert(sh.hi, t.sum[1], h, Unit) IN
       R(<<[t EXCEPT !.sum = <<q.r[1]>>, !.kids = Put(t.kids, h, TFrom(sh.lo, l, v))], None>>, 1 + q.c)

TInsert(sh, t, k, v) ==
  IF sh.leaf THEN R(<<Put(t, k, v), FindR(t, k)>>, 1)
  ELSE IF k = t.min[1] THEN R(<<[t EXCEPT !.min = <<k, v>>], t.min>>, 1)
  ELSE IF t.max = None
  THEN IF k < t.min[1] THEN R(<<[t EXCEPT !.min = <<k, v>>, !.max = t.min], None>>, 1)
       ELSE R(<<[t EXCEPT !.max = <<k, v>>], None>>, 1)
  ELSE IF k < t.min[1]
  THEN IF Defect = "swapped-max"     \* the defect repaired in /repo (see DESIGN.md)
       THEN InsertBelow(sh, [t EXCEPT !.min = <<k, v>>, !.max = t.min], t.max[1], t.max[2])
       ELSE InsertBelow(sh, [t EXCEPT !.min = <<k, v>>], t.min[1], t.min[2])
  ELSE IF k = t.max[1] THEN R(<<[t EXCEPT !.max = <<k, v>>], t.max>>, 1)
  ELSE IF k > t.max[1] THEN InsertBelow(sh, [t EXCEPT !.max = <<k, v>>], t.max[1], t.max[2])
  ELSE InsertBelow(sh, t, k, v)

----------------------------------------------------------------------------
(* Removal.  Pops: r = <<None or <<tree>>, entry>>.                        *)
(* Remove by key: r = <<ok, None or <<tree>>, entry or None>>.             *)
RECURSIVE TPopMin(_, _), TPopMax(_, _), TRemove(_, _, _)

LeafLess(t, k) == IF Cardinality(DOMAIN t) = 1 THEN None ELSE <<Del(t, k)>>

\* subtree h became `sub` (None: vanished); pop(sum) removes h from the summary
Shrink(sh, t, h, sub, s) ==
  IF sub # None THEN [t EXCEPT !.kids[h] = sub[1]]
  ELSE IF Cardinality(DOMAIN t.kids) = 1 THEN [t EXCEPT !.sum = None, !.kids = NoKids]
  ELSE [t EXCEPT !.sum = IF Defect = "stale-summary-rem" THEN @ ELSE s, !.kids = Del(t.kids, h)]

TPopMin(sh, t) ==
  IF sh.leaf THEN LET e == MinR(t) IN R(<<LeafLess(t, e[1]), e>>, 1)
  ELSE IF t.max = None THEN R(<<None, t.min>>, 1)
  ELSE IF t.sum = None THEN R(<<<<[t EXCEPT !.min = t.max, !.max = None]>>, t.min>>, 1)
  ELSE LET h == TMin(sh.hi, t.sum[1])[1]
           q == TPopMin(sh.lo, t.kids[h])
           gone == q.r[1] = None /\ Cardinality(DOMAIN t.kids) > 1
           s == IF gone THEN TPopMin(sh.hi, t.sum[1]) ELSE R(<<None, None>>, 0)
           t2 == Shrink(sh, t, h, q.r[1], s.r[1])
       IN R(<<<<[t2 EXCEPT !.min = JoinE(sh, h, q.r[2])]>>, t.min>>, 1 + q.c + s.c)

TPopMax(sh, t) ==
  IF sh.leaf THEN LET e == MaxR(t) IN R(<<LeafLess(t, e[1]), e>>, 1)
  ELSE IF t.max = None THEN R(<<None, t.min>>, 1)
  ELSE IF t.sum = None THEN R(<<<<[t EXCEPT !.max = None]>>, t.max>>, 1)
  ELSE LET h == TMax(sh.hi, t.sum[1])[1]
           q == TPopMax(sh.lo, t.kids[h])
           gone == q.r[1] = None /\ Cardinality(DOMAIN t.kids) > 1
           s == IF gone THEN TPopMax(sh.hi, t.sum[1]) ELSE R(<<None, None>>, 0)
           t2 == Shrink(sh, t, h, q.r[1], s.r[1])
       IN R(<<<<[t2 EXCEPT !.max = JoinE(sh, h, q.r[2])]>>, t.max>>, 1 + q.c + s.c)

TRemove(sh, t, k) ==
  IF sh.leaf
  THEN IF k \in DOMAIN t THEN R(<<1, LeafLess(t, k), Kv(t, k)>>, 1) ELSE R(<<0, <<t>>, None>>, 1)
  ELSE IF k = t.min[1] THEN LET q == TPopMin(sh, t) IN R(<<1, q.r[1], q.r[2]>>, q.c)
  ELSE IF t.max = None THEN R(<<0, <<t>>, None>>, 1)
  ELSE IF k = t.max[1] THEN LET q == TPopMax(sh, t) IN R(<<1, q.r[1], q.r[2]>>, q.c)
  ELSE IF t.sum = None THEN R(<<0, <<t>>, None>>, 1)
  ELSE LET h == Hi(sh, k) IN
       IF h \notin DOMAIN t.kids THEN R(<<0, <<t>>, None>>, 1)
       ELSE LET q == TRemove(sh.lo, t.kids[h], Lo(sh, k)) IN
            IF q.r[1] = 0 THEN R(<<0, <<t>>, None>>, 1 + q.c)
            ELSE LET gone == q.r[2] = None /\ Cardinality(DOMAIN t.kids) > 1
                     s == IF gone THEN TRemove(sh.hi, t.sum[1], h) ELSE R(<<0, None, None>>, 0)
                 IN R(<<1, <<Shrink(sh, t, h, q.r[2], s.r[2])>>, JoinE(sh, h, q.r[3])>>, 1 + q.c + s.c)

----------------------------------------------------------------------------
(* The state machine: one tree, driven by every update.                    *)
VARIABLE t          \* None or <<tree>>
Key == 0..(Size(Top) - 1)
Live == t # None
T == t[1]

Init == t = None
From(k, v)   == ~Live /\ t' = <<TFrom(Top, k, v)>>
Insert(k, v) == Live /\ t' = <<TInsert(Top, T, k, v).r[1]>>
Remove(k)    == Live /\ t' = TRemove(Top, T, k).r[2]
PopMin       == Live /\ t' = TPopMin(Top, T).r[1]
PopMax       == Live /\ t' = TPopMax(Top, T).r[1]
WriteTo(k, w) == Live /\ k \in DOMAIN Abs(Top, T) /\ t' = <<TWrite(Top, T, k, w)>>
Next == \/ \E k \in Key, v \in Val : From(k, v) \/ Insert(k, v) \/ WriteTo(k, v)
        \/ \E k \in Key : Remove(k)
        \/ PopMin \/ PopMax
Spec == Init /\ [][Next]_t

M == IF Live THEN Abs(Top, T) ELSE EmptyMap

----------------------------------------------------------------------------
(* (1) every operation answers as OrdMap says *)
AbsOpt(x) == IF x = None THEN EmptyMap ELSE Abs(Top, x[1])
Refines == Live => LET m == M IN
  /\ TMin(Top, T) = MinR(m) /\ TMax(Top, T) = MaxR(m)
  /\ IsMonad(Top, T) <=> Cardinality(DOMAIN m) = 1
  /\ LET q == TPopMin(Top, T).r IN q[2] = MinR(m) /\ AbsOpt(q[1]) = Del(m, MinR(m)[1])
  /\ LET q == TPopMax(Top, T).r IN q[2] = MaxR(m) /\ AbsOpt(q[1]) = Del(m, MaxR(m)[1])
  /\ \A k \in Key :
      /\ TFind(Top, T, k).r = FindR(m, k)
      /\ TPred(Top, T, k).r = PredR(m, k)
      /\ TSucc(Top, T, k).r = SuccR(m, k)
      /\ LET q == TRemove(Top, T, k).r IN
           IF k \in DOMAIN m THEN q[1] = 1 /\ q[3] = Kv(m, k) /\ AbsOpt(q[2]) = Del(m, k)
           ELSE q[1] = 0 /\ q[2] = t
      /\ \A v \in Val : LET q == TInsert(Top, T, k, v).r IN
           q[2] = FindR(m, k) /\ Abs(Top, q[1]) = Put(m, k, v)
      /\ k \in DOMAIN m => \A v \in Val : Abs(Top, TWrite(Top, T, k, v)) = Put(m, k, v)

(* (2) structure: bounds, summary = occupied subtrees, at every level; and *)
(* no entry is stored twice                                                *)
RECURSIVE WF(_, _)
WF(sh, x) ==
  IF sh.leaf THEN DOMAIN x # {}
  ELSE /\ x.max = None => x.sum = None
       /\ (x.sum = None) <=> (DOMAIN x.kids = {})
       /\ x.max # None => x.min[1] < x.max[1]
       /\ x.sum # None => /\ DOMAIN Abs(sh.hi, x.sum[1]) = DOMAIN x.kids
                          /\ WF(sh.hi, x.sum[1])
       /\ \A h \in DOMAIN x.kids :
            /\ WF(sh.lo, x.kids[h])
            /\ \A l \in DOMAIN Abs(sh.lo, x.kids[h]) :
                 x.min[1] < Join(sh, h, l) /\ Join(sh, h, l) < x.max[1]
Structure == Live => WF(Top, T)

(* (2b) the structure is a function of the contents: no history shows *)
RECURSIVE Canon(_, _)
Canon(sh, m) ==
  IF sh.leaf THEN m
  ELSE LET lo == MinR(m)  hi == MaxR(m)
           rest == DOMAIN m \ {lo[1], hi[1]}
           hs == {Hi(sh, k) : k \in rest}
       IN [min |-> lo, max |-> IF lo = hi THEN None ELSE hi,
           sum |-> IF hs = {} THEN None ELSE <<Canon(sh.hi, [h \in hs |-> Unit])>>,
           kids |-> [h \in hs |-> Canon(sh.lo,
                       [l \in {Lo(sh, k) : k \in {x \in rest : Hi(sh, x) = h}} |-> m[Join(sh, h, l)]])]]
Canonical == Live => T = Canon(Top, M)

(* (3) work: at most 2 * Levels - 1 started operations per call *)
Bound == 2 * Levels(Top) - 1
Cheap == Live =>
  /\ TPopMin(Top, T).c <= Bound /\ TPopMax(Top, T).c <= Bound
  /\ \A k \in Key : /\ TFind(Top, T, k).c <= Levels(Top)
                    /\ TPred(Top, T, k).c <= Bound /\ TSucc(Top, T, k).c <= Bound
                    /\ TRemove(Top, T, k).c <= Bound
                    /\ \A v \in Val : TInsert(Top, T, k, v).c <= Levels(Top)

(* (4) space: the places in which a key is kept (entries of the nodes and  *)
(* leaves, summaries included, and the collections' own keys).  By         *)
(* Canonical it depends on the contents alone; it is at most 2 * Levels    *)
(* per entry.                                                              *)
RECURSIVE Places(_, _), SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(f, S \ {x})
Places(sh, x) ==
  IF sh.leaf THEN Cardinality(DOMAIN x)
  ELSE (IF x.max = None THEN 1 ELSE 2)
       + (IF x.sum = None THEN 0 ELSE Places(sh.hi, x.sum[1]))
       + SumOver([h \in DOMAIN x.kids |-> 1 + Places(sh.lo, x.kids[h])], DOMAIN x.kids)
Slim == Live => Places(Top, T) <= 2 * Levels(Top) * Cardinality(DOMAIN M)
=============================================================================
