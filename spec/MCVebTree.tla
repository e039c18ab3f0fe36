----------------------------- MODULE MCVebTree ------------------------------
EXTENDS VebTree
\* two levels, e.g. u16 over bytes
S23 == Node(Leaf(2), Leaf(3))
S33 == Node(Leaf(3), Leaf(3))
\* three levels, e.g. u32 over u16 over bytes
S222 == Node(Leaf(2), Node(Leaf(2), Leaf(2)))
S2222 == Node(Node(Leaf(2), Leaf(2)), Node(Leaf(2), Leaf(2)))
\* unbalanced, e.g. [T;3]
S322 == Node(Leaf(3), Node(Leaf(2), Leaf(2)))
\* four levels, unbalanced towards the summary
S4 == Node(Node(Leaf(2), Leaf(2)), Node(Leaf(2), Leaf(1)))
=============================================================================
