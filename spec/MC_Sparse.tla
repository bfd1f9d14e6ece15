------------------------------ MODULE MC_Sparse -----------------------------
EXTENDS SparseMerkle, SymHash
CONSTANTS Depth, MaxOlds
KeyBit(k, d) == k[d + 1]
AllKeys == [1 .. Depth -> {0, 1}]
\* A selection that branches in the first, second and last bit only.
SomeKeys == { k \in AllKeys : \A x \in 2 .. Depth - 1 : k[x] = k[2] }
\* Bounds the number of maps kept for loading.
FewOlds == Cardinality(DOMAIN olds) <= MaxOlds
\* The store is content-addressed: nodes outside the current and the next map
\* only matter to the maps kept for loading.
NoStale == <<map, root, todo, post, pc, faults,
             { x \in SNodes(map) \cup SNodes(post) : x[1] \in DOMAIN store }>>
=============================================================================
