------------------------------ MODULE MC_Forest -----------------------------
(***************************************************************************)
(* Two sparse trees on one store, whose storage calls interleave in every  *)
(* way: two instances of the step model sharing `store` (and, as the       *)
(* contract has it, what can be loaded).                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SymHash

CONSTANTS Depth, Vals, MaxFaults, MaxOlds
KeyBit(k, d) == k[d + 1]
AllKeys == [1 .. Depth -> {0, 1}]

VARIABLES store, olds,
          map1, root1, todo1, post1, pc1,
          map2, root2, todo2, post2, pc2, faults
v1 == <<map1, root1, todo1, post1, pc1>>
v2 == <<map2, root2, todo2, post2, pc2>>
vars == <<store, olds, v1, v2, faults>>

A == INSTANCE SparseMerkle WITH map <- map1, root <- root1, todo <- todo1, post <- post1, pc <- pc1,
       Keys <- AllKeys, RemoveFirst <- FALSE, MaxH <- Depth, BitOf <- KeyBit,
       ZeroH <- SymZero, SLeafH <- SymSLeaf, SNodeH <- SymSNode
B == INSTANCE SparseMerkle WITH map <- map2, root <- root2, todo <- todo2, post <- post2, pc <- pc2,
       Keys <- AllKeys, RemoveFirst <- FALSE, MaxH <- Depth, BitOf <- KeyBit,
       ZeroH <- SymZero, SLeafH <- SymSLeaf, SNodeH <- SymSNode

Init == A!Init /\ B!Init

\* Updates only; a process may stop at any moment, and any reported root be
\* loaded, also the other's.
Next == \/ /\ \/ \E k \in AllKeys, v \in Vals : A!Update(k, v)
              \/ A!Step \/ A!Fail \/ A!Crash
              \/ \E r \in DOMAIN olds : A!Load(r)
           /\ UNCHANGED v2
        \/ /\ \/ \E k \in AllKeys, v \in Vals : B!Update(k, v)
              \/ B!Step \/ B!Fail \/ B!Crash
              \/ \E r \in DOMAIN olds : B!Load(r)
           /\ UNCHANGED v1
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
both == (1 :> map1) @@ (2 :> map2)
Forest == INSTANCE SparseForest WITH maps <- both, shared <- olds, MaxH <- Depth, BitOf <- KeyBit,
       ZeroH <- SymZero, SLeafH <- SymSLeaf, SNodeH <- SymSNode
Refines == [][\E h \in {1, 2} : \/ \E k \in AllKeys, v \in Vals : Forest!PPut(h, k, v)
                                \/ \E r \in DOMAIN olds : Forest!PLoad(h, r)]_<<both, olds>>

RootsOK    == A!RootOK /\ B!RootOK
\* Every root ever reported by either is complete, at every moment.
StoreHolds == A!StoreHolds
SelfCert   == A!SelfCert /\ A!HeightsOK
PresentOK  == A!PresentOK /\ B!PresentOK
FewOlds    == Cardinality(DOMAIN olds) <= MaxOlds
\* The two are interchangeable, and what the store holds beyond the loadable
\* and the coming trees is of no consequence.
View == <<olds, v1, v2, faults,
          {x \in A!SNodes(post1) \cup A!SNodes(post2) : x[1] \in DOMAIN store}>>
=============================================================================
