------------------------------- MODULE MC_Ref -------------------------------
EXTENDS RefTree, SymHash
\* All leaves different: leaf number n has datum n.
RNumbered == RPush(Len(leaves) + 1)
RNSpec == RInit /\ [][RNumbered]_rvars
=============================================================================
