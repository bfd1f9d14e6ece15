------------------------------ MODULE MC_Binary -----------------------------
EXTENDS BinaryMerkle, SymHash
=============================================================================
