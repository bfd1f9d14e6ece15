------------------------------ MODULE SymHash -------------------------------
(***************************************************************************)
(* Symbolic, injective, domain-separated hash terms (a perfect hash).      *)
(***************************************************************************)
EXTENDS Sequences

SymEmpty == <<"empty">>
SymLeaf(d) == <<"leaf", d>>
SymNode(l, r) == <<"node", l, r>>

SymZero == <<"zero">>
SymSLeaf(k, d) == <<"sleaf", k, d>>
SymSNode(l, r) == <<"snode", l, r>>

SymFLeaf(f, d) == <<"fleaf", f, d>>
SymFNode(lf, ld, rf, rd) == <<"fnode", lf, ld, rf, rd>>
=============================================================================
