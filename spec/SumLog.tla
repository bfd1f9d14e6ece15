------------------------------- MODULE SumLog -------------------------------
(***************************************************************************)
(* The sum tree at the grain of its public operations: an append-only list *)
(* of <<fee, leaf digest>> pairs.                                          *)
(***************************************************************************)
EXTENDS SumTree

VARIABLE items

FInit == items = <<>>
FPush(f, d)  == items' = Append(items, <<f, FLeafH(f, d)>>)
FPushFails   == UNCHANGED items
FRead        == UNCHANGED items
FRootOut     == FRoot(items)
=============================================================================
