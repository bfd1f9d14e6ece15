-------------------------------- MODULE Cost --------------------------------
(***************************************************************************)
(* How many storage calls an operation may make: a small multiple of the   *)
(* length of the path it works on, whatever else is stored.                *)
(***************************************************************************)
EXTENDS Naturals

RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)

Factor == 8
\* Binary and sum trees: n leaves make paths of at most BitsOf(n) nodes.
LogCost(n)  == Factor * (BitsOf(n + 1) + 2)
\* Sparse trees: p is the number of inner nodes on the key's path.
PathCost(p) == Factor * (p + 2)
=============================================================================
