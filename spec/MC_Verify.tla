------------------------------ MODULE MC_Verify -----------------------------
(***************************************************************************)
(* Soundness and completeness of the reference verifier for every tree up  *)
(* to MaxN leaves.  With a perfect hash, the proof sets of a given length  *)
(* that lead to the root along given sides are exactly the one read off by *)
(* walking down from the root; so all proof sets are covered.              *)
(***************************************************************************)
EXTENDS ProofVerify, SymHash
CONSTANTS MaxN
VARIABLES n, i
Init == n \in 1 .. MaxN /\ i \in 0 .. n - 1
Next == UNCHANGED <<n, i>>
Spec == Init /\ [][Next]_<<n, i>>

L == [x \in 1 .. n |-> SymLeaf(x)]
R == MTH(L)

\* Walking down from t along dirs (given leaf upwards): <<>> if an inner node
\* is missing on the way, otherwise the only proof set that folds to t.
RECURSIVE Down(_, _, _)
Down(t, dirs, k) ==
  IF k = 0 THEN <<t>>
  ELSE IF t[1] # "node" THEN <<>>
  ELSE LET sub == Down(IF dirs[k] = "L" THEN t[2] ELSE t[3], dirs, k - 1)
       IN IF sub = <<>> THEN <<>> ELSE Append(sub, IF dirs[k] = "L" THEN t[3] ELSE t[2])

Complete == CodeVerify(R, Proof(i, L), i, n) /\ Accepts(R, Proof(i, L), i, n)
Sound == \A len \in 0 .. Log2Floor(n) + 4 :
  LET d == CodeDirs(i, n, len)
  IN d[1] = "yes" =>
       LET s == Down(R, d[2], len - 1)
       IN s # <<>> => /\ CodeVerify(R, s, i, n)
                      /\ (s[1][1] = "leaf" => s = Proof(i, L))
=============================================================================
