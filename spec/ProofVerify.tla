----------------------------- MODULE ProofVerify ----------------------------
(***************************************************************************)
(* The reference verifier, as test-helpers/src/binary/verify.rs does it,   *)
(* against the declarative definition of an inclusion proof.               *)
(***************************************************************************)
EXTENDS BinaryTree

\* The order in which the verifier combines: for a proof set of len elements,
\* on which side the running digest goes at each step -- or "no".
RECURSIVE LoopDirs(_, _, _, _, _, _)
LoopDirs(i, n, len, h, stable, acc) ==
  LET s == (i \div 2^h) * 2^h
      e == s + 2^h - 1
  IN IF e >= n THEN <<h, stable, acc>>
     ELSE IF len <= h THEN <<0>>
     ELSE LoopDirs(i, n, len, h + 1, e, Append(acc, IF i - s < 2^(h - 1) THEN "L" ELSE "R"))

CodeDirs(i, n, len) ==
  IF i >= n \/ len = 0 THEN <<"no">>
  ELSE LET r == LoopDirs(i, n, len, 1, i, <<>>)
       IN IF r[1] = 0 THEN <<"no">>
          ELSE LET h == r[1]
                   right == r[2] # n - 1
               IN IF right /\ len <= h THEN <<"no">>
                  ELSE LET a == IF right THEN Append(r[3], "L") ELSE r[3]
                       IN <<"yes", a \o [x \in 1 .. len - 1 - Len(a) |-> "R"]>>

CodeVerify(root, set, i, n) ==
  LET d == CodeDirs(i, n, Len(set))
  IN  d[1] = "yes" /\ FoldUp(Head(set), d[2], Tail(set)) = root
=============================================================================
