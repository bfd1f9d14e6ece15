------------------------------ MODULE WideTree ------------------------------
(***************************************************************************)
(* The binary Merkle tree with 64-bit leaf counts.  The leaves of a tree   *)
(* of 2^61 leaves cannot be listed, so what is known of it is a partial    *)
(* function `known` from in-order indices to the digests of complete       *)
(* subtrees, as a long-lived store would hold; root, proofs and pushes are *)
(* determined by it.                                                       *)
(***************************************************************************)
EXTENDS WideGeometry, ShaHash, TLC

\* Digest of the canonical tree over the leaves lo .. lo + m - 1.
RECURSIVE WDigest(_, _, _)
WDigest(known, lo, m) ==
  IF UIsPow2(m) THEN known[WNode(lo, m)]
  ELSE LET k == WSplit(m)
       IN  ShaNode(WDigest(known, lo, k), WDigest(known, UAdd(lo, k), USub(m, k)))

WRoot(known, n) == IF n = UZero THEN ShaEmpty ELSE WDigest(known, UZero, n)

\* Siblings of leaf i within the m leaves from lo on, from the leaf up.
RECURSIVE WSiblings(_, _, _, _)
WSiblings(known, lo, m, i) ==
  IF m = UOne THEN <<>>
  ELSE LET k  == WSplit(m)
           mi == UAdd(lo, k)
       IN IF ULt(i, mi)
          THEN Append(WSiblings(known, lo, k, i), WDigest(known, mi, USub(m, k)))
          ELSE Append(WSiblings(known, mi, USub(m, k), i), WDigest(known, lo, k))

WProof(known, n, i) ==
  <<known[WIndex(0, i)]>> \o WSiblings(known, UZero, n, i)

\* After one more leaf: its digest, and those of the subtrees it completes.
RECURSIVE WCarry(_, _, _)
WCarry(known, p, n) ==          \* p: the subtree just completed, n: new count
  LET h == WHeight(p) + 1
  IN IF h > 63 \/ UShr(n, h) = UZero \/ UShl(UShr(n, h), h) # n THEN known
     ELSE LET q == WIndex(h, USub(UShr(n, h), UOne))
          IN  WCarry((q :> ShaNode(known[WLeft(q)], known[WRight(q)])) @@ known, q, n)

WPush(known, n, dig) ==
  LET p == WIndex(0, n) IN WCarry((p :> dig) @@ known, p, UAdd(n, UOne))

\* The subtrees that a push onto n leaves completes, the new leaf first.
RECURSIVE WNewFrom(_, _)
WNewFrom(p, n) ==
  LET h == WHeight(p) + 1
  IN {p} \cup (IF h > 63 \/ UShr(n, h) = UZero \/ UShl(UShr(n, h), h) # n THEN {}
                ELSE WNewFrom(WIndex(h, USub(UShr(n, h), UOne)), n))
WNewKeys(n) == WNewFrom(WIndex(0, n), UAdd(n, UOne))

\* The peaks of m leaves from lo on.
RECURSIVE WPeaksFrom(_, _)
WPeaksFrom(lo, m) ==
  IF m = UZero THEN {}
  ELSE LET p == UPow(ULen(m) - 1) IN {WNode(lo, p)} \cup WPeaksFrom(UAdd(lo, p), USub(m, p))
WPeakKeys(n) == WPeaksFrom(UZero, n)

\* The complete subtrees whose digests appear in the proof of leaf i, and
\* everything that producing the proof may depend on.
RECURSIVE WSiblingKeys(_, _, _)
WSiblingKeys(lo, m, i) ==
  IF m = UOne THEN {}
  ELSE LET k  == WSplit(m)
           mi == UAdd(lo, k)
           whole(a, x) == IF UIsPow2(x) THEN {WNode(a, x)} ELSE {}
       IN IF ULt(i, mi) THEN WSiblingKeys(lo, k, i) \cup whole(mi, USub(m, k))
                        ELSE WSiblingKeys(mi, USub(m, k), i) \cup whole(lo, k)
WProofDeps(n, i) == {WIndex(0, i)} \cup WSiblingKeys(UZero, n, i) \cup WPeakKeys(n)

\* Every known inner node whose children are known is their hash.
WConsistent(known) ==
  \A p \in DOMAIN known :
    WHeight(p) > 0 /\ WLeft(p) \in DOMAIN known /\ WRight(p) \in DOMAIN known
      => known[p] = ShaNode(known[WLeft(p)], known[WRight(p)])
=============================================================================
