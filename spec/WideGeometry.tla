---------------------------- MODULE WideGeometry ----------------------------
(***************************************************************************)
(* Geometry.tla over 64-bit numbers: the same definitions, so that the     *)
(* code can be judged in the whole 64-bit range.  (MC_Position checks that *)
(* the two agree on small numbers.)                                        *)
(***************************************************************************)
EXTENDS U64, Sequences

WIndex(h, j)   == UAdd(UShl(j, h + 1), USub(UPow(h), UOne))
WHeight(p)     == UTrailingOnes(p)
WOrdinal(p)    == UShr(p, WHeight(p) + 1)
WFlip(j)       == IF UBit(j, 0) = 0 THEN UAdd(j, UOne) ELSE USub(j, UOne)

WParent(p)     == WIndex(WHeight(p) + 1, UShr(WOrdinal(p), 1))
WSibling(p)    == WIndex(WHeight(p), WFlip(WOrdinal(p)))
WUncle(p)      == WSibling(WParent(p))
WLeft(p)       == WIndex(WHeight(p) - 1, UShl(WOrdinal(p), 1))
WRight(p)      == WIndex(WHeight(p) - 1, UAdd(UShl(WOrdinal(p), 1), UOne))

WNode(lo, m)   == LET c == UCeilLog(m) IN WIndex(c, UShr(lo, c))
\* The size of the left subtree of a tree of m leaves (m >= 2).
WSplit(m)      == UPow(UCeilLog(m) - 1)

RECURSIVE WPath(_, _, _, _)
WPath(lo, m, i, side) ==
  <<<<WNode(lo, m), side>>>> \o
  (IF m = UOne THEN <<>>
   ELSE LET k  == WSplit(m)
            mi == UAdd(lo, k)
        IN IF ULt(i, mi) THEN WPath(lo, k, i, WNode(mi, USub(m, k)))
                         ELSE WPath(mi, USub(m, k), i, WNode(lo, k)))

WTreePath(m, i) == WPath(UZero, m, i, WNode(UZero, m))

\* From node p straight down to leaf i of the complete tree below it.
RECURSIVE WDown(_, _, _)
WDown(p, i, side) ==
  <<<<p, side>>>> \o
  (IF WHeight(p) = 0 THEN <<>>
   ELSE IF UBit(i, WHeight(p) - 1) = 0 THEN WDown(WLeft(p), i, WRight(p))
                                       ELSE WDown(WRight(p), i, WLeft(p)))

\* Sides of leaf i of m leaves, from the leaf up.
RECURSIVE WSides(_, _)
WSides(m, i) ==
  IF m = UOne THEN <<>>
  ELSE LET k == WSplit(m)
       IN IF ULt(i, k) THEN Append(WSides(k, i), "L")
                       ELSE Append(WSides(USub(m, k), USub(i, k)), "R")
=============================================================================
