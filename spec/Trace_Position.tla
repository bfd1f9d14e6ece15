--------------------------- MODULE Trace_Position ---------------------------
(***************************************************************************)
(* Recorded uses of the position type, judged by the declarative geometry. *)
(***************************************************************************)
EXTENDS TraceBase, WideGeometry, Sha256

\* All attributes of the position with in-order index ev.p (height <= 63); the parent
\* and sibling of the node of height 63, and the uncles below it, do not exist.
TPos ==
  /\ Ev("pos") /\ ev.r = "ok"
  /\ LET p == ev.p
         h == WHeight(p)
     IN  /\ ev.h = h
         /\ ev.leaf = (h = 0) /\ ev.node = (h > 0)
         /\ ev.parent = (IF h <= 62 THEN WParent(p) ELSE "")
         /\ ev.sibling = (IF h <= 62 THEN WSibling(p) ELSE "")
         /\ ev.uncle = (IF h <= 61 THEN WUncle(p) ELSE "")
         /\ ev.li = (IF h = 0 THEN WOrdinal(p) ELSE "")
         /\ ev.lc = (IF h = 0 THEN "" ELSE WLeft(p))
         /\ ev.rc = (IF h = 0 THEN "" ELSE WRight(p))

TLeafPos == Ev("leafpos") /\ ev.r = "ok" /\ ev.p = WIndex(0, ev.i)

\* The path in the tree of n leaves.
TPath == Ev("path") /\ ev.r = "ok" /\ ev.out = WTreePath(ev.n, ev.i)

\* The path below an arbitrary position.
TDown == Ev("down") /\ ev.r = "ok" /\ ev.out = WDown(ev.root, ev.i, ev.root)

\* A path in a trie with keys of ev.w bits, from a root of height ev.h.  A node
\* is named by the bits leading to it; the nodes in ev.bad cannot be produced
\* (their name is their error), those in ev.early are leaves.
Named(x) == IF \E k \in 1 .. Len(ev.bad) : ev.bad[k] = x THEN "E" \o x ELSE x
RECURSIVE Walk(_, _, _)
Walk(x, side, k) ==
  <<<<Named(x), Named(side)>>>> \o
  IF k = ev.h \/ Named(x) # x \/ \E j \in 1 .. Len(ev.early) : ev.early[j] = x THEN <<>>
  ELSE IF BitAt(ev.key, ev.w - ev.h + k) = 0 THEN Walk(x \o "0", x \o "1", k + 1)
                                            ELSE Walk(x \o "1", x \o "0", k + 1)
TTrie == Ev("trie") /\ ev.r = "ok" /\ ev.out = Walk("r", "r", 0)

Next == TPos \/ TLeafPos \/ TPath \/ TDown \/ TTrie
Spec == TraceStart /\ [][Next]_l
=============================================================================
