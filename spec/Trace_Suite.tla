---------------------------- MODULE Trace_Suite -----------------------------
(***************************************************************************)
(* The fixture generator's output: every fixture it writes is true, tells  *)
(* the same as the fixture of that name which the repository ships, and    *)
(* nothing is left out.                                                    *)
(***************************************************************************)
EXTENDS TraceBase, BinaryTree, ShaHash

VARIABLE written       \* names of the fixtures seen so far
Init == TraceStart /\ written = {}
TNew == Ev("new") /\ written' = {}

True(f) == /\ f.set # <<>> /\ f.i < f.n
           /\ Accepts(f.root, f.set, f.i, f.n)

\* ev.now: the fixture just written; ev.was: the shipped one; ev.d: the data
\* (from the generator's pool) whose digest is the first element.
TGen == /\ Ev("gen") /\ ev.r = "ok"
        /\ ev.now = ev.was
        /\ ev.pool /\ ev.now.set[1] = LeafH(ev.d)
        /\ ev.now.claim = True(ev.now)
        /\ ev.run = "ok"                   \* the fixture runner agrees
        /\ ev.name \notin written /\ written' = written \cup {ev.name}

\* All of them were written, and a second run wrote the same again.
TSuite == /\ Ev("suite") /\ ev.r = "ok"
          /\ written = {ev.shipped[x] : x \in 1 .. Len(ev.shipped)}
          /\ ev.again
          /\ UNCHANGED written
Next == TNew \/ TGen \/ TSuite
Spec == Init /\ [][Next]_<<l, written>>
=============================================================================
