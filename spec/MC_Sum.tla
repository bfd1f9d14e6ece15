------------------------------- MODULE MC_Sum -------------------------------
EXTENDS SumMerkle, SymHash
NatAdd(a, b) == a + b

\* The subtrees kept while a list grows determine its root (used by Trace_Sum).
RECURSIVE Grown(_, _)
Grown(pk, L) == IF L = <<>> THEN pk ELSE Grown(FPeakPush(pk, <<1>> \o Head(L)), Tail(L))
PeaksAgree == /\ FPeaks(items) = Grown(<<>>, items)
              /\ FPeakRoot(FPeaks(items)) = FRoot(items)
=============================================================================
