---------------------------- MODULE Trace_Config ----------------------------
(***************************************************************************)
(* The same workload, recorded from four builds of the code: every event,  *)
(* arguments and results, is the same in all of them.                      *)
(***************************************************************************)
EXTENDS TraceBase
Second == ndJsonDeserialize(IOEnv.SECOND)
Third  == ndJsonDeserialize(IOEnv.THIRD)
Fourth == ndJsonDeserialize(IOEnv.FOURTH)
Init == TraceStart
In(t) == l <= Len(t) /\ t[l] = Trace[l]
Same == l <= Len(Trace) /\ In(Second) /\ In(Third) /\ In(Fourth) /\ l' = l + 1
Spec == Init /\ [][Same]_l
Longest == CHOOSE n \in {Len(Trace), Len(Second), Len(Third), Len(Fourth)} :
             \A t \in {Len(Trace), Len(Second), Len(Third), Len(Fourth)} : t <= n
AllSame == TraceAccepted /\ Longest = Len(Trace)
=============================================================================
