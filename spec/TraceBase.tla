----------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Reading a recorded execution: one JSON object per line, each an event   *)
(* written when a public operation of the code returned.  A trace          *)
(* specification takes one step per event; the recording is a behaviour of *)
(* the specification iff every event could be taken.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* Findings listed in known-findings.txt: flaws of inputs, with what they lead to.
Known == IF "KNOWN" \in DOMAIN IOEnv /\ IOEnv.KNOWN # ""
         THEN LET t == ndJsonDeserialize(IOEnv.KNOWN) IN {<<t[x].flaw, t[x].r>> : x \in 1 .. Len(t)}
         ELSE {}

VARIABLE l                       \* the next event

TraceStart == l = 1
ev == Trace[l]
Ev(op) == /\ l <= Len(Trace)
          /\ ev.op = op
          /\ l' = l + 1

\* POSTCONDITION of every trace model.
TraceAccepted ==
  LET matched == TLCGet("stats").diameter - 1
  IN  /\ PrintT(<<"MATCHED", matched, Len(Trace)>>)
      /\ matched = Len(Trace)
=============================================================================
