----------------------------- MODULE GenBinary ------------------------------
(***************************************************************************)
(* Schedules for the real code: one for every transition of the bounded    *)
(* step model BinaryMerkle, reached along a shortest path, in terms of     *)
(* public operations and the write at which a push fails or the process    *)
(* stops.                                                                  *)
(***************************************************************************)
EXTENDS BinaryMerkle, SymHash, Json

CONSTANT MaxOps
VARIABLES hist, cur     \* operations so far; <<datum, writes made>> of the push in progress

GInit == Init /\ hist = <<>> /\ cur = <<>>

Op(x) == hist' = Append(hist, x)

GNext ==
  \/ \E d \in Data : /\ PushLeaf(d)
                     /\ IF pc' = "idle" THEN Op(<<"push", d, 0>>) /\ cur' = <<>>
                                        ELSE cur' = <<d, 1>> /\ UNCHANGED hist
  \/ JoinStep /\ IF pc' = "idle" THEN Op(<<"push", cur[1], 0>>) /\ cur' = <<>>
                                 ELSE cur' = <<cur[1], cur[2] + 1>> /\ UNCHANGED hist
  \/ \E d \in Data : FailLeaf /\ Op(<<"fail", d, 0>>) /\ UNCHANGED cur
  \/ FailJoin /\ Op(<<"fail", cur[1], cur[2]>>) /\ cur' = <<>>
  \/ Crash /\ cur' = <<>> /\ Op(IF pc = "idle" THEN <<"stop", 0, 0>> ELSE <<"crash", cur[1], cur[2]>>)
  \/ \E k \in 0 .. MaxLeaves : LoadK(k) /\ Op(<<"load", k, 0>>) /\ UNCHANGED cur

GSpec == GInit /\ [][GNext]_<<vars, hist, cur>>

NoHist == <<vars, cur>>
Short == Len(hist) <= MaxOps
\* ACTION_CONSTRAINT: prints the schedule of every completed operation.
Emit == (hist' # hist /\ Len(hist') > 0) => PrintT(ToJson(hist'))
=============================================================================
