------------------------------ MODULE GenSparse -----------------------------
(***************************************************************************)
(* Schedules for the real code: one for every transition of the bounded    *)
(* step model SparseMerkle, reached along a shortest path, in terms of     *)
(* public operations and the write at which an operation fails or the      *)
(* process stops.                                                          *)
(***************************************************************************)
EXTENDS MC_Sparse, Json

CONSTANTS MaxOps
VARIABLES hist, cur     \* operations so far; <<op, key, value, writes made>> of the one in progress

GInit == Init /\ hist = <<>> /\ cur = <<>>
Op(x) == hist' = Append(hist, x)

GNext ==
  \/ \E k \in Keys, v \in Vals : Update(k, v) /\ cur' = <<"update", k, v, 0>> /\ UNCHANGED hist
  \/ \E k \in Keys : DeletePresent(k) /\ cur' = <<"delete", k, 0, 0>> /\ UNCHANGED hist
  \/ \E k \in Keys : DeleteAbsent(k) /\ Op(<<"delete", k, 0, 0, "ok">>) /\ UNCHANGED cur
  \/ Step /\ IF pc' = "idle"
             THEN Op(<<cur[1], cur[2], cur[3], 0, "ok">>) /\ cur' = <<>>
             ELSE cur' = [cur EXCEPT ![4] = IF Head(todo)[1] = "root" THEN @ ELSE @ + 1] /\ UNCHANGED hist
  \/ Fail /\ Op(Append(cur, "fail")) /\ cur' = <<>>
  \/ Crash /\ Op(IF cur = <<>> THEN <<"stop", <<>>, 0, 0, "ok">> ELSE Append(cur, "crash")) /\ cur' = <<>>
  \/ Load(Digest(root)) /\ pc = "idle" /\ Op(<<"load", <<>>, 0, 0, "ok">>) /\ UNCHANGED cur
  \/ Load(SRoot(map)) /\ pc = "down" /\ Op(<<"load", <<>>, 0, 0, "ok">>) /\ UNCHANGED cur

GSpec == GInit /\ [][GNext]_<<vars, hist, cur>>

NoHist == <<NoStale, cur>>
Short == Len(hist) <= MaxOps
Emit == (hist' # hist /\ Len(hist') > 0) => PrintT(ToJson(hist'))
=============================================================================
