------------------------------- MODULE GenAll -------------------------------
(* Every history of the small world of IndexerMC with up to Moves changes of  *)
(* the node: breadth first, one script for each transition of the graph.      *)
(* Changes come at the program's requests; what happens in between cannot     *)
(* make a difference to it.                                                   *)
EXTENDS IndexerMC, Json
VARIABLE script
avars == <<vars, mvars, script>>

AInit == Init /\ script = <<>>
Note(e) == script' = Append(script, e) /\ PrintT("STEP " \o ToJson(script'))

ARpc == /\ ReplyMempool \/ ReplyTransaction \/ ReplyBlockHash \/ ReplyBlock
        /\ Stay /\ Note(<<"rpc", pc, CASE pc = "tx" -> Head(todo) [] pc = "bh" -> NextHeight [] pc = "gb" -> nextb [] OTHER -> 0>>)
AInternal == Stay /\ IF pc = "off" THEN Start(files) /\ Note(<<"start">>) ELSE (UpdBegin \/ Apply \/ Extend) /\ UNCHANGED script
ASaved == signals' = 0 /\ disk' = [ok |-> TRUE, s |-> store] /\ Stay
          /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, wpc, wbuf, tmp, qs, script>>
AMoves == NodeMoves /\ Note(<<"node", tip', pool'>>)
AStops == Stop /\ stops > 0 /\ stops' = stops - 1 /\ UNCHANGED <<moves, faults, files>> /\ Note(<<"kill">>)

ANext ==
  IF signals > 0 /\ pc = "sleep" THEN ASaved
  ELSE IF pc \notin {"mp", "tx", "bh", "gb"} THEN AInternal
  ELSE ARpc \/ AMoves \/ AStops

World == [K |-> W.K, txs |-> W.T, blks |-> W.B]
ASpec == AInit /\ [][ANext]_avars
(* The script is how a state was reached, not part of it; versions that are known by now differ in nothing. *)
AView == <<vars, mvars>>
ASSUME PrintT("WORLD " \o ToJson([txs |-> MCT, blks |-> MCB]))
=============================================================================
