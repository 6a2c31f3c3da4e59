------------------------------ MODULE IndexerMC ------------------------------
(* Indexer in a small world, exhaustively.                                    *)
EXTENDS Indexer, TLC
CONSTANTS MCK,        \* confirmations
          Moves,      \* how often the node may change
          Stops,      \* how often the program may be stopped
          Faults,     \* how often the node may fail
          Files,      \* tip of the block files
          FirstTip,   \* tip of the node at the beginning
          UseWriter   \* model the steps of a store write
VARIABLES moves, stops, faults, files
mvars == <<moves, stops, faults, files>>

(* Transactions 1..7 are coinbases, 8.. move value around:                   *)
(*   8 spends 1:0 to two outputs, 9 spends 8:0 (chain of unconfirmed),       *)
(*   10 spends 1:0 too (conflicts with 8), 11 spends 8:1 and 3:0             *)
S(a) == <<25, 118, 169, 20, 136, 172, a, 0>>
Cb(a) == [cb |-> TRUE, ins |-> <<>>, outs |-> <<[s |-> S(a), v |-> <<50, 0>>]>>]
Tx(ins, n) == [cb |-> FALSE, ins |-> ins, outs |-> [i \in 1 .. n |-> [s |-> S(i), v |-> <<i, 1>>]]]
MCT == <<Cb(1), Cb(2), Cb(1), Cb(2), Cb(1), Cb(2), Cb(1),
         Tx(<<<<1, 0>>>>, 2), Tx(<<<<8, 0>>>>, 1), Tx(<<<<1, 0>>>>, 1), Tx(<<<<8, 1>>, <<3, 0>>>>, 1)>>
Blk(p, h, ts) == [p |-> p, h |-> h, txs |-> ts]
(*  1 - 2 - 3 - 5 - 7        with 8 in 3, 9 in 5
          \ 4 - 6             with 10 in 4, conflicting                      *)
MCB == <<Blk(0, 0, <<1>>), Blk(1, 1, <<2>>), Blk(2, 2, <<3, 8>>), Blk(2, 2, <<4, 10>>), Blk(3, 3, <<5, 9>>),
         Blk(4, 3, <<6>>), Blk(5, 4, <<7, 11>>)>>
MCW == [T |-> MCT, B |-> MCB, U |-> ChainUtxo(MCT, MCB), K |-> MCK]

(* Memory pools a node can have on top of a block: everything admissible. *)
Free == {8, 9, 10, 11}
Lists == {<<>>} \cup UNION {{x \in [1 .. n -> Free] : \A i, j \in 1 .. n : i # j => x[i] # x[j]} : n \in 1 .. 2}
Valid(b, m) == \A i \in DOMAIN m : Admissible(MCT, MemFold(MCT, MCW.U[b], SubSeq(m, 1, i - 1)), m[i])
PoolsOf == [b \in DOMAIN MCB |-> {m \in Lists : Valid(b, m)}]

Init == /\ W = MCW /\ tip = FirstTip /\ pool = <<>> /\ InitIdx /\ moves = Moves /\ stops = Stops /\ faults = Faults /\ files = Files

NodeMoves ==
  /\ moves > 0 /\ moves' = moves - 1
  /\ \E b \in DOMAIN W.B :
       /\ b = tip \/ Height(W.B, b) > Height(W.B, tip)
       /\ \E p \in PoolsOf[b] :
            /\ <<b, p>> # <<tip, pool>>
            /\ tip' = b /\ pool' = p
            /\ upd' = [upd EXCEPT !.win = IF upd.on THEN @ \cup {b} ELSE @]
  /\ UNCHANGED <<W, uvars, mutex, pub, signals, dvars, qs, stops, faults, files>>

Stay == UNCHANGED mvars
Next ==
  \/ NodeMoves
  \/ Start(files) /\ Stay
  \/ Stop /\ stops > 0 /\ stops' = stops - 1 /\ UNCHANGED <<moves, faults, files>>
  \/ Fault /\ faults > 0 /\ faults' = faults - 1 /\ UNCHANGED <<moves, stops, files>>
  \/ Die /\ Stay
  \/ (Updater /\ Stay)
  \/ (UseWriter /\ Writer /\ Stay)
  \/ (~UseWriter /\ signals > 0 /\ signals' = 0 /\ disk' = [ok |-> TRUE, s |-> store]
        /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, wpc, wbuf, tmp, qs, mvars>>)
  \/ \E q \in Queries : ((\E c \in 0 .. W.K : QAsk(q, c)) \/ Query(q)) /\ Stay

(* The locks are first come, first served: strong fairness where one waits.  *)
Fair ==
  /\ SF_<<vars, mvars>>(Apply /\ Stay) /\ SF_<<vars, mvars>>(WrTake /\ Stay)
  /\ WF_<<vars, mvars>>(Updater /\ Stay) /\ WF_<<vars, mvars>>(Writer /\ Stay) /\ WF_<<vars, mvars>>(Start(files) /\ Stay) /\ WF_<<vars, mvars>>(Die /\ Stay)
  /\ \A q \in Queries : WF_<<vars, mvars>>(Query(q) /\ Stay)
Spec == Init /\ [][Next]_<<vars, mvars>>
FairSpec == Spec /\ Fair
----------------------------------------------------------------------------
(* C01-C03: between updates every depth sees the replay of the chain.        *)
ViewsCorrect ==
  (pub # NoPub /\ pc \notin {"extend", "extend0", "off"}) => \A c \in 0 .. W.K : Seen(c) = Answer(W, pub, c)
(* C04: what a request gets is one version, one it may be answered from. *)
AnswersCorrect ==
  [][\A q \in Queries : (qs[q].st = "both" /\ qs'[q].st = "done") => \E v \in qs[q].vs : qs'[q].r = Answer(W, v, qs[q].c)]_vars
(* C02, C07: only blocks at least K-1 below a published tip are in the store, *)
(* and what is on disk is a complete state of it.                             *)
StoreIsChain == pc \notin {"off"} => store.u = W.U[store.last] /\ store.n = W.B[store.last].h + 1
DiskComplete == disk.ok => disk.s.u = W.U[disk.s.last] /\ disk.s.n = W.B[disk.s.last].h + 1
StoreBehind == (pub # NoPub /\ pc \notin {"extend", "extend0"}) => store.n <= FinalCount(W, pub)
DiskGrows == [][disk.ok => disk'.ok /\ disk'.s.n >= disk.s.n]_vars
(* C09: the writer never blocks the updater or a query. *)
NeverBlocked == (pc \in {"apply", "extend", "extend0"} /\ ~Readers) => ENABLED (Apply \/ Extend)
(* C13: it fails only when the node failed or dropped a block of the store,   *)
(* and then ends; what is answered until then (ViewsCorrect) is right.        *)
DeadOnlyDeep == pc = "dead" => ~OnChain(W.B, store.last, tip) \/ faults < Faults
Ends == pc = "dead" ~> pc = "off"
(* C18 *)
Caught == (pc = "dead" \/ (pub.b = tip /\ pub.m = pool))
Converges == <>[]Caught
(* A block that became final while no write was running gets stored. *)
Persisted == \A n \in 1 .. 6 : (signals > 0 /\ store.n = n /\ pc # "off") ~> (pc \in {"off", "dead"} \/ disk.s.n >= n)

Svc == INSTANCE ServiceSpec WITH up <- pc \notin {"off"},
  open <- [q \in Queries |-> IF qs[q].st \in {"idle", "done"} THEN [c |-> -1, vs |-> {}] ELSE [c |-> qs[q].c, vs |-> qs[q].vs]]
Refines == Svc!Spec
==============================================================================
