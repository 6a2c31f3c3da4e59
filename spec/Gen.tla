--------------------------------- MODULE Gen ---------------------------------
(* Scenarios for the real program: Indexer.tla with a node that grows a random *)
(* world, run by TLC's simulator.  Each behaviour is printed as a script: what *)
(* the node does, which of the program's requests are answered when (with the  *)
(* request Indexer.tla expects), which queries are asked, when the program is  *)
(* stopped.  The driver plays it against the real program and records what     *)
(* happens; ServiceTrace.tla judges the recording.                             *)
EXTENDS Indexer, Grow, Json, IOUtils

CONSTANTS Ks,          \* CONFIRMATIONS values
          Steps,       \* length of a script
          PNode,       \* per cent: the node changes (between requests of an update)
          PMid,        \* per cent: a change may come in the middle of an update
          PReorg,      \* of the changes: reorganisations
          PPool,       \* of the changes: memory pool only
          PDirty,      \* of the pool changes: conflicting, repeated or unordered lists
          PQuery,      \* per cent: queries
          PStop,       \* per cent: the program is stopped and restarted
          PDeep,       \* of the reorganisations: deeper than the margin
          MaxBlocks,
          Watch,       \* the driver holds and releases every write of the store
          PRelease,    \* per cent: a held write is released
          PFault,      \* per cent: the node fails to answer a request properly
          PClock,      \* per cent: the wall clock is set
          PFull,       \* of the releases: the disk is full and the write fails
          PBlink,      \* per cent: a listed transaction is gone when it is asked for, and is there again afterwards
          PAge         \* per cent: a long time passes before the node answers

VARIABLES script, cfg, over
gvars == <<vars, script, cfg, over>>

Record(x) == script' = Append(script, x)
Init ==
  /\ W = [T |-> <<>>, B |-> <<>>, U |-> <<>>, K |-> 1] /\ tip = 0 /\ pool = <<>> /\ InitIdx
  /\ script = <<>> /\ cfg = [files |-> 0] /\ over = "setup"

Setup ==
  /\ over = "setup" /\ over' = "no"
  /\ \E k \in {RandomElement(Ks)}, extra \in {RandomElement(0 .. 4)}, ahead \in {RandomElement(0 .. 3)} :
       LET w0 == [T |-> <<>>, B |-> <<>>, U |-> <<>>, K |-> k]
       IN \E w1 \in {Branch(w0, 0, <<>>, k + extra)} : \E w2 \in {Branch(w1, Len(w1.B), <<>>, ahead)} :
            /\ W' = w2 /\ tip' = Len(w2.B)
            /\ cfg' = [files |-> Len(w1.B), threads |-> RandomElement(1 .. 3), batch |-> RandomElement({1, 2, 3, 1000}),
                       collide |-> Chance(30), chunked |-> Chance(20), blink |-> <<>>, salt |-> RandomElement(1 .. 1000000)]
            /\ script' = <<[a |-> "node", tip |-> tip', pool |-> <<>>]>>
  /\ UNCHANGED <<pool, uvars, mutex, pub, upd, signals, dvars, qs>>

Idle == UNCHANGED <<uvars, mutex, pub, upd, signals, dvars, qs, cfg, over>>
Moved(w, b, p) ==
  /\ W' = w /\ tip' = b /\ pool' = p
  /\ Record([a |-> "node", tip |-> b, pool |-> p])

Mine ==
  \E n \in {IF Chance(70) THEN 1 ELSE RandomElement(1 .. 4)} : \E w \in {Branch(W, tip, pool, n)} :
    Moved(w, Len(w.B), PoolAfter(w, tip, Len(w.B), pool)) /\ Idle

Parents(deep) == {b \in DOMAIN W.B : b # tip /\ ~OnChain(W.B, tip, b) /\
                    LET m == Meet(W.B, b, tip) d == W.B[tip].h - W.B[m].h
                    IN IF deep THEN d >= W.K /\ d <= W.K + 1 ELSE d <= W.K - 1}
Reorg(deep) ==
  IF Parents(deep) = {} THEN Mine
  ELSE \E x \in {RandomElement(Parents(deep))}, more \in {IF Chance(75) THEN 1 ELSE 2} :
    LET m == Meet(W.B, x, tip)
        cand == Shuffle(Dropped(W, tip, m)) \o pool
    IN \E w \in {Branch(W, x, cand, W.B[tip].h - W.B[x].h + more)} :
         Moved(w, Len(w.B), PoolAfter(w, tip, Len(w.B), pool)) /\ Idle

Submit ==
  IF MemFold(W.T, W.U[tip], pool) = {} THEN Mine ELSE
  \E w \in {WithTx(W, MemFold(W.T, W.U[tip], pool))} : Moved(w, tip, Append(pool, Len(w.T))) /\ Idle
(* A conflicting transaction replaces others, or (dirty) is listed with them. *)
Replace ==
  IF W.U[tip] = {} THEN Mine ELSE
  \E w \in {WithTx(W, W.U[tip])}, dirty \in {Chance(PDirty)} :
    LET t == Len(w.T)
    IN Moved(w, tip, IF dirty THEN Append(pool, t) ELSE Readmit(w, tip, <<t>> \o pool)) /\ Idle
Evict ==
  IF pool = <<>> THEN Submit
  ELSE \E i \in {RandomElement(DOMAIN pool)}, dirty \in {Chance(PDirty)} :
    LET rest == SubSeq(pool, 1, i - 1) \o SubSeq(pool, i + 1, Len(pool))
    IN Moved(W, tip, IF dirty THEN rest ELSE Readmit(W, tip, rest)) /\ Idle
(* Something old is listed (again), or the list is out of order. *)
Odd ==
  \E d \in {RandomElement(1 .. 2)} :
    LET old == {t \in DOMAIN W.T : ~W.T[t].cb /\ t \notin Range(pool)}
    IN Moved(W, tip, IF d = 1 /\ old # {} THEN Append(pool, RandomElement(old)) ELSE Shuffle(pool)) /\ Idle

NodeChange ==
  \E d \in {RandomElement(1 .. 100)}, e \in {RandomElement(1 .. 100)}, deep \in {Chance(PDeep)} :
    IF d <= PPool \/ Len(W.B) >= MaxBlocks
    THEN IF e <= 50 THEN Submit ELSE IF e <= 65 THEN Replace ELSE IF e <= 85 \/ ~Chance(PDirty) THEN Evict ELSE Odd
    ELSE IF d <= PPool + PReorg THEN Reorg(deep) ELSE Mine

Rpc == /\ ReplyMempool \/ ReplyTransaction \/ ReplyBlockHash \/ ReplyBlock
       /\ Record([a |-> "rpc", exp |-> pc, arg |-> CASE pc = "tx" -> Head(todo) [] pc = "bh" -> NextHeight [] pc = "gb" -> nextb [] OTHER -> 0])
       /\ UNCHANGED <<cfg, over>>
Internal == (Start(cfg.files) \/ UpdBegin \/ Apply \/ Extend) /\ UNCHANGED <<cfg, over>>
            /\ IF pc = "off" THEN Record([a |-> "start"]) ELSE UNCHANGED script
(* The writer is quick unless the driver holds it; here it is at once. *)
Saved == signals > 0 /\ pc = "sleep" /\ signals' = 0 /\ disk' = [ok |-> TRUE, s |-> store]
         /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, wpc, wbuf, tmp, qs, script, cfg, over>>

(* With the driver holding it: the writer has begun before the next update. *)
Taken == WrTake /\ Record([a |-> "taken"]) /\ UNCHANGED <<cfg, over>>
Released ==
  /\ wpc = "copy" /\ wpc' = "idle" /\ mutex' = "free" /\ disk' = [ok |-> TRUE, s |-> store]
  /\ Record([a |-> "release"])
  /\ UNCHANGED <<nvars, uvars, pub, upd, signals, wbuf, tmp, qs, cfg, over>>

RandAddrs(x) == LET n == RandomElement(1 .. 4) IN [i \in 1 .. n |-> <<Pick(<<0, 5>>), RandomElement(1 .. Addrs)>>]
Queried ==
  /\ \E d \in {RandomElement(1 .. 100)} :
       Record(IF d <= 30 THEN [a |-> "qall", c |-> RandomElement(0 .. W.K), kind |-> Pick(<<"utxo", "bal", "mutxo", "mbal">>), post |-> Chance(50)]
              ELSE IF d <= 40 THEN [a |-> "views", kind |-> Pick(<<"mutxo", "mbal">>)]
              ELSE [a |-> "q", c |-> RandomElement((0 .. W.K + 1) \ (IF Chance(90) THEN {W.K + 1} ELSE {})),
                    kind |-> Pick(<<"utxo", "bal", "mutxo", "mbal">>), addrs |-> RandAddrs(0), post |-> Chance(50)])
  /\ UNCHANGED <<vars, cfg, over>>
Clocked == Record([a |-> "clock"]) /\ UNCHANGED <<vars, cfg, over>>
(* A transaction leaves the memory pool just before the program asks for it, *)
(* and returns right after that.                                             *)
BlinkOff ==
  /\ Moved(W, tip, SelectSeq(pool, LAMBDA t : t # Head(todo)))
  /\ over' = "blink" /\ cfg' = [cfg EXCEPT !.blink = pool]
  /\ UNCHANGED <<uvars, mutex, pub, upd, signals, dvars, qs>>
BlinkAsk ==
  /\ ReplyTransaction /\ Record([a |-> "rpc", exp |-> pc, arg |-> Head(todo)])
  /\ over' = "back" /\ UNCHANGED cfg
BlinkOn ==
  /\ Moved(W, tip, cfg.blink)
  /\ over' = "no" /\ cfg' = [cfg EXCEPT !.blink = <<>>]
  /\ UNCHANGED <<uvars, mutex, pub, upd, signals, dvars, qs>>
Aged == Record([a |-> "age"]) /\ UNCHANGED <<vars, cfg, over>>
(* The program must end; it is started again against a node that is well. *)
Faulted == Stop /\ Record([a |-> "fault", m |-> pc]) /\ UNCHANGED <<cfg, over>>
DiskFull == Stop /\ Record([a |-> "full"]) /\ UNCHANGED <<cfg, over>>
Stopped == Stop /\ Record([a |-> IF Watch THEN "crash" ELSE "kill", held |-> wpc = "copy"]) /\ UNCHANGED <<cfg, over>>
Finish ==
  /\ over = "no" /\ over' = "yes"
  /\ PrintT("SCRIPT " \o ToJson([K |-> W.K, cfg |-> cfg, txs |-> W.T, blks |-> W.B, steps |-> script]))
  /\ UNCHANGED <<vars, script, cfg>>

(* The node has not changed since the last version was published. *)
Stale == pc = "mp" /\ pub.b = tip /\ pub.m = pool
Busy == pc \in {"mp", "tx", "bh", "gb"}
Next ==
  IF over = "blink" THEN BlinkAsk
  ELSE IF over = "back" THEN BlinkOn
  ELSE IF over # "no" THEN Setup
  ELSE IF Len(script) >= Steps \/ pc = "dead" THEN Finish
  ELSE IF signals > 0 /\ pc = "sleep" THEN (IF Watch THEN Taken ELSE Saved)
  ELSE IF ~Busy THEN Internal
  ELSE \E d \in {RandomElement(1 .. 100)} :
    IF wpc = "copy" /\ Chance(PRelease) THEN (IF Chance(PFull) THEN DiskFull ELSE Released)
    ELSE IF Chance(PClock) THEN Clocked
    ELSE IF Chance(PAge) THEN Aged
    ELSE IF pc = "tx" /\ Chance(PBlink) /\ Head(todo) \in Range(pool) THEN BlinkOff
    ELSE IF Chance(PFault) THEN Faulted
    ELSE IF Stale /\ Chance(75) THEN (IF Chance(PQuery) THEN Queried ELSE NodeChange)
    ELSE IF d <= PNode THEN (IF pc = "mp" \/ Chance(PMid) THEN NodeChange ELSE Rpc)
    ELSE IF d <= PNode + PQuery THEN (IF pub # NoPub THEN Queried ELSE Rpc)
    ELSE IF d <= PNode + PQuery + PStop THEN Stopped
    ELSE Rpc
Spec == Init /\ [][Next]_gvars
============================================================================
