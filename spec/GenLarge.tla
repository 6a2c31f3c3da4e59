------------------------------ MODULE GenLarge ------------------------------
(* Scenarios of unusual size: a margin of hundreds of blocks, a memory pool    *)
(* or a block of many transactions, many outputs at one address, many          *)
(* addresses in one request.  The program's requests are answered update by    *)
(* update; the node changes in between.  Printed as scripts, like Gen.tla's.   *)
EXTENDS Grow, Json

CONSTANTS Ks,          \* CONFIRMATIONS values
          Base, Extra, \* blocks that are final at the beginning: Base and up to Extra more
          NPad, NKept, \* outputs of one of their transactions without value for anybody, and how many of them can be spent all the same
          Kept,        \* their form
          Turns,       \* changes of the node
          Busy,        \* per cent: a block has ordinary transactions
          NBlock,      \* transactions of the large block, 0 for none
          NOuts,       \* outputs of the largest transactions
          Cap,         \* coins of their outputs, at most
          NPool,       \* transactions put into the memory pool at a time
          NIns,        \* inputs of the largest ones among them; some may be spent already
          PPool,       \* per cent: a change is one of the memory pool
          PReorg,      \* per cent: a change is a reorganisation
          PRestart,    \* per cent: a restart after an update
          PMid         \* per cent: a change comes in the middle of an update

VARIABLES W, tip, pool, script, cfg, turn
vars == <<W, tip, pool, script, cfg, turn>>

Init ==
  /\ W = [T |-> <<>>, B |-> <<>>, U |-> <<>>, K |-> 1] /\ tip = 0 /\ pool = <<>> /\ script = <<>> /\ cfg = <<>> /\ turn = -1

RECURSIVE Quiet(_, _, _, _)
Quiet(w, parent, cand, n) ==          \* like Grow!Branch, but most blocks are almost empty
  IF n = 0 THEN w
  ELSE LET w2 == TLCEval(WithBlock(w, parent, IF Chance(Busy) THEN cand ELSE <<>>, 60, IF Chance(Busy) THEN 2 ELSE 0))
       IN Quiet(w2, Len(w2.B), cand, n - 1)

(* n transactions that each spend one or two outputs and mostly create more; now and then one creates very many. *)
Outs(n) == TLCEval(FoldLeft(LAMBDA a, i : Append(a, TLCEval(LET o == RandOut(i) IN [o EXCEPT !.v[1] = @ % (Cap + 1)])), <<>>, [i \in 1 .. n |-> i]))
RECURSIVE Many(_, _, _, _)
Many(w, u, ts, n) ==
  IF n = 0 \/ u = {} THEN [w |-> w, u |-> u, ts |-> ts]
  ELSE LET ins == TLCEval(SetToSeq(RandomSubset(IF Cardinality(u) > 1 /\ Chance(20) THEN 2 ELSE 1, u)))
           w2 == TLCEval([w EXCEPT !.T = Append(@, [cb |-> FALSE, ins |-> ins, outs |-> Outs(IF Chance(2) THEN NOuts ELSE RandomElement(2 .. 4))])])
           t == Len(w2.T)
       IN Many(w2, TLCEval(ApplyTx(w2.T, u, t)), TLCEval(Append(ts, t)), n - 1)

(* A block with n transactions besides the coinbase. *)
Full(w, parent, n) ==
  LET w1 == WithCoinbase(w)
      cb == Len(w1.T)
      f == Many(w1, ApplyTx(w1.T, IF parent = 0 THEN {} ELSE w1.U[parent], cb), <<cb>>, n)
  IN [f.w EXCEPT !.B = Append(@, [p |-> parent, h |-> Height(w.B, parent) + 1, txs |-> f.ts]), !.U = Append(@, f.u)]

(* A block whose coinbase has NPad outputs; most can never be spent. *)
Filler(kept) == Out(IF kept THEN Kept ELSE "ret0", 1, <<0, 0>>)
Padded(w, parent) ==
  LET outs == TLCEval(Outs(2) \o TLCEval([i \in 1 .. NPad |-> Filler(i <= NKept)]) \o Outs(3))
      w1 == [w EXCEPT !.T = Append(@, [cb |-> TRUE, ins |-> <<>>, outs |-> outs])]
      t == Len(w1.T)
  IN [w1 EXCEPT !.B = Append(@, [p |-> parent, h |-> Height(w.B, parent) + 1, txs |-> <<t>>]),
                !.U = Append(@, ApplyTx(w1.T, IF parent = 0 THEN {} ELSE w.U[parent], t))]

Setup ==
  /\ turn = -1 /\ turn' = 0
  /\ \E k \in {RandomElement(Ks)}, extra \in {Base + RandomElement(0 .. Extra)}, ahead \in {RandomElement(0 .. 3)} :
       LET w0 == [T |-> <<>>, B |-> <<>>, U |-> <<>>, K |-> k]
       IN \E wp \in {IF NPad > 0 THEN Padded(w0, 0) ELSE w0} : \E w1 \in {Quiet(wp, Len(wp.B), <<>>, k + extra)} : \E w2 \in {IF NBlock > 0 /\ Chance(50) THEN Full(w1, Len(w1.B), NBlock) ELSE w1} :
          \E w3 \in {Quiet(w2, Len(w2.B), <<>>, ahead)} :
            /\ W' = w3 /\ tip' = Len(w3.B)
            /\ cfg' = [files |-> Len(w2.B), threads |-> RandomElement(1 .. 3), batch |-> RandomElement({1, 7, 100, 1000}),
                       collide |-> Chance(30), chunked |-> Chance(20), blink |-> <<>>, salt |-> RandomElement(1 .. 1000000)]
            /\ script' = <<[a |-> "node", tip |-> tip', pool |-> <<>>], [a |-> "start"], [a |-> "sync"]>>
  /\ UNCHANGED pool

Depths == {1, 2, W.K \div 2, W.K - 2, W.K - 1} \cap 1 .. (W.K - 1)
Moved(w, b, p) == /\ W' = w /\ tip' = b /\ pool' = p
Mine == \E w \in {IF NBlock > 0 /\ Chance(40) THEN Full(W, tip, NBlock) ELSE Quiet(W, tip, pool, RandomElement(1 .. 3))} :
          Moved(w, Len(w.B), PoolAfter(w, tip, Len(w.B), pool))
Reorg ==
  IF Depths = {} THEN Mine ELSE
  \E d \in {RandomElement(Depths)} :
    LET m == Anc(W.B, tip, d)
    IN \E w \in {Quiet(W, m, Shuffle(Dropped(W, tip, m)) \o pool, d + RandomElement(1 .. 2))} :
         Moved(w, Len(w.B), PoolAfter(w, tip, Len(w.B), pool))
Fill ==
  \E f \in {Many(W, MemFold(W.T, W.U[tip], pool), pool, NPool)} : Moved(f.w, tip, f.ts)
(* A transaction that spends many outputs, of which another one that is listed  *)
(* before or after it may spend some too, so that only one of them counts.     *)
Sweep(u) == [cb |-> FALSE, ins |-> TLCEval(Shuffle(SetToSeq(RandomSubset(RandomElement(1 .. (IF Cardinality(u) < NIns THEN Cardinality(u) ELSE NIns)), u)))), outs |-> Outs(RandomElement(1 .. 3))]
Into(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Sweeps ==
  \E u \in {TLCEval(W.U[tip] \cup (IF Chance(50) THEN MemFold(W.T, W.U[tip], pool) ELSE {}))}, n \in {RandomElement(1 .. 4)} :
    IF u = {} THEN Mine ELSE
    \E w \in {FoldLeft(LAMBDA a, i : TLCEval([a EXCEPT !.T = Append(@, Sweep(u))]), W, [i \in 1 .. n |-> i])} :
      Moved(w, tip, FoldLeft(LAMBDA p, i : TLCEval(Into(p, Pick(<<0, Len(p), Len(p), Len(p), RandomElement(0 .. Len(p))>>), Len(W.T) + i)), pool, [i \in 1 .. n |-> i]))
Evict ==
  \E keep \in {RandomElement({0, 50, 90})} : Moved(W, tip, Readmit(W, tip, SelectSeq(pool, LAMBDA t : Chance(keep))))

Near == {0, 1, 2, 127, 128, 129, 254, 255, 256, 257, W.K - 2, W.K - 1, W.K, W.K + 1} \cap 0 .. (W.K + 1)
Ask(c) == IF Chance(50) THEN [a |-> "qall", c |-> c, kind |-> Pick(<<"mutxo", "mbal">>), post |-> Chance(50)]
          ELSE [a |-> "q", c |-> c, kind |-> Pick(<<"utxo", "bal">>), addrs |-> <<<<Pick(<<0, 5>>), RandomElement(1 .. Addrs)>>>>, post |-> FALSE]
Asks == FoldLeft(LAMBDA a, i : Append(a, TLCEval(Ask(RandomElement(Near)))), <<>>, [i \in 1 .. RandomElement(2 .. 6) |-> i])

Turn ==
  /\ turn >= 0 /\ turn < Turns /\ turn' = turn + 1
  /\ \E d \in {RandomElement(1 .. 100)} :
       IF d <= PPool THEN (IF NIns > 0 /\ Chance(60) THEN Sweeps ELSE IF pool = <<>> \/ Chance(65) THEN Fill ELSE Evict) ELSE IF d <= PPool + PReorg THEN Reorg ELSE Mine
  /\ \E mid \in {Chance(PMid)}, again \in {Chance(PRestart)} :
       script' = script \o (IF mid THEN [i \in 1 .. RandomElement(1 .. 5) |-> [a |-> "rpc"]] ELSE <<>>)
                   \o <<[a |-> "node", tip |-> tip', pool |-> pool'], [a |-> "sync"]>> \o (IF Chance(70) THEN <<[a |-> "sync"]>> ELSE <<>>) \o Asks
                   \o (IF again THEN <<[a |-> "kill"], [a |-> "start"], [a |-> "sync"]>> \o Asks ELSE <<>>)
  /\ UNCHANGED cfg

Finish ==
  /\ turn = Turns /\ turn' = Turns + 1
  /\ PrintT("SCRIPT " \o ToJson([K |-> W.K, cfg |-> cfg, txs |-> W.T, blks |-> W.B, steps |-> script]))
  /\ UNCHANGED <<W, tip, pool, script, cfg>>

Next == Setup \/ Turn \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
