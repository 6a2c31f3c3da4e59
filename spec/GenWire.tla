------------------------------- MODULE GenWire -------------------------------
(* Histories whose transactions have unusual shapes: numbers of inputs,       *)
(* outputs and witness items and lengths of scripts around the limits of the  *)
(* compact sizes.  The first blocks are in files, others come from the node,  *)
(* the last transactions stay unconfirmed.                                    *)
EXTENDS Grow, Json
CONSTANTS Ks, Shapes      \* number of transactions with unusual shapes
VARIABLES script, over

Ins == <<1, 1, 1, 2, 2, 3, 7, 252, 253, 254, 256, 300>>
OutCounts == <<1, 1, 1, 2, 2, 3, 251, 252, 253, 254, 300>>
Lengths == <<0, 1, 2, 25, 75, 76, 127, 128, 251, 252, 253, 254, 255, 256, 257, 511, 512, 520>>
Long == <<10000, 32767, 32768, 65534, 65535, 65536, 65537, 100000>>
LenKind(n) == "len" \o ToString(n)
Scripts(x) == LET d == RandomElement(1 .. 100) IN
  IF d <= 50 THEN Pick(KindSeq) ELSE IF d <= 90 THEN LenKind(Pick(Lengths)) ELSE LenKind(Pick(Long))
Output(x) == LET k == Scripts(x) IN Out(k, RandomElement(1 .. Addrs), RandAmount(x))
Plain(x) == Out(Pick(<<"pkh", "sh", "wpkh">>), RandomElement(1 .. Addrs), RandAmount(x))
Outs(n) == TLCEval(FoldLeft(LAMBDA a, i : Append(a, TLCEval(IF n > 10 /\ i > 2 THEN Plain(i) ELSE Output(i))), <<>>, [i \in 1 .. n |-> i]))

(* Witness: <<>> none at all, otherwise item lengths for each input; few are long when there are many. *)
ItemLengths(n) == TLCEval(FoldLeft(LAMBDA a, i : Append(a, TLCEval(IF Chance(96) \/ n > 4 THEN Pick(Lengths) ELSE Pick(Long))), <<>>, [i \in 1 .. n |-> i]))
Items(x, nin) == IF nin > 10 THEN Pick(<<0, 1, 1, 2>>) ELSE Pick(<<0, 0, 1, 1, 2, 2, 2, 3, 5, 252, 253, 300>>)
Witness(nin) == TLCEval(FoldLeft(LAMBDA a, i : Append(a, TLCEval(ItemLengths(Items(i, nin)))), <<>>, [i \in 1 .. nin |-> i]))
Sigs(nin) == TLCEval(FoldLeft(LAMBDA a, i : Append(a, TLCEval(IF nin > 10 THEN Pick(<<0, 1, 107>>) ELSE IF Chance(92) THEN Pick(Lengths) ELSE Pick(Long))), <<>>, [i \in 1 .. nin |-> i]))
Words == <<<<0, 0>>, <<0, 1>>, <<0, 2>>, <<32767, 65535>>, <<65535, 65535>>, <<32768, 0>>, <<0, 65535>>, <<1, 0>>, <<65535, 65533>>>>
Opt(nin, segwit) == [sigs |-> Sigs(nin), version |-> Pick(Words), sequence |-> Pick(Words), lock |-> Pick(Words), segwit |-> segwit, wits |-> IF segwit THEN Witness(nin) ELSE <<>>]

Coinbase(w, n) == [w EXCEPT !.T = Append(@, [cb |-> TRUE, ins |-> <<>>, outs |-> Outs(n), opt |-> Opt(1, Chance(60))])]
Shaped(w, avail, most) ==
  LET want == Pick(Ins)
      n == IF want > Cardinality(avail) THEN Cardinality(avail) ELSE IF want > most THEN most ELSE want
  IN [w EXCEPT !.T = Append(@, [cb |-> FALSE, ins |-> TLCEval(SetToSeq(RandomSubset(n, avail))), outs |-> Outs(IF most < 10 THEN RandomElement(1 .. 2) ELSE Pick(OutCounts)), opt |-> Opt(n, Chance(60))])]

RECURSIVE Many(_, _, _, _, _)
Many(w, u, ts, n, most) == IF n = 0 \/ u = {} THEN [w |-> w, u |-> u, ts |-> ts]
                     ELSE LET w2 == Shaped(w, u, most) t == Len(w2.T) IN Many(w2, ApplyTx(w2.T, u, t), Append(ts, t), n - 1, most)
(* A block on top of the last one with n such transactions. *)
Block(w, cbouts, n, most) ==
  LET top == Len(w.B)
      w1 == Coinbase(w, cbouts)
      cb == Len(w1.T)
      m == Many(w1, ApplyTx(w1.T, IF top = 0 THEN {} ELSE w1.U[top], cb), <<cb>>, n, most)
  IN [m.w EXCEPT !.B = Append(@, [p |-> top, h |-> top, txs |-> m.ts]), !.U = Append(@, m.u)]
RECURSIVE Blocks(_, _)
Blocks(w, n) == IF n = 0 THEN w ELSE Blocks(Block(w, Pick(<<1, 1, 2, 3>>), RandomElement(0 .. 3), 1000), n - 1)

Init == script = <<>> /\ over = FALSE
Next ==
  /\ ~over /\ over' = TRUE
  /\ \E k \in {RandomElement(Ks)} :
     \E w1 \in {Block([T |-> <<>>, B |-> <<>>, U |-> <<>>, K |-> k], 1, 0, 0)} :
     \E w2 \in {Block(w1, Pick(<<300, 600>>), 0, 0)} :
     \E w3 \in {Blocks(w2, RandomElement(1 .. Shapes))} :
     (* sometimes a block of more transactions than one byte can count, then and otherwise some more blocks *)
     \E w4 \in {IF Chance(15) THEN Block(w3, 1, Pick(<<251, 252, 253, 260>>), 2) ELSE w3} :
     \E w5 \in {Blocks(w4, k + RandomElement(0 .. 2))} :
     \E filetip \in {IF Len(w5.B) <= k THEN Len(w5.B) ELSE RandomElement(k .. Len(w5.B))} :
     \E w6 \in {Blocks(w5, RandomElement(1 .. Shapes))} :
     \E tip \in {Len(w6.B)} :
     \E m \in {Many(w6, w6.U[tip], <<>>, RandomElement(1 .. Shapes), 1000)} :
     \E w7 \in {m.w} :
     \E pools \in {[i \in 1 .. 2 |-> IF i = 1 THEN SubSeq(m.ts, 1, RandomElement(0 .. Len(m.ts))) ELSE m.ts]} :
     \E w8 \in {[w7 EXCEPT !.B = Append(@, [p |-> tip, h |-> w7.B[tip].h + 1, txs |-> <<Len(w7.T) + 1>> \o m.ts]), !.T = Append(@, [cb |-> TRUE, ins |-> <<>>, outs |-> Outs(1), opt |-> Opt(1, TRUE)])]} :
     \E first \in {RandomElement(filetip .. tip)} :
       script' = [K |-> k, txs |-> w8.T, blks |-> w8.B,
                  cfg |-> [files |-> filetip, threads |-> RandomElement(1 .. 4), batch |-> Pick(<<1, 2, 3, 1000>>), collide |-> Chance(30), chunked |-> Chance(50), salt |-> RandomElement(1 .. 1000000)],
                  steps |-> <<[a |-> "node", tip |-> first, pool |-> <<>>], [a |-> "start"], [a |-> "sync"], [a |-> "views", kind |-> "mutxo"],
                              [a |-> "node", tip |-> tip, pool |-> pools[1]], [a |-> "sync"], [a |-> "sync"], [a |-> "views", kind |-> "mutxo"],
                              [a |-> "node", tip |-> tip, pool |-> pools[2]], [a |-> "sync"], [a |-> "sync"], [a |-> "views", kind |-> "mutxo"], [a |-> "views", kind |-> "mbal"],
                              [a |-> "node", tip |-> Len(w8.B), pool |-> <<>>], [a |-> "sync"], [a |-> "sync"], [a |-> "views", kind |-> "mutxo"]>>]
  /\ PrintT("SCRIPT " \o ToJson(script'))
Spec == Init /\ [][Next]_<<script, over>>
=============================================================================
