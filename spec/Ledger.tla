------------------------------ MODULE Ledger ------------------------------
(* What a chain of blocks and a list of unconfirmed transactions mean for   *)
(* the holder of an address.  Everything else is stated in these terms.     *)
(*                                                                          *)
(* A world W is a record                                                    *)
(*   T : sequence of transactions [cb, ins, outs]; an input is the outpoint *)
(*       <<transaction, index>>; an output is [s, v] with the facts s of    *)
(*       its script and the amount v = <<coins, satoshis>>                  *)
(*   B : sequence of blocks [p, h, txs]; p = 0 for a first block; parents   *)
(*       come before their children                                         *)
(*   U : sequence of sets, U[b] = outpoints unspent after block b           *)
(*   K : the number of confirmations the service is configured with         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

COIN == 100000000

(* Facts of a script: <<length, byte 1, byte 2, byte 3, last but one, last,  *)
(* payload id of bytes 4..23 if 25 long, payload id of bytes 3..22 if 23>>.  *)
AddrOf(s) ==
  IF s[1] = 25 /\ s[2] = 118 /\ s[3] = 169 /\ s[4] = 20 /\ s[5] = 136 /\ s[6] = 172
  THEN <<0, s[7]>>                                 \* pay to public key hash
  ELSE IF s[1] = 23 /\ s[2] = 169 /\ s[3] = 20 /\ s[6] = 135
  THEN <<5, s[8]>>                                 \* pay to script hash
  ELSE <<>>                                        \* counted for nobody

(* OP_RETURN first: can never be spent, is never an output of the ledger. *)
Unspendable(s) == s[1] > 0 /\ s[2] = 106

Spends(T, t) == IF T[t].cb THEN {} ELSE Range(T[t].ins)
Creates(T, t) == {<<t, i - 1>> : i \in {j \in DOMAIN T[t].outs : ~Unspendable(T[t].outs[j].s)}}

ApplyTx(T, utxo, t) == (utxo \ Spends(T, t)) \cup Creates(T, t)
ApplyTxs(T, utxo, ts) == FoldLeft(LAMBDA u, t : ApplyTx(T, u, t), utxo, ts)

(* Unspent outpoints after each block, computed parent by parent. *)
ChainUtxo(T, B) ==
  FoldLeft(LAMBDA acc, b : Append(acc, ApplyTxs(T, IF b.p = 0 THEN {} ELSE acc[b.p], b.txs)), <<>>, B)

(* An unconfirmed transaction counts when all its inputs are unspent outputs *)
(* of the chain or of unconfirmed transactions that counted before it.       *)
Admissible(T, utxo, t) == ~T[t].cb /\ Spends(T, t) \subseteq utxo
MemFold(T, utxo, ts) ==
  FoldLeft(LAMBDA u, t : IF Admissible(T, u, t) THEN ApplyTx(T, u, t) ELSE u, utxo, ts)

RECURSIVE Anc(_, _, _)
Anc(B, b, d) == IF d = 0 \/ b = 0 THEN b ELSE Anc(B, B[b].p, d - 1)
Height(B, b) == IF b = 0 THEN -1 ELSE B[b].h
AtHeight(B, b, h) == Anc(B, b, Height(B, b) - h)   \* the ancestor of b at height h
OnChain(B, a, b) == a = 0 \/ (Height(B, a) <= Height(B, b) /\ AtHeight(B, b, Height(B, a)) = a)

(* The answer to "with c confirmations" for chain tip b and unconfirmed list *)
(* m: 0 includes the unconfirmed, 1 the tip, 2 its parent, ...               *)
View(W, b, m, c) ==
  IF c = 0 THEN MemFold(W.T, W.U[b], m)
  ELSE LET a == Anc(W.B, b, c - 1) IN IF a = 0 THEN {} ELSE W.U[a]

Owner(W, o) == AddrOf(W.T[o[1]].outs[o[2] + 1].s)
Amount(W, o) == W.T[o[1]].outs[o[2] + 1].v
Owned(W, utxo, a) == {o \in utxo : Owner(W, o) = a}

AddAmount(x, y) == LET lo == x[2] + y[2] IN <<x[1] + y[1] + lo \div COIN, lo % COIN>>
Total(W, S) == FoldSet(LAMBDA o, acc : AddAmount(acc, Amount(W, o)), <<0, 0>>, S)
===========================================================================
