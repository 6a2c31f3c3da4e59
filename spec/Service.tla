------------------------------ MODULE Service ------------------------------
(* The service as its users see it: a node with a best chain and a memory    *)
(* pool on one side, answers to address queries on the other.  In between    *)
(* there is only "the published version": a chain tip and a list of          *)
(* unconfirmed transactions.                                                 *)
(*                                                                           *)
(* Indexer.tla (the design of the program) is checked to refine this module; *)
(* ServiceTrace.tla steps recorded executions of the program through it.     *)
EXTENDS Ledger

NoPub == [b |-> 0, m |-> <<>>]

(* What an update may publish.  list: the memory pool the node listed at the *)
(* start of the update; miss: the listed transactions it then would not hand *)
(* out; win: the tips the node has had since its last answer about the       *)
(* memory pool.  A tip the node had before it denied a transaction is too    *)
(* old: the transaction may have been mined on top of it, and would be seen  *)
(* neither as unconfirmed nor as confirmed.                                  *)
Publications(win, list, miss) ==
  {[b |-> b, m |-> SelectSeq(list, LAMBDA t : t \notin miss)] : b \in win}

(* Number of blocks that version p makes final: all but the last K - 1. *)
FinalCount(W, p) == IF p.b = 0 THEN 0 ELSE Height(W.B, p.b) + 2 - W.K
FinalBlock(W, p) == Anc(W.B, p.b, W.K - 1)

(* The answer to a query for c confirmations, for all addresses at once. *)
Answer(W, p, c) == View(W, p.b, p.m, c)

(* What is unspent in a view, address by address (for those of as). *)
Book(W, u, as) ==
  FoldSet(LAMBDA o, f : LET a == Owner(W, o) IN IF a \in DOMAIN f THEN [f EXCEPT ![a] = Append(@, o)] ELSE f, [a \in as |-> <<>>], u)

(* One answer r = <<address, content>> against the outpoints it is about. *)
(* (A sum of more coins than there can be need not be exact.) *)
Supply == 21000000
BalanceMatches(W, owned, r) ==
  LET sum == Total(W, Range(owned))
  IN r[2] = sum \/ sum[1] > Supply \/ (sum[1] = Supply /\ sum[2] > 0)
UtxosMatch(W, owned, r) ==
  LET got == {<<x[1], x[2]>> : x \in Range(r[2])}
  IN /\ Len(r[2]) = Cardinality(got)
     /\ got = Range(owned)
     /\ \A x \in Range(r[2]) : x[3] = Amount(W, <<x[1], x[2]>>)

(* A whole response (one entry per requested address, in order, repeats     *)
(* kept) must come from one version.                                        *)
ResponseMatches(W, p, kind, c, addrs, r) ==
  /\ p.b # 0
  /\ Len(r) = Len(addrs)
  /\ LET book == Book(W, Answer(W, p, c), Range(addrs))
     IN \A i \in DOMAIN addrs :
          /\ r[i][1] = addrs[i]
          /\ IF kind = "b" THEN BalanceMatches(W, book[addrs[i]], r[i]) ELSE UtxosMatch(W, book[addrs[i]], r[i])
============================================================================
