----------------------------- MODULE ServiceSpec -----------------------------
(* Service.tla as a state machine: what the program may do between the node   *)
(* and its clients.  Refined by Indexer.tla.                                  *)
EXTENDS Service
CONSTANT Queries        \* names of requests that may be open at a time
VARIABLES
  W,          \* the world (see Ledger)
  tip, pool,  \* the node
  up,         \* the program is running
  pub,        \* the published version
  upd,        \* [on, list, miss, win]: the update under way
  open        \* for every request, the versions it may be answered from, with
              \* the number of confirmations asked for: [c, vs], or NotOpen
svars == <<W, tip, pool, up, pub, upd, open>>

NotOpen == [c |-> -1, vs |-> {}]
NoUpdate == [on |-> FALSE, list |-> <<>>, miss |-> {}, win |-> {}]

Init ==
  /\ up = FALSE /\ pub = NoPub /\ upd = NoUpdate /\ open = [q \in Queries |-> NotOpen]

(* The best chain never gets shorter. *)
NodeMoves(b, p) ==
  /\ b = tip \/ Height(W.B, b) > Height(W.B, tip)
  /\ tip' = b /\ pool' = p
  /\ upd' = [upd EXCEPT !.win = IF upd.on THEN @ \cup {b} ELSE @]
  /\ UNCHANGED <<W, up, pub, open>>

StartUp == ~up /\ up' = TRUE /\ pub' = NoPub /\ upd' = NoUpdate /\ UNCHANGED <<W, tip, pool, open>>

(* It may stop at any moment; nothing is answered until the next version.    *)
Stop == up /\ up' = FALSE /\ pub' = NoPub /\ upd' = NoUpdate /\ open' = [q \in Queries |-> NotOpen] /\ UNCHANGED <<W, tip, pool>>

List ==
  /\ up
  /\ upd' = [on |-> TRUE, list |-> pool, miss |-> {}, win |-> {tip}]
  /\ UNCHANGED <<W, tip, pool, up, pub, open>>

HandOut(t) ==
  /\ up /\ upd.on /\ t \in Range(upd.list)
  /\ upd' = [upd EXCEPT !.miss = IF t \in Range(pool) THEN @ ELSE @ \cup {t}, !.win = {tip}]
  /\ UNCHANGED <<W, tip, pool, up, pub, open>>

Publish ==
  /\ up /\ upd.on
  /\ pub' \in Publications(upd.win, upd.list, upd.miss)
  /\ upd' = NoUpdate
  /\ open' = [q \in Queries |-> IF open[q] = NotOpen THEN NotOpen ELSE [open[q] EXCEPT !.vs = @ \cup {pub'}]]
  /\ UNCHANGED <<W, tip, pool, up>>

Ask(q, c) ==
  /\ up /\ pub # NoPub /\ open[q] = NotOpen
  /\ open' = [open EXCEPT ![q] = [c |-> c, vs |-> {pub}]]
  /\ UNCHANGED <<W, tip, pool, up, pub, upd>>

Reply(q) ==
  /\ open[q] # NotOpen
  /\ open' = [open EXCEPT ![q] = NotOpen]
  /\ UNCHANGED <<W, tip, pool, up, pub, upd>>

Next ==
  \/ \E b \in DOMAIN W.B : NodeMoves(b, pool')
  \/ StartUp \/ Stop \/ List \/ Publish
  \/ \E t \in DOMAIN W.T : HandOut(t)
  \/ \E q \in Queries, c \in 0 .. W.K : Ask(q, c)
  \/ \E q \in Queries : Reply(q)

Spec == Init /\ [][Next]_svars
==============================================================================
