-------------------------------- MODULE Locks --------------------------------
(* The program's three locks, with the queues they have: first come, first    *)
(* served, a reader behind a writer that waits.  Indexer.tla takes the locks  *)
(* as if they were granted when free and asks for strong fairness; here it    *)
(* follows from the queues that nobody waits for ever, nobody for the disk    *)
(* and no query for the node.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Queries,     \* clients
          MaxSignals,  \* the writer's queue
          SlowDisk,    \* a write of the store may never end
          SlowNode,    \* the node may never answer
          Exclusive    \* an update extends the store only if no write is running (the program before fcf150e: FALSE)
VARIABLES pc, L, ext, fin, signals
vars == <<pc, L, ext, fin, signals>>

Tasks == {"upd", "wr"} \cup Queries
Names == {"M", "A", "S"}          \* mutex of the write, overlays, store
Nobody == [rd |-> {}, wr |-> {}, q |-> <<>>]

Grantable(l, m) == l.wr = {} /\ (m = "w" => l.rd = {})
Given(l, t, m) == IF m = "w" THEN [l EXCEPT !.wr = {t}] ELSE [l EXCEPT !.rd = @ \cup {t}]
RECURSIVE Drain(_)
Drain(l) == IF l.q # <<>> /\ Grantable(l, l.q[1][2]) THEN Drain([Given(l, l.q[1][1], l.q[1][2]) EXCEPT !.q = Tail(@)]) ELSE l
Ask(l, t, m) == Drain([l EXCEPT !.q = Append(@, <<t, m>>)])
Release(l, t) == Drain([l EXCEPT !.rd = @ \ {t}, !.wr = @ \ {t}])
Owns(n, t) == t \in L[n].rd \cup L[n].wr
Free(n) == L[n].rd = {} /\ L[n].wr = {} /\ L[n].q = <<>>

Init == pc = [t \in Tasks |-> "idle"] /\ L = [n \in Names |-> Nobody] /\ ext = FALSE /\ fin = FALSE /\ signals = 0
Go(t, l) == pc' = [pc EXCEPT ![t] = l]

(* One update. *)
Begin ==
  /\ pc["upd"] = "idle" /\ Go("upd", "first")
  /\ ext' = Free("M")
  /\ L' = [L EXCEPT !["A"] = Ask(@, "upd", "r"), !["M"] = IF Free("M") THEN Ask(@, "upd", "w") ELSE @]
  /\ UNCHANGED <<fin, signals>>
First == /\ pc["upd"] = "first" /\ Owns("A", "upd") /\ Go("upd", "store")
         /\ L' = [L EXCEPT !["A"] = Release(@, "upd"), !["S"] = Ask(@, "upd", "r")] /\ UNCHANGED <<ext, fin, signals>>
Connect == pc["upd"] = "store" /\ Owns("S", "upd") /\ Go("upd", "node") /\ UNCHANGED <<L, ext, fin, signals>>
Node == /\ pc["upd"] = "node" /\ Go("upd", "apply")
        /\ fin' \in IF ext \/ ~Exclusive THEN BOOLEAN ELSE {FALSE}
        /\ L' = [L EXCEPT !["S"] = Release(@, "upd"), !["A"] = Ask(@, "upd", "w")] /\ UNCHANGED <<ext, signals>>
Apply == /\ pc["upd"] = "apply" /\ Owns("A", "upd")
         /\ IF fin THEN Go("upd", "extend") /\ L' = [L EXCEPT !["S"] = Ask(@, "upd", "w")]
            ELSE Go("upd", "idle") /\ L' = [L EXCEPT !["A"] = Release(@, "upd"), !["M"] = Release(@, "upd")]
         /\ UNCHANGED <<ext, fin, signals>>
Extend == /\ pc["upd"] = "extend" /\ Owns("S", "upd") /\ Go("upd", "send")
          /\ L' = [n \in Names |-> Release(L[n], "upd")] /\ UNCHANGED <<ext, fin, signals>>
Send == pc["upd"] = "send" /\ signals < MaxSignals /\ Go("upd", "idle") /\ signals' = signals + 1 /\ UNCHANGED <<L, ext, fin>>

(* One write. *)
Receive == /\ pc["wr"] = "idle" /\ signals > 0 /\ signals' = signals - 1 /\ Go("wr", "mutex")
           /\ L' = [L EXCEPT !["M"] = Ask(@, "wr", "w")] /\ UNCHANGED <<ext, fin>>
Locked == /\ pc["wr"] = "mutex" /\ Owns("M", "wr") /\ Go("wr", "store") /\ L' = [L EXCEPT !["S"] = Ask(@, "wr", "r")] /\ UNCHANGED <<ext, fin, signals>>
Write == pc["wr"] = "store" /\ Owns("S", "wr") /\ Go("wr", "disk") /\ UNCHANGED <<L, ext, fin, signals>>
Disk == /\ pc["wr"] = "disk" /\ Go("wr", "idle")
        /\ L' = [L EXCEPT !["S"] = Release(@, "wr"), !["M"] = Release(@, "wr")] /\ UNCHANGED <<ext, fin, signals>>

(* One query. *)
Query(q) == pc[q] = "idle" /\ Go(q, "augs") /\ L' = [L EXCEPT !["A"] = Ask(@, q, "r")] /\ UNCHANGED <<ext, fin, signals>>
Augs(q) == pc[q] = "augs" /\ Owns("A", q) /\ Go(q, "store") /\ L' = [L EXCEPT !["S"] = Ask(@, q, "r")] /\ UNCHANGED <<ext, fin, signals>>
Compute(q) == /\ pc[q] = "store" /\ Owns("S", q) /\ Go(q, "idle")
              /\ L' = [L EXCEPT !["S"] = Release(@, q), !["A"] = Release(@, q)] /\ UNCHANGED <<ext, fin, signals>>

Upd == Begin \/ First \/ Connect \/ Apply \/ Extend \/ Send
Wr == Receive \/ Locked \/ Write
Next == Upd \/ Node \/ Wr \/ Disk \/ \E q \in Queries : Query(q) \/ Augs(q) \/ Compute(q)
Spec == Init /\ [][Next]_vars /\ WF_vars(Upd) /\ WF_vars(Wr) /\ (SlowNode \/ WF_vars(Node)) /\ (SlowDisk \/ WF_vars(Disk))
             /\ \A q \in Queries : WF_vars(Augs(q) \/ Compute(q))
----------------------------------------------------------------------------
Sound == \A n \in Names : /\ Cardinality(L[n].wr) <= 1 /\ (L[n].wr = {} \/ L[n].rd = {})
                          /\ (L[n].q = <<>> \/ ~Grantable(L[n], L[n].q[1][2]))
(* Every query is answered, whatever the node and the disk do.               *)
Answered == \A q \in Queries : pc[q] # "idle" ~> pc[q] = "idle"
(* Updates are made for ever, whatever the disk does and however many ask.   *)
Updates == SlowNode \/ []<>(pc["upd"] = "idle")
(* Writes end when the disk answers, whatever the node does, once no update  *)
(* holds the mutex.                                                          *)
Writes == SlowNode \/ SlowDisk \/ (pc["wr"] # "idle" ~> pc["wr"] = "idle")
(* While a write goes on no update waits for it: the locks it needs are free *)
(* or held by queries.                                                       *)
Undisturbed == pc["upd"] \in {"apply", "extend"} => \A n \in {"A", "S"} : ~(pc["wr"] = "disk" /\ n = "S" /\ pc["upd"] = "extend" /\ Owns("S", "wr"))
=============================================================================
