-------------------------------- MODULE Build --------------------------------
(* How the initial index is made: block files are scanned by several threads, *)
(* the longest chain is picked, its blocks are cut into batches, every batch   *)
(* is reduced by some thread to what it spends and what it leaves, and the     *)
(* reductions are merged in order.  Any thread may come upon something it      *)
(* cannot read, and ends.                                                      *)
(* Checked: whatever the order, the result is Indexer!Built, the replay of     *)
(* the longest chain without its last K-1 blocks; and it is not finished when  *)
(* something could not be read.                                                *)
EXTENDS Ledger, TLC
CONSTANTS Threads, BatchSizes, Ks, Layouts, BadChoices

VARIABLES K, batch, layout, bad,    \* chosen at the beginning; bad: file <<"f", i>> or block <<"b", b>> cannot be read, block <<"m", b>> spends what is not there, or <<>>
          phase,                    \* scan, pick, reduce, done, failed
          files,                    \* files not taken yet
          scan,                     \* thread -> [f, i]: file being scanned, blocks seen; f = 0: none
          found,                    \* blocks in the order of their discovery
          chain, next,              \* the chain, the first batch not taken
          work,                     \* thread -> [n, i, r]: batch, blocks done, reduction; n = 0: none
          outs,                     \* reductions that arrived: set of <<n, r>>
          merged, u,                \* batches merged, the index
          dead                      \* threads that ended with a failure
bvars == <<K, batch, layout, bad, phase, files, scan, found, chain, next, work, outs, merged, u, dead>>

(* 1 - 2 - 3 - 4 - 6   the longest; 5 is a stale sibling of 4 (same height), 7 a stale child of 2. *)
S(a) == <<25, 118, 169, 20, 136, 172, a, 0>>
Cb(a) == [cb |-> TRUE, ins |-> <<>>, outs |-> <<[s |-> S(a), v |-> <<50, 0>>]>>]
Tx(ins, n) == [cb |-> FALSE, ins |-> ins, outs |-> [i \in 1 .. n |-> [s |-> S(i), v |-> <<i, 1>>]]]
(* 8 spends 1:0; 9 spends 8:0 in the same block; 10 spends 8:1 two blocks later; 11, in the stale block, spends 1:0; 12 spends 9:0 *)
T == <<Cb(1), Cb(2), Cb(1), Cb(2), Cb(1), Cb(2), Cb(1), Tx(<<<<1, 0>>>>, 2), Tx(<<<<8, 0>>>>, 1), Tx(<<<<8, 1>>>>, 1), Tx(<<<<1, 0>>>>, 2), Tx(<<<<9, 0>>>>, 1)>>
Blk(p, h, ts) == [p |-> p, h |-> h, txs |-> ts]
B == <<Blk(0, 0, <<1>>), Blk(1, 1, <<2, 8, 9>>), Blk(2, 2, <<3>>), Blk(3, 3, <<4, 10, 12>>), Blk(3, 3, <<5>>), Blk(4, 4, <<6>>), Blk(2, 2, <<7>>)>>
U == ChainUtxo(T, B)

Idle == [f |-> 0, i |-> 0]
NoWork == [n |-> 0, i |-> 0, r |-> [spent |-> {}, made |-> {}]]
Init ==
  /\ K \in Ks /\ batch \in BatchSizes /\ layout \in Layouts /\ bad \in BadChoices
  /\ phase = "scan" /\ files = DOMAIN layout /\ scan = [t \in Threads |-> Idle] /\ found = <<>>
  /\ chain = <<>> /\ next = 1 /\ work = [t \in Threads |-> NoWork] /\ outs = {} /\ merged = 0 /\ u = {} /\ dead = {}

fixed == <<K, batch, layout, bad>>
TakeFile(t) ==
  /\ phase = "scan" /\ t \notin dead /\ scan[t] = Idle /\ files # {}
  /\ LET f == Min(files) IN
       /\ files' = files \ {f}
       /\ IF bad = <<"f", f>> THEN dead' = dead \cup {t} /\ UNCHANGED scan
          ELSE scan' = [scan EXCEPT ![t] = [f |-> f, i |-> 1]] /\ UNCHANGED dead
  /\ UNCHANGED <<fixed, phase, found, chain, next, work, outs, merged, u>>
(* A scanned file is handed over as a whole. *)
FileDone(t) ==
  /\ phase = "scan" /\ scan[t] # Idle
  /\ found' = found \o layout[scan[t].f]
  /\ scan' = [scan EXCEPT ![t] = Idle]
  /\ UNCHANGED <<fixed, phase, files, chain, next, work, outs, merged, u, dead>>
Pick ==
  /\ phase = "scan" /\ \A t \in Threads : scan[t] = Idle
  /\ files = {} \/ dead = Threads
  /\ IF dead # {} THEN phase' = "failed" /\ UNCHANGED chain
     ELSE LET have == Range(found)
              linked == {b \in have : \A d \in 0 .. B[b].h : Anc(B, b, d) \in have}
              top == Max({B[b].h : b \in linked})
          IN \E e \in {b \in linked : B[b].h = top} :
               /\ chain' = [i \in 1 .. top + 2 - K |-> AtHeight(B, e, i - 1)]
               /\ phase' = "reduce"
  /\ UNCHANGED <<fixed, files, scan, found, next, work, outs, merged, u, dead>>

Batches == (Len(chain) + batch - 1) \div batch
InBatch(n) == SubSeq(chain, (n - 1) * batch + 1, IF n * batch < Len(chain) THEN n * batch ELSE Len(chain))
TakeBatch(t) ==
  /\ phase = "reduce" /\ t \notin dead /\ work[t].n = 0 /\ next <= Batches
  /\ work' = [work EXCEPT ![t] = [NoWork EXCEPT !.n = next]] /\ next' = next + 1
  /\ UNCHANGED <<fixed, phase, files, scan, found, chain, outs, merged, u, dead>>
(* Spending what the batch made itself leaves no trace of it. *)
Reduce(r, x) ==
  LET ins == Spends(T, x) own == ins \cap r.made
  IN [r EXCEPT !.spent = @ \cup (ins \ own), !.made = (@ \ own) \cup Creates(T, x)]
ReduceBlock(t) ==
  /\ phase = "reduce" /\ t \notin dead /\ work[t].n > 0
  /\ LET bs == InBatch(work[t].n) IN
       IF work[t].i < Len(bs)
       THEN LET b == bs[work[t].i + 1] IN
            IF bad = <<"b", b>> THEN dead' = dead \cup {t} /\ UNCHANGED <<work, outs>>
            ELSE /\ work' = [work EXCEPT ![t].i = @ + 1,
                              ![t].r = FoldLeft(Reduce, IF bad = <<"m", b>> THEN [@ EXCEPT !.spent = @ \cup {<<0, 0>>}] ELSE @, B[b].txs)]
                 /\ UNCHANGED <<outs, dead>>
       ELSE /\ outs' = outs \cup {<<work[t].n, work[t].r>>}
            /\ work' = [work EXCEPT ![t] = NoWork]
            /\ UNCHANGED dead
  /\ UNCHANGED <<fixed, phase, files, scan, found, chain, next, merged, u>>
Merge ==
  /\ phase = "reduce"
  /\ \E o \in outs :
       /\ o[1] = merged + 1
       /\ merged' = merged + 1
       /\ u' = (u \ o[2].spent) \cup o[2].made
       /\ phase' = IF o[2].spent \subseteq u THEN phase ELSE "failed"
  /\ UNCHANGED <<fixed, files, scan, found, chain, next, work, outs, dead>>
Finish ==
  /\ phase = "reduce"
  /\ \/ merged = Batches /\ dead = {} /\ phase' = "done"
     \/ dead # {} /\ (dead = Threads \/ next > Batches) /\ (\A t \in Threads \ dead : work[t].n = 0) /\ phase' = "failed"
  /\ UNCHANGED <<fixed, files, scan, found, chain, next, work, outs, merged, u, dead>>

Step == \/ \E t \in Threads : TakeFile(t) \/ FileDone(t) \/ TakeBatch(t) \/ ReduceBlock(t)
        \/ Pick \/ Merge \/ Finish
Spec == Init /\ [][Step]_bvars /\ WF_bvars(Step)

(* Chosen so that the two tips of equal height are within the margin. *)
Used == {AtHeight(B, 6, h) : h \in 0 .. 5 - K}
BadMatters == bad # <<>> /\ (bad[1] = "f" \/ bad[2] \in Used)
Right == phase = "done" => u = U[Anc(B, 6, K - 1)] /\ Len(chain) = 6 - K
NeverPassedOff == phase = "done" => ~BadMatters
Ends == <>(phase \in {"done", "failed"})
FailsOnlyIfBad == phase = "failed" => BadMatters
==============================================================================
