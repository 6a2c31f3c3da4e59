------------------------------ MODULE GenBuild ------------------------------
(* Block directories for the real program: a random tree of blocks, scattered *)
(* over files in any order, with stale branches, blocks without their parent, *)
(* repeated blocks, padding and files that are none of its business; possibly *)
(* one thing in it that cannot be read or makes no sense.                      *)
EXTENDS Grow, Json, IOUtils
CONSTANTS Ks, Bads, MaxExtra, MaxForks
VARIABLES script, over

(* An item of a file: block number, or <<what, ...>> for other bytes. *)
Insert(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))

RECURSIVE Forks(_, _, _, _)
Forks(w, k, tip, n) ==          \* n side branches that do not grow as high as the tip, or as high but only within the margin
  IF n = 0 THEN w
  ELSE LET top == w.B[tip].h
           from == RandomElement(DOMAIN w.B)
           h == w.B[from].h
           near == OnChain(w.B, from, tip) /\ h >= top - (k - 1)
           most == IF near THEN top - h ELSE top - 1 - h
       IN IF most <= 0 THEN Forks(w, k, tip, n - 1)
          ELSE Forks(Branch(w, from, <<>>, RandomElement(1 .. (IF most > 4 THEN 4 ELSE most))), k, tip, n - 1)

(* Blocks that lead on beyond the tip, but whose first one is in no file. *)
Unlinked(w, tip) ==
  LET w2 == Branch(w, RandomElement(DOMAIN w.B), <<>>, RandomElement(2 .. 12))
  IN [w |-> w2, first |-> Len(w.B) + 1]

Spread(bs, n) == FoldLeft(LAMBDA a, b : LET f == RandomElement(1 .. n) IN [a EXCEPT ![f] = Insert(@, RandomElement(0 .. Len(@)), b)],
                          [i \in 1 .. n |-> <<>>], bs)
InOrder(bs, n) == [i \in 1 .. n |-> SubSeq(bs, ((i - 1) * Len(bs)) \div n + 1, (i * Len(bs)) \div n)]

Names == <<"blk00000.dat", "blk00001.dat", "blk00002.dat", "blk00009.dat", "blk00010.dat", "blk00123.dat", "blk09999.dat", "blk10000.dat", "blk54321.dat", "blk99999.dat">>
Strange == <<"rev00000.dat", "blk0001.dat", "blk000001.dat", "blk00003.dat.bak", "xblk00004.dat", "blk00005.dat~", "BLK00006.DAT", "blk0000a.dat", "blk00007xdat", ".lock", "xor.dat", "nonutf8">>

(* A spend of something that is not there: never made, already spent, or of another branch. *)
Missing(w, tip) ==
  LET all == UNION {Creates(w.T, t) : t \in DOMAIN w.T}
      gone == all \ w.U[tip]
  IN IF gone = {} \/ Chance(30) THEN {<<1, 9>>} ELSE gone
BadBlock(w, tip) ==          \* a block on top of tip with such a spend
  LET w1 == WithCoinbase(w)
      w2 == WithTx(w1, Missing(w, tip))
      ts == <<Len(w1.T), Len(w2.T)>>
  IN [w2 EXCEPT !.B = Append(@, [p |-> tip, h |-> Height(w.B, tip) + 1, txs |-> ts]),
                !.U = Append(@, ApplyTxs(w2.T, w.U[tip], ts))]

Init == script = <<>> /\ over = FALSE
Next ==
  /\ ~over /\ over' = TRUE
  /\ \E k \in {RandomElement(Ks)}, extra \in {RandomElement(0 .. MaxExtra)}, bad \in {RandomElement(Bads)} :
     \E w0 \in {[T |-> <<>>, B |-> <<>>, U |-> <<>>, K |-> k]} :
     \E cut \in {IF bad = "missing" THEN RandomElement(1 .. extra + 1) ELSE k + extra} :
     \E w1 \in {Branch(w0, 0, <<>>, cut)} :
     \E w2 \in {IF bad = "missing" THEN LET x == BadBlock(w1, Len(w1.B)) IN Branch(x, Len(x.B), <<>>, k + extra - cut) ELSE w1} :
     \E tip \in {Len(w2.B)} :
     \E w3 \in {IF bad = "missing" THEN w2 ELSE Forks(w2, k, tip, RandomElement(0 .. MaxForks))} :
     \E un \in {IF Chance(40) THEN Unlinked(w3, tip) ELSE [w |-> w3, first |-> 0]} :
     \E w4 \in {un.w} :
     \E ahead \in {RandomElement(0 .. 2)} :
     \E w5 \in {Branch(w4, tip, <<>>, ahead)} :
     \E nodetip \in {IF ahead = 0 THEN tip ELSE Len(w5.B)} :
     \E w6 \in {IF w5.U[nodetip] = {} THEN w5 ELSE WithTx(w5, w5.U[nodetip])} :
     \E inside \in {{b \in 1 .. Len(w4.B) : b # un.first}} :
     \E order \in {LET s == [i \in 1 .. Len(w4.B) |-> i] IN SelectSeq(s, LAMBDA b : b \in inside)} :
     \E dups \in {IF Chance(35) THEN RandomSubset(RandomElement(0 .. (IF Cardinality(inside) < 3 THEN Cardinality(inside) ELSE 3)), inside) ELSE {}} :
     \E n \in {RandomElement(1 .. 4)} :
     \E parts \in {IF Chance(30) THEN InOrder(order, n) ELSE Spread(order \o SetToSeq(dups), n)} :
     \E target \in {RandomElement({b \in DOMAIN w4.B : OnChain(w4.B, b, tip) /\ w4.B[b].h <= w4.B[tip].h - (k - 1)})} :
     \E names \in {TLCEval(Shuffle(SetToSeq(RandomSubset(n + 1, Range(Names)))))} :
     \E odd \in {IF Chance(50) THEN SetToSeq(RandomSubset(RandomElement(1 .. 3), Range(Strange))) ELSE <<>>} :
       script' = [K |-> k, txs |-> w6.T, blks |-> w6.B, bad |-> bad, target |-> target,
                  cfg |-> [files |-> tip, threads |-> RandomElement(1 .. 4), batch |-> Pick(<<1, 2, 3, 5, 1000>>), collide |-> Chance(30), chunked |-> FALSE, salt |-> RandomElement(1 .. 1000000)],
                  files |-> [i \in 1 .. n |-> [name |-> names[i], items |-> parts[i], pad |-> IF Chance(40) THEN Pick(<<1, 7, 8, 80, 87, 88, 89, 200, 5000>>) ELSE 0]],
                  spare |-> names[n + 1],
                  odd |-> odd, oddblocks |-> Len(w5.B),
                  steps |-> <<[a |-> "node", tip |-> nodetip, pool |-> IF Len(w6.T) > Len(w5.T) THEN <<Len(w6.T)>> ELSE <<>>],
                              [a |-> "start"], [a |-> "sync"], [a |-> "views", kind |-> "mutxo"], [a |-> "sync"]>>]
  /\ PrintT("SCRIPT " \o ToJson(script'))
Spec == Init /\ [][Next]_<<script, over>>
=============================================================================
