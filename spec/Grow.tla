-------------------------------- MODULE Grow --------------------------------
(* Random growth of a world: transactions, blocks, branches.  For scenario    *)
(* generation with TLC's simulator only (RandomElement); operators that roll  *)
(* dice take a parameter so that TLC does not evaluate them once and for all. *)
EXTENDS Ledger, TLC, Randomization

CONSTANTS Addrs,      \* payload ids 1..Addrs
          Rich,       \* use all script kinds (otherwise the two address kinds mostly)
          Wide        \* amounts from the whole range

KindSeq == IF Rich
  THEN <<"pkh", "pkh", "sh", "sh", "wpkh", "wsh", "tr", "pk", "ms", "ret", "ret0", "ret25", "ret23", "empty", "pkh_long",
         "pkh_short", "sh_long", "sh_short", "pkh_b0", "pkh_b1", "pkh_b2", "pkh_b23", "pkh_b24", "sh_b0", "sh_b1", "sh_b22", "len25", "len23">>
  ELSE <<"pkh", "pkh", "pkh", "pkh", "sh", "sh", "sh", "wpkh", "ret", "pk">>
Sats == <<0, 1, 2, 99999999, 50000000, 12345678, 7, 10000000>>
Pick(s) == s[RandomElement(DOMAIN s)]
Chance(n) == RandomElement(1 .. 100) <= n

(* Only what Ledger asks of a script; the recorded facts come from the bytes. *)
Facts(k, a) ==
  CASE k = "pkh" -> <<25, 118, 169, 20, 136, 172, a, 0>>
    [] k = "sh" -> <<23, 169, 20, -1, -1, 135, 0, a>>
    [] k \in {"ret", "ret0", "ret25", "ret23"} -> <<1, 106, -1, -1, -1, -1, 0, 0>>
    [] OTHER -> <<0, 0, 0, 0, 0, 0, 0, 0>>
Out(k, a, v) == [k |-> k, a |-> a, v |-> v, s |-> Facts(k, a)]
RandAmount(x) ==
  IF ~Wide THEN <<IF Chance(90) THEN RandomElement(0 .. 99) ELSE RandomElement(0 .. 500000), Pick(Sats)>>
  ELSE LET d == RandomElement(1 .. 100)
           lo == IF Chance(50) THEN RandomElement(0 .. COIN - 1) ELSE Pick(Sats)
       IN CASE d <= 20 -> <<0, lo>>
            [] d <= 60 -> <<RandomElement(0 .. 20), lo>>
            [] d <= 90 -> <<RandomElement(0 .. 99999), lo>>
            [] d <= 98 -> <<RandomElement(0 .. 2099999), lo>>
            [] OTHER -> <<Pick(<<20999999, 20999999, 16777216, 10485760, 21000000>>), IF Chance(50) THEN lo ELSE 0>>
RandOut(x) == LET k == Pick(KindSeq) a == RandomElement(1 .. Addrs) IN Out(k, a, RandAmount(x))
(* Built element by element: TLC may evaluate a function constructor again for every application. *)
RandOuts(n) == TLCEval(FoldLeft(LAMBDA a, i : Append(a, TLCEval(RandOut(i))), <<>>, SubSeq(<<1, 2, 3, 4>>, 1, n)))

(* Transactions are appended to the world; the new one is the last. *)
WithCoinbase(w) == [w EXCEPT !.T = Append(@, [cb |-> TRUE, ins |-> <<>>, outs |-> RandOuts(RandomElement(1 .. 2))])]
WithTx(w, avail) ==
  LET n == RandomElement(1 .. (IF Cardinality(avail) < 3 THEN Cardinality(avail) ELSE 3))
      ins == TLCEval(SetToSeq(RandomSubset(n, avail)))
  IN [w EXCEPT !.T = Append(@, [cb |-> FALSE, ins |-> ins, outs |-> RandOuts(RandomElement(1 .. 3))])]

(* A block on top of parent from some of the given transactions and fresh ones. *)
RECURSIVE Fresh(_, _, _, _)
Fresh(w, u, ts, n) ==      \* n fresh transactions on top of unspent u -> [w, u, ts]
  IF n = 0 \/ u = {} THEN [w |-> w, u |-> u, ts |-> ts]
  ELSE LET w2 == WithTx(w, u) t == Len(w2.T)
       IN Fresh(w2, ApplyTx(w2.T, u, t), Append(ts, t), n - 1)
WithBlock(w, parent, cand, keep, fresh) ==
  LET w1 == WithCoinbase(w)
      cb == Len(w1.T)
      u0 == ApplyTx(w1.T, IF parent = 0 THEN {} ELSE w1.U[parent], cb)
      sel == FoldLeft(LAMBDA a, t : IF Chance(keep) /\ Admissible(w1.T, a.u, t)
                                    THEN [u |-> ApplyTx(w1.T, a.u, t), ts |-> Append(a.ts, t)] ELSE a,
                      [u |-> u0, ts |-> <<cb>>], cand)
      f == Fresh(w1, sel.u, sel.ts, RandomElement(0 .. fresh))
  IN [f.w EXCEPT !.B = Append(@, [p |-> parent, h |-> Height(w.B, parent) + 1, txs |-> f.ts]), !.U = Append(@, f.u)]

RECURSIVE Branch(_, _, _, _)
Branch(w, parent, cand, n) ==     \* n blocks on top of parent; the new tip is the last block of the result
  IF n = 0 THEN w
  ELSE LET w2 == WithBlock(w, parent, cand, 60, 2) IN Branch(w2, Len(w2.B), cand, n - 1)

RECURSIVE Meet(_, _, _)
Meet(B, a, b) ==                  \* the last common block
  IF a = b THEN a
  ELSE IF Height(B, a) > Height(B, b) THEN Meet(B, B[a].p, b)
  ELSE IF Height(B, b) > Height(B, a) THEN Meet(B, a, B[b].p)
  ELSE Meet(B, B[a].p, B[b].p)

RECURSIVE Dropped(_, _, _)
Dropped(w, from, down) ==         \* the transactions of the blocks after down, up to from
  IF from = down THEN <<>>
  ELSE Dropped(w, w.B[from].p, down) \o SelectSeq(w.B[from].txs, LAMBDA t : ~w.T[t].cb)

(* What a node keeps in its memory pool when its tip moves. *)
Readmit(w, tip, ts) ==
  FoldLeft(LAMBDA a, t : IF t \notin Range(a.m) /\ Admissible(w.T, a.u, t)
                         THEN [u |-> ApplyTx(w.T, a.u, t), m |-> Append(a.m, t)] ELSE a,
           [u |-> w.U[tip], m |-> <<>>], ts).m
PoolAfter(w, old, new, m) == Readmit(w, new, Dropped(w, old, Meet(w.B, old, new)) \o m)

Shuffle(s) ==                     \* the same elements in another order
  FoldLeft(LAMBDA a, x : LET i == RandomElement(0 .. Len(a)) IN SubSeq(a, 1, i) \o <<x>> \o SubSeq(a, i + 1, Len(a)), <<>>, s)
============================================================================
