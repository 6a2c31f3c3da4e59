------------------------------- MODULE Indexer -------------------------------
(* The program as it is built: an updater that talks to the node request by   *)
(* request, a permanent store and one overlay per recent block and for the    *)
(* memory pool, a writer that saves the store, and queries, with the locks    *)
(* between them; killed and restarted at any point.                           *)
EXTENDS Service
CONSTANTS Queries,      \* requests that may be open at a time
          MaxSignals    \* bound on the writer's queue (256 in the program)

VARIABLES
  W, tip, pool,      \* the world, the node
  pc,                \* updater: off, sleep, mp, tx, bh, gb, apply, extend (extend0 in the first update), dead
  store,             \* [n, last, u]: number of blocks, last block, unspent outpoints
  tail,              \* recent blocks
  mem,               \* [list, txs]: listed transactions, those obtained
  todo,              \* listed transactions still to be asked for
  nextb,             \* block whose body is asked for next
  updated,           \* the running update has seen a block
  mayExtend,         \* the running update holds the mutex: it may extend the store
  mutex,             \* free, upd, wr
  augs,              \* overlays [spent, made], the last one with the memory pool
  pub,               \* ghost: the published version
  upd,               \* ghost: as in ServiceSpec
  signals,           \* write requests not yet taken
  wpc, wbuf,         \* writer: idle, copy, part, full, synced; what it is saving
  disk, tmp,         \* the store file and the file written aside: none, or [ok, s]
  qs                 \* requests: [st, c, r, vs]: stage, confirmations, answer, ghost: versions published while it is open

uvars == <<pc, store, tail, mem, todo, nextb, updated, mayExtend, augs>>
nvars == <<W, tip, pool>>
dvars == <<wpc, wbuf, disk, tmp>>
vars == <<W, tip, pool, pc, store, tail, mem, todo, nextb, updated, mayExtend, mutex, augs, pub, upd, signals, wpc, wbuf, disk, tmp, qs>>

None == [ok |-> FALSE, s |-> [n |-> 0, last |-> 0, u |-> {}]]
IdleQ == [st |-> "idle", c |-> 0, r |-> {}, vs |-> {}]
NotUpd == [on |-> FALSE, list |-> <<>>, miss |-> {}, win |-> {}]
NoStore == [n |-> 0, last |-> 0, u |-> {}]
NoMem == [list |-> <<>>, txs |-> {}]

----------------------------------------------------------------------------
(* Overlays.  An overlay over a store records what it takes from the store   *)
(* and what it adds.                                                         *)
Bare == [spent |-> {}, made |-> {}]
Has(base, o, x) == x \in o.made \/ (x \notin o.spent /\ x \in base)
OverTx(base, o, t) ==
  LET ins == Spends(W.T, t)
      own == ins \cap o.made
  IN [spent |-> o.spent \cup ((ins \ own) \cap base), made |-> (o.made \ own) \cup Creates(W.T, t)]
OverTxs(base, o, ts) == FoldLeft(LAMBDA a, t : OverTx(base, a, t), o, ts)
OverMem(base, o, ts) ==
  FoldLeft(LAMBDA a, t : IF ~W.T[t].cb /\ \A x \in Spends(W.T, t) : Has(base, a, x) THEN OverTx(base, a, t) ELSE a, o, ts)
Under(base, o) == (base \ o.spent) \cup o.made

Obtained(m) == SelectSeq(m.list, LAMBDA t : t \in m.txs)

(* Overlay i of the recent blocks bs (i = Len(bs)+1: with the memory pool).  *)
Overlay(base, bs, m, i) ==
  LET blocks == FoldLeft(LAMBDA a, b : OverTxs(base, a, W.B[b].txs), Bare, SubSeq(bs, 1, IF i > Len(bs) THEN Len(bs) ELSE i))
  IN IF i > Len(bs) THEN OverMem(base, blocks, Obtained(m)) ELSE blocks
Overlays(base, bs, m) == [i \in 1 .. Len(bs) + 1 |-> Overlay(base, bs, m, i)]

Extended(st, bs) ==
  [n |-> st.n + Len(bs), last |-> IF bs = <<>> THEN st.last ELSE bs[Len(bs)],
   u |-> FoldLeft(LAMBDA u, b : ApplyTxs(W.T, u, W.B[b].txs), st.u, bs)]

(* What a query with c confirmations sees.                                   *)
Seen(c) == IF c = Len(augs) THEN store.u ELSE Under(store.u, augs[Len(augs) - c])

----------------------------------------------------------------------------
(* The index built from block files whose longest chain ends at block b.     *)
Built(b) == LET a == Anc(W.B, b, W.K - 1) IN [n |-> W.B[a].h + 1, last |-> a, u |-> W.U[a]]

Boot ==
  /\ pc' = "off" /\ store' = NoStore /\ tail' = <<>> /\ mem' = NoMem /\ todo' = <<>> /\ nextb' = 0
  /\ updated' = FALSE /\ mayExtend' = FALSE /\ mutex' = "free" /\ augs' = <<>> /\ pub' = NoPub /\ upd' = NotUpd
  /\ signals' = 0 /\ wpc' = "idle" /\ wbuf' = None /\ qs' = [q \in Queries |-> IdleQ]

InitIdx ==
  /\ pc = "off" /\ store = NoStore /\ tail = <<>> /\ mem = NoMem /\ todo = <<>> /\ nextb = 0
  /\ updated = FALSE /\ mayExtend = FALSE /\ mutex = "free" /\ augs = <<>> /\ pub = NoPub /\ upd = NotUpd
  /\ signals = 0 /\ wpc = "idle" /\ wbuf = None /\ disk = None /\ tmp = None /\ qs = [q \in Queries |-> IdleQ]

(* Start with the stored index, or build one from files and store it. *)
Start(files) ==
  /\ pc = "off"
  /\ IF disk.ok THEN store' = disk.s /\ UNCHANGED disk
     ELSE store' = Built(files) /\ disk' = [ok |-> TRUE, s |-> Built(files)]
  /\ pc' = "sleep"
  /\ UNCHANGED <<nvars, tail, mem, todo, nextb, updated, mayExtend, mutex, augs, pub, upd, signals, wpc, wbuf, tmp, qs>>

Stop == pc # "off" /\ Boot /\ UNCHANGED <<nvars, disk, tmp>>

----------------------------------------------------------------------------
(* The updater.  *)
UpdBegin ==
  /\ pc = "sleep" /\ signals < MaxSignals
  /\ pc' = "mp" /\ updated' = FALSE
  /\ mayExtend' = (mutex = "free")
  /\ mutex' = IF mutex = "free" THEN "upd" ELSE mutex
  /\ UNCHANGED <<nvars, store, tail, mem, todo, nextb, augs, pub, upd, signals, dvars, qs>>

ReplyMempool ==
  /\ pc = "mp"
  /\ mem' = [list |-> pool, txs |-> mem.txs \cap Range(pool)]
  /\ todo' = SelectSeq(pool, LAMBDA t : t \notin mem.txs)
  /\ pc' = IF todo' = <<>> THEN "bh" ELSE "tx"
  /\ upd' = [on |-> TRUE, list |-> pool, miss |-> {}, win |-> {tip}]
  /\ UNCHANGED <<nvars, store, tail, nextb, updated, mayExtend, mutex, augs, pub, signals, dvars, qs>>

ReplyTransaction ==
  /\ pc = "tx"
  /\ LET t == Head(todo) IN
       /\ mem' = IF t \in Range(pool) THEN [mem EXCEPT !.txs = @ \cup {t}] ELSE mem
       /\ upd' = [upd EXCEPT !.miss = IF t \in Range(pool) THEN @ ELSE @ \cup {t}, !.win = {tip}]
  /\ todo' = Tail(todo)
  /\ pc' = IF Tail(todo) = <<>> THEN "bh" ELSE "tx"
  /\ UNCHANGED <<nvars, store, tail, nextb, updated, mayExtend, mutex, augs, pub, signals, dvars, qs>>

NextHeight == store.n + Len(tail)
LastBlock == IF tail = <<>> THEN store.last ELSE tail[Len(tail)]

ReplyBlockHash ==
  /\ pc = "bh"
  /\ IF NextHeight <= Height(W.B, tip)
     THEN nextb' = AtHeight(W.B, tip, NextHeight) /\ pc' = "gb"
     ELSE nextb' = 0 /\ pc' = "apply"
  /\ UNCHANGED <<nvars, store, tail, mem, todo, updated, mayExtend, mutex, augs, pub, upd, signals, dvars, qs>>

Unheld == IF mayExtend THEN "free" ELSE mutex       \* the mutex when an update ends
ReplyBlock ==
  /\ pc = "gb"
  /\ updated' = TRUE /\ nextb' = 0
  /\ IF W.B[nextb].p = LastBlock THEN tail' = Append(tail, nextb) /\ pc' = "bh"
     ELSE IF tail # <<>> THEN tail' = SubSeq(tail, 1, Len(tail) - 1) /\ pc' = "bh"
     ELSE tail' = tail /\ pc' = "dead"        \* the node dropped a final block
  /\ mutex' = IF pc' = "dead" THEN Unheld ELSE mutex
  /\ UNCHANGED <<nvars, store, mem, todo, mayExtend, augs, pub, upd, signals, dvars, qs>>

(* A reply that is none, or cannot be believed: the updater panics, its locks *)
(* are released; queries are answered and a write goes on until the process   *)
(* ends.                                                                      *)
Fault ==
  /\ pc \in {"mp", "tx", "bh", "gb"}
  /\ pc' = "dead" /\ mutex' = Unheld
  /\ UNCHANGED <<nvars, store, tail, mem, todo, nextb, updated, mayExtend, augs, pub, upd, signals, dvars, qs>>
Die == pc = "dead" /\ Boot /\ UNCHANGED <<nvars, disk, tmp>>

Readers == \E q \in Queries : qs[q].st \in {"augs", "both"}   \* someone reads the overlays
Full == updated \/ augs = <<>>

(* Overlays are replaced under their write lock; when blocks become final    *)
(* the lock is kept until the store is extended.                             *)
Excess == IF mayExtend /\ Len(tail) > W.K - 1 THEN Len(tail) - (W.K - 1) ELSE 0
Apply ==
  /\ pc = "apply" /\ ~Readers
  /\ IF Full
     THEN LET gone == SubSeq(tail, 1, Excess)
              rest == SubSeq(tail, Excess + 1, Len(tail))
          IN /\ tail' = rest
             /\ augs' = Overlays(Extended(store, gone).u, rest, mem)
             /\ nextb' = Excess     \* blocks still to be added to the store
     ELSE /\ augs' = [augs EXCEPT ![Len(augs)] = Overlay(store.u, tail, mem, Len(tail) + 1)]
          /\ UNCHANGED <<tail, nextb>>
  /\ pub' = [b |-> LastBlock, m |-> Obtained(mem)]
  /\ upd' = NotUpd
  /\ IF Full /\ Excess > 0
     THEN pc' = (IF augs = <<>> THEN "extend0" ELSE "extend") /\ todo' = SubSeq(tail, 1, Excess) /\ UNCHANGED <<mutex, signals>>
     ELSE /\ pc' = "sleep" /\ UNCHANGED <<todo, signals>>
          /\ mutex' = IF mayExtend THEN "free" ELSE mutex
  /\ qs' = [q \in Queries |-> IF qs[q].st \in {"idle", "done"} THEN qs[q] ELSE [qs[q] EXCEPT !.vs = @ \cup {pub'}]]
  /\ UNCHANGED <<nvars, store, mem, updated, mayExtend, dvars>>

Extend ==
  /\ pc \in {"extend", "extend0"} /\ wpc # "copy"          \* nobody reads the store
  /\ store' = Extended(store, todo)
  /\ todo' = <<>> /\ nextb' = 0 /\ pc' = "sleep" /\ mutex' = "free"
  /\ signals' = IF pc = "extend" THEN signals + 1 ELSE signals   \* the first update is made before there is a writer
  /\ UNCHANGED <<nvars, tail, mem, updated, mayExtend, augs, pub, upd, dvars, qs>>

----------------------------------------------------------------------------
(* The writer: under the mutex; copy the store, write it aside, sync, rename. *)
WrTake ==
  /\ wpc = "idle" /\ signals > 0 /\ mutex = "free" /\ pc # "off"
  /\ signals' = signals - 1 /\ mutex' = "wr" /\ wpc' = "copy"
  /\ UNCHANGED <<nvars, uvars, pub, upd, wbuf, disk, tmp, qs>>
WrCopy ==
  /\ wpc = "copy" /\ wpc' = "part"
  /\ wbuf' = [ok |-> TRUE, s |-> store] /\ tmp' = None
  /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, signals, disk, qs>>
WrWrite ==
  /\ wpc = "part" /\ wpc' = "full"          \* written; not yet on the disk
  /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, signals, wbuf, disk, tmp, qs>>
WrSync ==
  /\ wpc = "full" /\ wpc' = "synced" /\ tmp' = wbuf
  /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, signals, wbuf, disk, qs>>
WrRename ==
  /\ wpc = "synced" /\ wpc' = "idle" /\ disk' = tmp /\ tmp' = None /\ mutex' = "free" /\ wbuf' = None
  /\ UNCHANGED <<nvars, uvars, pub, upd, signals, qs>>

----------------------------------------------------------------------------
(* Queries: overlays first, then the store, then the answer. *)
QAsk(q, c) ==
  /\ pub # NoPub /\ qs[q].st = "idle" /\ pc \notin {"off", "extend0"}
  /\ qs' = [qs EXCEPT ![q] = [st |-> "asked", c |-> c, r |-> {}, vs |-> {pub}]]
  /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, signals, dvars>>
QAugs(q) ==
  /\ qs[q].st = "asked" /\ pc \notin {"extend", "extend0"}     \* the overlays are not being replaced
  /\ qs' = [qs EXCEPT ![q].st = "augs"]
  /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, signals, dvars>>
QStore(q) ==
  /\ qs[q].st = "augs"
  /\ qs' = [qs EXCEPT ![q].st = "both"]
  /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, signals, dvars>>
QCompute(q) ==
  /\ qs[q].st = "both"
  /\ qs' = [qs EXCEPT ![q].st = "done", ![q].r = Seen(qs[q].c)]
  /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, signals, dvars>>
QReply(q) ==
  /\ qs[q].st = "done"
  /\ qs' = [qs EXCEPT ![q] = IdleQ]
  /\ UNCHANGED <<nvars, uvars, mutex, pub, upd, signals, dvars>>

Updater == UpdBegin \/ ReplyMempool \/ ReplyTransaction \/ ReplyBlockHash \/ ReplyBlock \/ Apply \/ Extend
Writer == WrTake \/ WrCopy \/ WrWrite \/ WrSync \/ WrRename
Query(q) == QAugs(q) \/ QStore(q) \/ QCompute(q) \/ QReply(q)
============================================================================
