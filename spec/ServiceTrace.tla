---------------------------- MODULE ServiceTrace ----------------------------
(* Is each recorded execution a behaviour of Service?                         *)
(*                                                                           *)
(* The only thing the recording does not show is when the program publishes  *)
(* a version.  So the specification keeps the set cands of all versions (and *)
(* answers owed to open queries) that the recording so far allows; every     *)
(* event maps that set on.  The recording is rejected where it becomes       *)
(* empty, or where an event contradicts the rest of the state.               *)
(*                                                                           *)
(* One TLC run steps through many recordings: Init picks one.  Every one     *)
(* ends with exactly one line ACCEPT or REJECT on the output.                *)
EXTENDS Service, Api, Codec, Config, Disk, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
World == [i \in DOMAIN Traces |->
            LET t == Traces[i] IN [T |-> t.txs, B |-> t.blks, U |-> ChainUtxo(t.txs, t.blks), K |-> t.K]]

VARIABLES
  tr, l,   \* which recording, which line comes next
  err,     \* "" or why it is rejected
  cands,   \* set of [pub, done, pend]: the published version, whether the running update has
           \* published, and the pairs <<query, version>> that open queries may be answered from
  s        \* everything that the recording determines:
           \*  tip, pool        the node
           \*  alive, ready     process running; its port has been reachable
           \*  upd              an update has begun (the memory pool was listed)
           \*  list, miss, win  see Service!Publications
           \*  updates          completed updates since the start of the process
           \*  fresh            no block height has been asked for since the start
           \*  hi, lo           bounds on the number of blocks in the stored index
           \*  calm             no write was running or due when the update began
           \*  due              number of blocks a completed write is known to hold
           \*  want, w          number of completed writes it takes; completed when the update began
           \*  known, age       the last update that may have caused a write certainly did; updates completed since
           \*  prev             tip published by the update before, 0 if not known
           \*  final            the last block made final, 0 if none
           \*  fault            the node failed: the process has to end
           \*  damaged          the stored index has been cut off
           \*  rotten           the block files cannot be read, or make no sense
           \*  full             a write failed: the process may end
           \*  env              the settings, <<>> if all are as the driver usually has them
           \*  disk             the directory of the stored index, see Disk
           \*  noport           the configured address cannot be listened on: the process has to end
           \*  have, got        transactions obtained and still listed; blocks obtained, in order
           \*  grew             the best chain has only grown since the start

vars == <<tr, l, err, cands, s>>

W == World[tr]
Ev == Traces[tr].ev
E == Ev[l]
Opt(name) == name \in Range(Traces[tr].chk)

Nobody == [pub |-> NoPub, done |-> TRUE, pend |-> {}]

Init ==
  /\ tr \in DOMAIN Traces
  /\ l = 1 /\ err = "" /\ cands = {Nobody}
  /\ s = [tip |-> 0, pool |-> <<>>, alive |-> FALSE, ready |-> FALSE, upd |-> FALSE, list |-> <<>>, miss |-> {},
          win |-> {}, updates |-> 0, fresh |-> TRUE, hi |-> 0, lo |-> 0, calm |-> FALSE, due |-> 0,
          want |-> 0, w |-> 0, known |-> TRUE, age |-> 0, prev |-> 0, damaged |-> FALSE, rotten |-> FALSE, final |-> 0,
          fault |-> FALSE, full |-> FALSE, env |-> <<>>, noport |-> FALSE, disk |-> NewDisk, have |-> {}, got |-> <<>>, grew |-> TRUE]

(* Version p becomes the published one; open queries may be answered from it. *)
Published(c, p) ==
  [pub |-> p, done |-> TRUE, pend |-> c.pend \cup {<<x[1], p>> : x \in c.pend}]

(* An update publishes once, at any moment; C after what may have happened   *)
(* since the last event.                                                     *)
Close(C, active, w, ml, ms) ==
  IF ~active THEN C
  ELSE C \cup {Published(c, p) : c \in {x \in C : ~x.done}, p \in Publications(w, ml, ms)}
Silent(C) == Close(C, s.upd, s.win, s.list, s.miss)

Is(e) == l <= Len(Ev) /\ err = "" /\ E.e = e /\ l' = l + 1 /\ UNCHANGED tr

(* Every step ends here: why is the reason if ok is false. *)
Judge(ok, why) == err' = IF ok THEN IF cands' = {} THEN "no version explains it" ELSE "" ELSE why

FinalNow == Max({FinalCount(W, c.pub) : c \in cands} \cup {0})
Finals == {s.final} \cup {FinalBlock(W, c.pub) : c \in {x \in cands : x.pub # NoPub}}
Higher(x, y) == IF x > y THEN x ELSE y

Node ==
  /\ Is("node")
  /\ s' = [s EXCEPT !.tip = E.tip, !.pool = E.pool, !.win = IF s.upd THEN @ \cup {E.tip} ELSE @,
                    !.grew = @ /\ OnChain(W.B, s.tip, E.tip)]
  /\ cands' = Close(cands, s.upd, s'.win, s.list, s.miss)
  /\ Judge(TRUE, "")

Start ==
  /\ Is("start")
  /\ s' = [s EXCEPT !.alive = TRUE, !.ready = FALSE, !.upd = FALSE, !.list = <<>>, !.miss = {}, !.win = {}, !.updates = 0,
                    !.fresh = TRUE, !.calm = FALSE, !.due = 0, !.want = 0, !.w = 0, !.known = TRUE, !.age = 0, !.prev = 0, !.fault = FALSE, !.full = FALSE, !.have = {}, !.got = <<>>, !.grew = TRUE]
  /\ cands' = {Nobody}
  /\ Judge(~s.alive, "started twice")

Refuses == s.env # <<>> /\ Refused(s.env)

(* The updater asks for the memory pool: the update before this one is done. *)
UpdateDone ==
  /\ Is("mpreq")
  /\ cands' = IF s.upd THEN {c \in cands : c.done} ELSE cands
  /\ IF s.upd /\ cands' # {}
     THEN LET ps == {c.pub : c \in cands'}
              most == Max({FinalCount(W, p) : p \in ps})
              p == CHOOSE q \in ps : FinalCount(W, q) = Min({FinalCount(W, r) : r \in ps})
              single == Cardinality(ps) = 1
              (* More blocks are final than ever before: the index must grow. *)
              grows == s.updates >= 1 /\ s.calm /\ single /\ most > s.hi
              may == s.updates >= 1 /\ ~(single /\ p.b = s.prev) /\ most > s.due
              known == IF may THEN grows ELSE s.known
              age == IF may THEN 0 ELSE s.age + 1
              want == IF grows THEN s.w + 1 ELSE s.want
          IN s' = [s EXCEPT !.updates = @ + 1,
                            !.hi = Higher(@, most),
                            !.due = IF grows THEN most ELSE @,
                            !.want = want, !.known = known, !.age = age, !.w = E.w,
                            !.prev = IF single THEN p.b ELSE 0,
                            !.calm = E.w >= want /\ ~E.busy /\ (known \/ age >= 1),
                            !.final = FinalBlock(W, p)]
     ELSE s' = [s EXCEPT !.w = E.w]
  /\ Judge(s.alive /\ ~s.fault /\ ~Refuses, IF Refuses THEN "it started although a setting is missing or malformed" ELSE IF s.alive THEN "it went on after the node had failed" ELSE "a request from a process that has ended")

(* The node lists its memory pool: an update begins. *)
UpdateStart ==
  /\ Is("mp")
  /\ s' = [s EXCEPT !.upd = TRUE, !.win = {s.tip}, !.list = s.pool, !.miss = {}, !.have = @ \cap Range(s.pool)]
  /\ cands' = Close({[c EXCEPT !.done = FALSE] : c \in cands}, TRUE, {s.tip}, s.pool, {})
  /\ Judge(s.alive, "a request from a process that has ended")

(* The node hands out a transaction, or denies it.  What was published before *)
(* this answer cannot be this update's version.                              *)
Transaction ==
  /\ Is("tx")
  /\ s' = [s EXCEPT !.miss = IF E.ok THEN @ ELSE @ \cup {E.t}, !.win = {s.tip}, !.have = IF E.ok THEN @ \cup {E.t} ELSE @]
  /\ cands' = Close({c \in cands : ~c.done}, s.upd, {s.tip}, s.list, s'.miss)
  /\ Judge(Opt("fetch") => (E.t \in Range(s.list) /\ E.t \notin s.have),
           "asked for a transaction that it has already, or that is not listed")

(* The longest chain in the block files, for a start without a store. *)
(* Only blocks whose ancestors are all there count (parents come first in B). *)
FileTips ==
  TLCEval([i \in DOMAIN Traces |->
    LET t == Traces[i] files == Range(t.files)
    IN FoldLeft(LAMBDA acc, b : LET ok == b \in files /\ (t.blks[b].p = 0 \/ acc.rooted[t.blks[b].p])
                                IN [rooted |-> Append(acc.rooted, ok),
                                    tip |-> IF ok /\ (acc.tip = 0 \/ t.blks[b].h > t.blks[acc.tip].h) THEN b ELSE acc.tip],
                [rooted |-> <<>>, tip |-> 0], [b \in DOMAIN t.blks |-> b]).tip])
FileTip == FileTips[tr]
BuiltCount == W.B[FileTip].h + 2 - W.K

(* The first height asked for tells how many blocks the index holds. *)
BlockHash ==
  /\ Is("bh")
  /\ UNCHANGED cands
  /\ IF s.fresh /\ s.lo = 0 /\ Opt("build")
     THEN /\ s' = [s EXCEPT !.fresh = FALSE, !.hi = E.h, !.lo = E.h, !.due = E.h, !.final = Anc(W.B, FileTip, W.K - 1)]
          /\ Judge(E.h = BuiltCount, "the index built from the block files does not hold the longest chain without the margin")
     ELSE IF s.fresh /\ s.lo > 0 /\ Opt("base")
     THEN /\ s' = [s EXCEPT !.fresh = FALSE, !.lo = E.h, !.due = E.h]
          /\ Judge(E.h >= s.lo /\ E.h <= s.hi,
                   IF E.h < s.lo THEN "the stored index lost blocks" ELSE "the stored index holds blocks that were never final")
     ELSE /\ s' = [s EXCEPT !.fresh = FALSE, !.final = IF @ = 0 /\ s.fresh THEN Anc(W.B, FileTip, W.K - 1) ELSE @] /\ Judge(TRUE, "")

BlockBody ==
  /\ Is("gb")
  /\ UNCHANGED cands
  /\ s' = IF Opt("fetch") THEN [s EXCEPT !.got = Append(@, E.b)] ELSE s
  /\ Judge((Opt("fetch") /\ s.grew) => E.b \notin Range(s.got), "fetched a block again although the chain only grew")

Ready ==
  /\ Is("ready")
  /\ s' = [s EXCEPT !.ready = TRUE]
  /\ cands' = {c \in cands : c.pub # NoPub}
  /\ Judge(s.alive /\ ~s.damaged /\ ~s.rotten /\ ~Refuses, "it serves although it should have refused to start")

(* No write is running; E.w have been completed by this process.  A write that *)
(* is due may have to wait for the update that is running, not longer.        *)
Quiet ==
  /\ Is("quiet")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.lo = IF E.w >= s.want THEN Higher(@, s.due) ELSE @]
  /\ Judge(E.w >= s.want \/ s.age = 0, "final blocks have not been written")

(* The stored index holds E.h blocks now, when another process starts from a copy of it. *)
Peek ==
  /\ Is("peek")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.lo = IF @ > 0 THEN Higher(@, E.h) ELSE @]
  /\ Judge(E.h >= s.lo, IF E.h < 0 THEN "the stored index cannot be read" ELSE "a later write lost blocks of the stored index")

(* The stored index is damaged while the program does not run. *)
Damage ==
  /\ Is("damage")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.damaged = TRUE]
  /\ Judge(~s.alive, "")
(* Something in the block files cannot be read or makes no sense. *)
Rotten ==
  /\ Is("rotten")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.rotten = TRUE]
  /\ Judge(TRUE, "")
Leftover ==
  /\ Is("leftover")
  /\ UNCHANGED <<cands, s>>
  /\ Judge(~s.alive /\ ~(s.rotten /\ E.there) /\ ~(Refuses /\ E.changed),
           IF Refuses THEN "the store was changed although a setting is missing or malformed" ELSE "an index built from unreadable block files was stored")
Restored ==
  /\ Is("restored")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.damaged = FALSE]
  /\ Judge(~s.alive, "")

Kill ==
  /\ Is("kill")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.alive = FALSE, !.ready = FALSE, !.upd = FALSE, !.hi = Higher(@, FinalNow),
                    !.final = IF FinalNow > Height(W.B, @) + 1
                              THEN CHOOSE b \in Finals : Height(W.B, b) + 1 = FinalNow ELSE @]
  /\ Judge(s.alive /\ ~s.noport, IF s.alive THEN "it ran on without listening" ELSE "ended twice")

(* It may end by itself only when the node failed, or when the node dropped  *)
(* a block that was final.                                                   *)
MayEnd == Refuses \/ s.noport \/ s.fault \/ s.full \/ s.rotten \/ s.damaged \/ \E b \in Finals : ~OnChain(W.B, b, s.tip)
Exit ==
  /\ Is("exit")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.alive = FALSE, !.ready = FALSE, !.upd = FALSE, !.hi = Higher(@, FinalNow)]
  /\ Judge(MayEnd /\ E.code # 0, IF MayEnd THEN "the process ended with a success status" ELSE "the process ended")

(* The node fails: whatever the program makes of that update must not be seen. *)
Fault ==
  /\ Is("fault")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.fault = TRUE, !.upd = FALSE]
  /\ Judge(TRUE, "")

Query ==
  /\ Is("qs")
  /\ UNCHANGED s
  /\ cands' = Silent({[c EXCEPT !.pend = @ \cup {<<E.q, c.pub>>}] : c \in cands})
  /\ Judge(TRUE, "")

Answered(c) == [c EXCEPT !.pend = {x \in @ : x[1] # E.q}]
Explains(c) == \E x \in c.pend : x[1] = E.q /\ ResponseMatches(W, x[2], E.kind, E.c, E.as, E.r)

Response ==
  /\ Is("qe")
  /\ UNCHANGED s
  /\ IF E.st = 200
     THEN /\ cands' = IF E.form /\ E.c <= W.K THEN Silent({Answered(c) : c \in {x \in cands : Explains(x)}}) ELSE {}
          /\ err' = IF E.c > W.K THEN "answered for more confirmations than configured"
                    ELSE IF ~E.form THEN "malformed response"
                    ELSE IF cands' = {} THEN "no version explains the response" ELSE ""
     ELSE /\ cands' = Silent({Answered(c) : c \in cands})
          /\ Judge(CASE E.st = 400 -> E.c > W.K
                     [] E.st = 0 -> ~s.ready \/ s.fault \/ s.full
                     [] OTHER -> FALSE, IF E.st = -1 THEN "no response" ELSE "refused a valid query")

(* A request from Api.tla is answered as Api.tla says (with the version that  *)
(* was published when it was answered, if it is answered from a version).     *)
ApiResponse ==
  /\ Is("api")
  /\ UNCHANGED s
  /\ LET x == Expect(W.K, E.req)
     IN IF x.st = 200 /\ E.st = 200
        THEN /\ cands' = IF ~E.form THEN {} ELSE
                         Silent({Answered(c) : c \in {y \in cands : \E z \in y.pend : z[1] = E.q /\ ResponseMatches(W, z[2], x.k, x.c, x.as, E.r)}})
             /\ err' = IF ~E.form THEN "malformed response" ELSE IF cands' = {} THEN "no version explains the response" ELSE ""
        ELSE /\ cands' = Silent({Answered(c) : c \in cands})
             /\ Judge(E.st = x.st /\ (x.st = 400 => E.form), "status " \o ToString(E.st) \o " instead of " \o ToString(x.st))

(* A request for addresses given as texts (Codec.tla): refused unless all of  *)
(* them are addresses; otherwise each comes back as it was written, with what *)
(* belongs to the address it denotes.  hids lists the payloads in use.        *)
AddressResponse ==
  /\ Is("addr")
  /\ UNCHANGED s
  /\ LET sums == [p \in {x[1] : x \in Range(E.sums)} |-> (CHOOSE x \in Range(E.sums) : x[1] = p)[2]]
         hids == Range(Traces[tr].hids)
         d == [i \in DOMAIN E.texts |-> Decode(E.texts[i].codes, sums)]
         ok == \A i \in DOMAIN d : d[i] # <<>>
         as == [i \in DOMAIN d |-> <<d[i][1], IF \E h \in hids : h[1] = d[i][2] THEN (CHOOSE h \in hids : h[1] = d[i][2])[2] ELSE 0>>]
     IN IF ok /\ E.st = 200
        THEN LET r == [i \in DOMAIN as |-> <<as[i], E.r[i][2]>>]
                 echo == E.form /\ Len(E.r) = Len(E.texts) /\ \A i \in DOMAIN E.r : E.r[i][1] = E.texts[i].s
             IN /\ cands' = IF ~echo THEN {} ELSE Silent({Answered(c) : c \in {y \in cands : \E z \in y.pend : z[1] = E.q /\ ResponseMatches(W, z[2], E.kind, E.c, as, r)}})
                /\ err' = IF ~E.form THEN "malformed response" ELSE IF ~echo THEN "the addresses of the response are not those of the request"
                          ELSE IF cands' = {} THEN "no version explains the response" ELSE ""
        ELSE /\ cands' = Silent({Answered(c) : c \in cands})
             /\ Judge(E.st = (IF ok THEN 200 ELSE 400), IF ok THEN "refused an address" ELSE "took a text for an address")

(* Settings for the starts to come; the driver has to know what they mean.    *)
Environment ==
  /\ Is("env")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.env = E.env, !.noport = FALSE]
  /\ Judge(~s.alive /\ (Refused(E.env) \/ Setting(E.env, "CONFIRMATIONS") = W.K), "the driver expects something else of these settings")
NoPort ==
  /\ Is("noport")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.noport = TRUE]
  /\ Judge(~s.alive, "")
Ports ==
  /\ Is("ports")
  /\ UNCHANGED <<cands, s>>
  /\ Judge(Range(E.open) = IF s.noport THEN {} ELSE Listening(s.env, s.ready), IF s.ready THEN "it listens elsewhere" ELSE "it listens before the first update is complete")
Pace ==
  /\ Is("pace")
  /\ UNCHANGED <<cands, s>>
  /\ Judge(PaceOk(IF s.env = <<>> THEN E.interval ELSE Setting(s.env, "UPDATE_INTERVAL"), E.n, E.ms, IF E.load > 0 THEN 0 ELSE E.least), "updates are not made at the configured interval")

(* A file operation in the directory of the stored index. *)
FileOp ==
  /\ Is("fop")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.disk = After(@, E)]
  /\ Judge(s'.disk.safe, "a power failure can leave a stored index that is neither the old nor the new one")

(* The disk is full: a write fails, and the program may end. *)
DiskFull ==
  /\ Is("full")
  /\ UNCHANGED cands
  /\ s' = [s EXCEPT !.full = TRUE]
  /\ Judge(s.alive, "")

Nop == Is("nop") /\ UNCHANGED <<cands, s>> /\ Judge(TRUE, "")

(* No step within the time limit; a request without the configured           *)
(* credentials; anything else that is never right.                           *)
Never ==
  /\ l <= Len(Ev) /\ err = "" /\ E.e \in {"stall", "unauth", "bad"} /\ l' = l + 1
  /\ err' = IF E.e = "stall" THEN "no progress" ELSE IF E.e = "unauth" THEN "request without the configured credentials" ELSE E.why
  /\ UNCHANGED <<tr, cands, s>>

Verdict ==
  /\ \/ err # "" /\ PrintT(<<"REJECT", tr, l - 1, err>>)
     \/ err = "" /\ l = Len(Ev) + 1 /\ PrintT(<<"ACCEPT", tr, l - 1, "">>)
  /\ l' = Len(Ev) + 2 /\ err' = ""
  /\ UNCHANGED <<tr, cands, s>>

Next ==
  \/ Node \/ Start \/ UpdateDone \/ UpdateStart \/ Transaction \/ BlockHash \/ BlockBody \/ Ready \/ Quiet \/ Peek \/ Damage \/ Restored \/ Rotten \/ Leftover
  \/ Kill \/ Exit \/ Fault \/ DiskFull \/ ApiResponse \/ AddressResponse \/ Environment \/ NoPort \/ FileOp \/ Ports \/ Pace \/ Query \/ Response \/ Nop \/ Never \/ Verdict
Spec == Init /\ [][Next]_vars
============================================================================
