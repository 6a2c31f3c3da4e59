-------------------------------- MODULE Disk --------------------------------
(* What a directory looks like after the power fails.                         *)
(*                                                                           *)
(* Data that was written but not synced may be there in part; renames and     *)
(* newly made names reach the disk in the order they were made, but nobody    *)
(* knows how many of them have.  Safe operations are those after which the    *)
(* name Store can only stand for a file with all its data on the disk:        *)
(* nothing may be written to a file that may stand under that name, and only  *)
(* a synced file may be given it.  DiskMC.tla checks that this suffices.      *)
EXTENDS Integers, Sequences, FiniteSets

(* names: name -> file, now; stored: files that may stand under the name Store; dirty: files with unsynced data. *)
NewDisk == [names |-> <<>>, n |-> 0, stored |-> {}, dirty |-> {}, safe |-> TRUE]
Has(d, x) == \E p \in DOMAIN d.names : d.names[p][1] = x
File(d, x) == d.names[CHOOSE p \in DOMAIN d.names : d.names[p][1] = x][2]
Without(d, x) == SelectSeq(d.names, LAMBDA e : e[1] # x)

(* op: [op, name, to, trunc] *)
Store == "store.dat"
After(d, op) ==
  CASE op.op = "open" /\ ~Has(d, op.name) ->        \* a new file, empty
         LET i == d.n + 1 IN [d EXCEPT !.names = Append(@, <<op.name, i>>), !.n = i, !.dirty = @ \cup {i}, !.safe = @ /\ op.name # Store]
    [] op.op = "open" /\ Has(d, op.name) /\ op.trunc ->
         [d EXCEPT !.dirty = @ \cup {File(d, op.name)}, !.safe = @ /\ File(d, op.name) \notin d.stored]
    [] op.op = "write" /\ Has(d, op.name) ->
         [d EXCEPT !.dirty = @ \cup {File(d, op.name)}, !.safe = @ /\ File(d, op.name) \notin d.stored]
    [] op.op = "fsync" /\ Has(d, op.name) -> [d EXCEPT !.dirty = @ \ {File(d, op.name)}]
    [] op.op = "rename" /\ Has(d, op.name) ->
         LET i == File(d, op.name)
         IN [d EXCEPT !.names = Append(Without([names |-> Without(d, op.name)], op.to), <<op.to, i>>),
                      !.stored = IF op.to = Store THEN @ \cup {i} ELSE @,
                      !.safe = @ /\ (op.to = Store => i \notin d.dirty) /\ ~(op.name = Store)]
    [] op.op = "unlink" /\ Has(d, op.name) -> [d EXCEPT !.names = Without(d, op.name), !.safe = @ /\ op.name # Store]
    [] OTHER -> d
=============================================================================
