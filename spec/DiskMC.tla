------------------------------- MODULE DiskMC -------------------------------
(* A program that does any file operations, the disk they end up on, and a    *)
(* power failure at any time: as long as Disk!After calls the operations      *)
(* safe, Store is afterwards a complete file, or absent if it never was one.  *)
EXTENDS Disk, TLC
CONSTANTS MaxOps, MaxFiles
VARIABLES d,        \* the monitor of Disk.tla
          data,     \* file -> number of bytes written
          synced,   \* file -> at least so many of them are on the disk, and no truncation is outstanding
          trunc,    \* files with a truncation that may not have reached the disk: then old bytes remain
          dirs,     \* the states of the directory since the last one known to be on the disk
          full,     \* files that have ever been called Store -> their length at that time
          ops
vars == <<d, data, synced, trunc, dirs, full, ops>>
Names == {Store, "tmp"}
Init == d = NewDisk /\ data = <<>> /\ synced = <<>> /\ trunc = {} /\ dirs = <<<<>>>> /\ full = <<>> /\ ops = 0
Dir == dirs[Len(dirs)]
Do(op) == d' = After(d, op) /\ ops' = ops + 1
Op(o, n, t, tr) == [op |-> o, name |-> n, to |-> t, trunc |-> tr]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Open(n, tr) ==
  /\ Do(Op("open", n, "", tr))
  /\ IF n \in DOMAIN Dir
     THEN /\ IF tr THEN data' = Put(data, Dir[n], 0) /\ trunc' = trunc \cup {Dir[n]} /\ synced' = Put(synced, Dir[n], 0) ELSE UNCHANGED <<data, trunc, synced>>
          /\ UNCHANGED <<dirs, full>>
     ELSE LET i == d.n + 1 IN /\ i <= MaxFiles
                              /\ data' = Put(data, i, 0) /\ synced' = Put(synced, i, 0) /\ dirs' = Append(dirs, Put(Dir, n, i))
                              /\ full' = IF n = Store THEN Put(full, i, 0 - 1) ELSE full
                              /\ UNCHANGED trunc
Write(n) == n \in DOMAIN Dir /\ data[Dir[n]] < 2 /\ Do(Op("write", n, "", FALSE)) /\ data' = Put(data, Dir[n], data[Dir[n]] + 1) /\ UNCHANGED <<synced, trunc, dirs, full>>
Sync(n) == n \in DOMAIN Dir /\ Do(Op("fsync", n, "", FALSE)) /\ synced' = Put(synced, Dir[n], data[Dir[n]]) /\ trunc' = trunc \ {Dir[n]} /\ UNCHANGED <<data, dirs, full>>
Rename(n, m) == /\ n \in DOMAIN Dir /\ n # m /\ Do(Op("rename", n, m, FALSE))
                /\ dirs' = Append(dirs, Put([x \in DOMAIN Dir \ {n} |-> Dir[x]], m, Dir[n]))
                /\ full' = IF m = Store THEN Put(full, Dir[n], data[Dir[n]]) ELSE full
                /\ UNCHANGED <<data, synced, trunc>>
Unlink(n) == n \in DOMAIN Dir /\ Do(Op("unlink", n, "", FALSE)) /\ dirs' = Append(dirs, [x \in DOMAIN Dir \ {n} |-> Dir[x]]) /\ UNCHANGED <<data, synced, trunc, full>>
Flush == Len(dirs) > 1 /\ dirs' = Tail(dirs) /\ UNCHANGED <<d, data, synced, trunc, full, ops>>
Next == \/ ops < MaxOps /\ (\E n \in Names : Write(n) \/ Sync(n) \/ Unlink(n) \/ (\E tr \in BOOLEAN : Open(n, tr)) \/ (\E m \in Names : Rename(n, m)))
        \/ Flush
Spec == Init /\ [][Next]_vars
(* After a power failure the directory is one of dirs, and a file may have any length from what is synced to what is written. *)
Complete(i) == i \in DOMAIN full /\ full[i] = data[i] /\ synced[i] = data[i] /\ i \notin trunc
Inv == d.safe => /\ \A k \in DOMAIN dirs : Store \in DOMAIN dirs[k] => Complete(dirs[k][Store])
                 /\ Store \in DOMAIN dirs[1] => \A k \in DOMAIN dirs : Store \in DOMAIN dirs[k]
(* Otherwise there would be no way to write at all. *)
Useful == ~(d.safe /\ Cardinality(DOMAIN full) = 2)
=============================================================================
