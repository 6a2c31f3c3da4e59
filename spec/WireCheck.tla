------------------------------ MODULE WireCheck ------------------------------
(* Are the bytes that the driver uses for its transactions those of Wire?     *)
EXTENDS Wire, TLC, Json, IOUtils
VARIABLE i
Txs == JsonDeserialize(IOEnv.TRACES)
Init == i \in DOMAIN Txs
Next == UNCHANGED i
Spec == Init /\ [][Next]_i
Inv == LET t == Txs[i].t IN Full(t) = Txs[i].raw /\ Core(t) = Txs[i].core /\ LET r == RTx(Txs[i].raw, 1) IN r.p = Len(Txs[i].raw) + 1 /\ Same(t, r.x)
=============================================================================
