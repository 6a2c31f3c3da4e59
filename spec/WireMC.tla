------------------------------- MODULE WireMC -------------------------------
(* Any two small transactions, one after the other, are read back as they     *)
(* were, and the witness has no part in the bytes for the id.                 *)
EXTENDS Wire, TLC
VARIABLES a, b
Id == [i \in 1 .. 32 |-> 0]   \* begins with a zero, like the marker
Ins == {[id |-> Id, n |-> <<0, 0>>, sig |-> s, seq |-> <<65535, 65535>>] : s \in {<<>>, <<0>>}}
Outs == {[v |-> v, s |-> s] : v \in {<<0, 0>>, <<20999999, 97690000>>}, s \in {<<>>, <<106>>}}
Wits == {<<>>, <<<<>>>>, <<<<0>>>>, <<<<>>, <<1>>>>}
Upto(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
Txs == {t \in [ver : {<<0, 2>>, <<65535, 65535>>}, lock : {<<0, 0>>, <<256, 1>>}, ins : Upto(Ins, 2) \ {<<>>}, outs : Upto(Outs, 1), wit : Upto(Wits, 2)] :
          t.wit = <<>> \/ Len(t.wit) = Len(t.ins)}
Few == {t \in Txs : t.outs \in Upto({[v |-> <<0, 0>>, s |-> <<106>>]}, 1) /\ t.ver = <<0, 2>> /\ t.lock = <<0, 0>> /\ Len(t.ins) = 1 /\ t.ins[1].sig = <<>>}
Init == a \in Txs /\ b \in Few
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Inv == LET bytes == Full(a) \o Full(b)
           ra == RTx(bytes, 1)
           rb == RTx(bytes, ra.p)
       IN Same(a, ra.x) /\ Same(b, rb.x) /\ rb.p = Len(bytes) + 1
=============================================================================
