------------------------------ MODULE GenCodec ------------------------------
(* Texts that are addresses, or nearly.  Every text starts from the encoding  *)
(* of a version and a payload and is then changed in one way:                 *)
(*   <<"as is">>             <<"set", position, digit>>  <<"swap", position>>  *)
(*   <<"drop", position>>    <<"insert", position, digit>>  <<"cut", length>>  *)
(*   <<"ones", number>>      <<"more", number>>  <<"lose ones", number>>       *)
(*   <<"foreign", position, code>>  <<"before", code>>  <<"after", code>>      *)
(*   <<"case", position>>    <<"sum", bit>>  <<"none", text number>>           *)
(*   <<"wrap", n, k>>  of the number that is larger by k times 256^n          *)
(*   <<"sha", n>>  the checksum is that of hashing once, or of other bytes     *)
(* A base is <<version, length of the payload, leading zero bytes>>.           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
CONSTANTS Bases    \* how many bases for the long families
VARIABLE done

Usual == <<<<0, 20, 0>>, <<5, 20, 0>>, <<0, 20, 1>>, <<5, 20, 2>>, <<0, 20, 5>>, <<0, 20, 19>>, <<0, 20, 20>>, <<5, 20, 20>>>>
Few == {Usual[i] : i \in 1 .. Bases}
T(b, ch) == [b |-> b, ch |-> ch]
Foreign == {48, 73, 79, 108, 32, 9, 10, 0, 43, 45, 46, 47, 58, 64, 91, 96, 123, 127, 128, 160, 177, 255, 305, 1632, 8203, 65279, 65297, 65313, 119808, 128512}

Exact == {T(<<v, 20, z>>, <<"as is">>) : v \in {0, 5}, z \in 0 .. 20}
Versions == {T(<<v, 20, z>>, <<"as is">>) : v \in 0 .. 255, z \in {0, 3}}
Lengths == {T(<<v, n, z>>, <<"as is">>) : v \in {0, 5}, n \in 0 .. 40, z \in {0, 1}}
Sums == {T(b, <<"sum", i>>) : b \in {Usual[i] : i \in DOMAIN Usual}, i \in 0 .. 31} \cup {T(b, <<"sha", i>>) : b \in Few, i \in 0 .. 4}
Sets == {T(b, <<"set", p, d>>) : b \in Few, p \in 1 .. 34, d \in 0 .. 57}
Inserts == {T(b, <<"insert", p, d>>) : b \in Few, p \in 0 .. 34, d \in 0 .. 57}
Moves == {T(b, <<k, p>>) : b \in {Usual[i] : i \in DOMAIN Usual}, k \in {"swap", "drop", "cut", "case"}, p \in 0 .. 34}
         \cup {T(b, <<k, n>>) : b \in {Usual[i] : i \in DOMAIN Usual}, k \in {"ones", "more", "lose ones"}, n \in 1 .. 30}
Strange == {T(b, <<"foreign", p, c>>) : b \in Few, p \in {1, 2, 17, 33}, c \in Foreign} \cup {T(b, <<w, c>>) : b \in Few, w \in {"before", "after"}, c \in Foreign}
           \cup {T(<<0, 20, 0>>, <<"none", n>>) : n \in 0 .. 40}
Wraps == {T(b, <<"wrap", n, k>>) : b \in {Usual[i] : i \in DOMAIN Usual}, n \in (20 .. 40) \cup {48, 64, 96, 128}, k \in {1, 2, 57, 255, 256}}
Family == [exact |-> Exact, versions |-> Versions, lengths |-> Lengths, sums |-> Sums, sets |-> Sets, inserts |-> Inserts, moves |-> Moves, strange |-> Strange, wraps |-> Wraps]
ASSUME \A f \in DOMAIN Family : PrintT("SCRIPT " \o ToJson([family |-> f, texts |-> SetToSeq(Family[f])]))
Init == done = 0
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
