------------------------------- MODULE GenApi -------------------------------
(* All requests of Api.tla over a few lists of addresses, printed family by   *)
(* family; K is the configured number of confirmations.                       *)
EXTENDS Api, TLC, Json
CONSTANTS K
VARIABLE done

A == <<0, 1>>
B == <<5, 1>>
C == <<0, 2>>
Unused == <<5, 4>>
Bad == {<<w>> : w \in {"empty", "checksum", "version", "short", "long", "character", "space", "word"}}
Atoms == {A, B, Unused} \cup {<<"checksum">>, <<"empty">>, <<"version">>}
Lists == {<<>>} \cup {<<x>> : x \in {A, B, C, Unused} \cup Bad} \cup {<<x, y>> : x, y \in Atoms} \cup
         {<<A, B, A>>, <<A, A, A>>, <<B, C, A, Unused, B>>, <<A, <<"checksum">>, B>>, <<A, B, <<"word">>>>, <<<<"empty">>, A, B>>}
(* An empty list cannot be written as a parameter: it is one empty entry. *)
QLists == {<<>>} \cup {<<l>> : l \in Lists \ {<<>>}}
NoBodies == {<<"no", w>> : w \in {"nothing", "text", "open", "tail", "object", "string", "number", "null", "true", "numbers", "mixed", "nested", "nulls", "objects", "notutf8", "single quotes", "comma", "deep", "two"}}
Bodies == {<<"list", l>> : l \in Lists} \cup NoBodies
Extras == {<<>>, <<<<"address", C>>>>, <<<<"addresses", C>>>>, <<<<"x", C>>, <<"address", <<"word">>>>>>}
Few == {<<>>, <<"n", 0>>, <<"n", K>>, <<"n", K + 1>>, <<"no", "x">>}
R(m, p, a, q, c, b, x) == [m |-> m, path |-> p, a |-> a, q |-> q, c |-> c, body |-> b, x |-> x]

(* Decoys must not be the real parameter. *)
One == {R("GET", p, a, <<>>, c, b, x) : p \in {"bal1", "utxo1"}, a \in {A, B, Unused} \cup Bad, c \in Confs(K), b \in {<<>>, <<"list", <<C>>>>}, x \in Extras}
       \cup {R("GET", p, A, <<>>, c, <<>>, <<>>) : p \in {"bal1", "utxo1"}, c \in Far}
ManyGet == {R("GET", p, <<>>, q, c, <<>>, x) : p \in {"bal", "utxo"}, q \in QLists, c \in Few, x \in {<<>>, <<<<"address", C>>>>}}
           \cup {R("GET", p, <<>>, q, c, b, <<>>) : p \in {"bal", "utxo"}, q \in {<<>>, <<<<A, B>>>>}, c \in Confs(K), b \in {<<>>, <<"list", <<C>>>>}}
           \cup {R("GET", p, <<>>, <<<<A, B>>>>, c, <<>>, <<>>) : p \in {"bal", "utxo"}, c \in Far}
ManyPost == {R("POST", p, <<>>, <<>>, c, b, x) : p \in {"bal", "utxo"}, c \in Few, b \in Bodies, x \in Extras}
            \cup {R("POST", p, <<>>, <<>>, c, b, <<>>) : p \in {"bal", "utxo"}, c \in Confs(K), b \in {<<"list", <<A, B>>>>, <<"no", "text">>}}
            \cup {R("POST", p, <<>>, <<>>, c, <<"list", <<A, B>>>>, <<>>) : p \in {"bal", "utxo"}, c \in Far}
Unknown == {R(m, p, A, q, c, b, <<>>) : m \in Methods, p \in NoPaths, q \in {<<>>, <<<<A>>>>}, c \in {<<>>, <<"n", 1>>}, b \in {<<>>, <<"list", <<A>>>>}}
OtherMethods == {R(m, p, A, q, c, b, <<>>) : m \in Methods \ {"GET"}, p \in Paths, q \in {<<>>, <<<<A>>>>}, c \in Few, b \in {<<>>, <<"list", <<A>>>>}}
Family == [one |-> One, get |-> ManyGet, post |-> ManyPost, unknown |-> Unknown, methods |-> OtherMethods \ {r \in OtherMethods : r.m = "POST" /\ r.path \in {"bal", "utxo"}}]

ASSUME \A f \in DOMAIN Family : PrintT("SCRIPT " \o ToJson([family |-> f, requests |-> SetToSeq(Family[f])]))
Init == done = 0
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
=============================================================================
