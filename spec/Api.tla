--------------------------------- MODULE Api ---------------------------------
(* Requests by class, and what each of them has to be answered with.          *)
(*                                                                           *)
(* A request is a record                                                     *)
(*   m     method                                                            *)
(*   path  "bal1" "utxo1" /addresses/{address}/balance, /utxos               *)
(*         "bal" "utxo"   /addresses/balance, /utxos                         *)
(*         or a path that is none of these                                   *)
(*   a     what is in the path for bal1, utxo1: an address or <<why not>>    *)
(*   q     the addresses parameter: <<>> when missing, <<list>> otherwise    *)
(*   c     the confirmations parameter: <<>> when missing, <<"n", value>>,   *)
(*         <<"no", text>> for what is no non-negative integer                *)
(*   body  <<>>, <<"list", list>>, <<"no", why>>                             *)
(*   x     other parameters, in front                                        *)
(* In lists, too, an entry is an address <<version, id>> or <<why not>>.     *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Paths == {"bal1", "utxo1", "bal", "utxo"}
NoPaths == {"/", "/addresses", "/addresses/", "/balance", "/addresses/balance/", "/addresses/utxos/", "/addresses/balances", "/address/A/balance", "/addresses/A", "/addresses/A/",
            "/addresses/A/balance/", "/addresses/A/utxos/x", "/addresses/A/B/utxos", "/addresses/A/utxo", "/addresses/A/Balance", "/Addresses/A/balance", "/x/addresses/A/balance",
            "/addresses/A//balance", "//addresses/A/balance", "/addresses.balance", "/addresses/A,B/none"}
Methods == {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "get"}

Good(x) == Len(x) = 2
Confs(K) == {<<>>} \cup {<<"n", i>> : i \in 0 .. K + 1} \cup {<<"n", 1000000>>} \cup
            {<<"no", t>> : t \in {"", "-1", "x", "1x", "x1", "1.0", "1e0", "0x1", "1,2", "1=2", "=1", "=", "18446744073709551616", "99999999999999999999999", "null", "true", "-0x", "1;", "bare", "%31x", "--1", "1_000"}}

(* Numbers that come back into the range when they are cut to 8, 16, 32, 64 or 128 bits. *)
Far == {<<"n", i>> : i \in {255, 256, 257, 258, 65535, 65536, 65537, 65538, 2147483647}} \cup
       {<<"no", t>> : t \in {"4294967295", "4294967296", "4294967297", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "340282366920938463463374607431768211457"}}

(* [st, k, c, as]: status, kind of answer, confirmations, addresses. *)
Refuse(st) == [st |-> st, k |-> "", c |-> 0, as |-> <<>>]
Expect(K, r) ==
  LET known == (r.path \in Paths /\ r.m = "GET") \/ (r.path \in {"bal", "utxo"} /\ r.m = "POST")
      one == r.path \in {"bal1", "utxo1"}
      list == IF one THEN <<r.a>> ELSE IF r.m = "POST" THEN (IF r.body # <<>> /\ r.body[1] = "list" THEN r.body[2] ELSE <<<<"no list">>>>)
              ELSE IF r.q = <<>> THEN <<<<"missing">>>> ELSE r.q[1]
      conf == r.c = <<>> \/ (r.c[1] = "n" /\ r.c[2] <= K)
  IN IF ~known THEN Refuse(404)
     ELSE IF ~conf \/ \E i \in DOMAIN list : ~Good(list[i]) THEN Refuse(400)
     ELSE [st |-> 200, k |-> IF r.path \in {"bal1", "bal"} THEN "b" ELSE "u", c |-> IF r.c = <<>> THEN 0 ELSE r.c[2], as |-> list]
==============================================================================
