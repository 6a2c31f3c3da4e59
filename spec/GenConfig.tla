------------------------------ MODULE GenConfig ------------------------------
(* Environments: every value of every setting alone, with and without a       *)
(* stored index, and random combinations.  $NAME stands for something the     *)
(* driver knows (a free port, its directories, ...).                          *)
EXTENDS Config, SequencesExt, FiniteSetsExt, Randomization, TLC, Json
CONSTANTS Combos
VARIABLE done

Good(text, v) == [text |-> text, t |-> "good", v |-> v]
Bad(text) == [text |-> text, t |-> "bad", v |-> ""]
Absent == [text |-> "", t |-> "absent", v |-> ""]
NotUnicode == Bad("$NOTUNICODE")
NoNumber == {Bad(t) : t \in {"", " ", "x", "-1", "1.5", "0x10", "1 ", " 1", "1e3", "1x", "18446744073709551616", "99999999999999999999999", "1,000", "$NOTUNICODE"}}
NoPort == NoNumber \cup {Bad("65536"), Bad("70000"), Bad("-80"), Bad("8000.0")}
Values == [
  HOST |-> {Good(h, h) : h \in {"127.0.0.1", "0.0.0.0", "::1", "::", "127.0.0.2", "127.1.2.3"}} \cup {Good("$HOST", "$HOST"), Absent}
           \cup {Bad(t) : t \in {"", " ", "nonsense", "256.0.0.1", "127.0.0.1:80", "127.0.0.1/8", " 127.0.0.1", "127.0.0.1 ", "1.2.3.4.5", "::g", "[::1]", "127.0.0.1,::1", "$NOTUNICODE"}},
  PORT |-> {Good("$PORT", "$PORT"), Absent} \cup NoPort,
  THREADS |-> {Good(ToString(n), n) : n \in {1, 2, 3, 4, 8, 17, 64}} \cup {Absent} \cup NoNumber,
  BATCH_SIZE |-> {Good(ToString(n), n) : n \in {1, 2, 3, 7, 25000, 2147483647}} \cup {Good("18446744073709551615", -1), Absent} \cup NoNumber,
  CONFIRMATIONS |-> {Good("$K", "$K"), Absent} \cup NoNumber,
  UPDATE_INTERVAL |-> {Good(ToString(n), n) : n \in {1, 8, 100, 400}} \cup {Absent} \cup NoNumber,
  STORE_FILE_PATH |-> {Good(t, t) : t \in {"$STORE", "$STORE with blanks", "$STORE.tmp", "$STORE=x;y"}} \cup {Absent, NotUnicode},
  BLOCK_FILES_PATH |-> {Good(t, t) : t \in {"$BLOCKS", "$BLOCKS/", "$BLOCKS/../blocks"}} \cup {Absent, NotUnicode},
  RPC_SERVER_HOST |-> {Good(t, t) : t \in {"127.0.0.1", "localhost"}} \cup {Absent, NotUnicode},
  RPC_SERVER_PORT |-> {Good("$RPC", "$RPC"), Absent} \cup NoPort,
  RPC_SERVER_USER |-> {Good(t, t) : t \in {"user", "", "a b", "$ODD", "$LONG"}} \cup {Absent, NotUnicode},
  RPC_SERVER_PASSWORD |-> {Good(t, t) : t \in {"password", "", "a:b:c", ":", "a b", "$ODD", "$LONG"}} \cup {Absent, NotUnicode}]
ASSUME DOMAIN Values = Settings

Base == [HOST |-> Good("$HOST", "$HOST"), PORT |-> Good("$PORT", "$PORT"), THREADS |-> Good("2", 2), BATCH_SIZE |-> Good("3", 3),
         CONFIRMATIONS |-> Good("$K", "$K"), UPDATE_INTERVAL |-> Good("8", 8), STORE_FILE_PATH |-> Good("$STORE", "$STORE"),
         BLOCK_FILES_PATH |-> Good("$BLOCKS", "$BLOCKS"), RPC_SERVER_HOST |-> Good("127.0.0.1", "127.0.0.1"), RPC_SERVER_PORT |-> Good("$RPC", "$RPC"),
         RPC_SERVER_USER |-> Good("user", "user"), RPC_SERVER_PASSWORD |-> Good("password", "password")]
One == UNION {{[Base EXCEPT ![n] = v] : v \in Values[n]} : n \in Settings}
Valid(n) == {v \in Values[n] : v.t = "good" \/ (v.t = "absent" /\ n \notin Required)}
(* All valid; and all valid but one or two. *)
RandomOf(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
AllValid(i) == TLCEval([n \in Settings |-> TLCEval(RandomOf(Valid(n)))])
Spoilt(i) == LET e == AllValid(i) ns == RandomSubset(RandomElement(1 .. 2), Settings)
             IN TLCEval([n \in Settings |-> IF n \in ns THEN TLCEval(RandomOf(Values[n])) ELSE e[n]])
(* Every subset of up to three settings missing. *)
Missing == {[n \in Settings |-> IF n \in ns THEN Absent ELSE Base[n]] : ns \in {{}} \cup kSubset(1, Settings) \cup kSubset(2, Settings)}
Collect(f(_), n) == FoldLeft(LAMBDA a, i : Append(a, TLCEval(f(i))), <<>>, [i \in 1 .. n |-> i])

ASSUME PrintT("SCRIPT " \o ToJson([family |-> "one", envs |-> SetToSeq(One)]))
ASSUME PrintT("SCRIPT " \o ToJson([family |-> "missing", envs |-> SetToSeq(Missing)]))
ASSUME PrintT("SCRIPT " \o ToJson([family |-> "valid", envs |-> Collect(AllValid, Combos)]))
ASSUME PrintT("SCRIPT " \o ToJson([family |-> "spoilt", envs |-> Collect(Spoilt, Combos)]))
Init == done = 0
Next == UNCHANGED done
Spec == Init /\ [][Next]_done
==============================================================================
