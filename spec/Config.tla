-------------------------------- MODULE Config --------------------------------
(* The settings.  An environment gives each of them as [t, v]: t is "absent", *)
(* "bad" (not of the setting's type) or "good", and then v is the value.      *)
EXTENDS Integers, Sequences, FiniteSets

Default == [HOST |-> "127.0.0.1", PORT |-> 8000, CONFIRMATIONS |-> 6, UPDATE_INTERVAL |-> 1000]
Required == {"THREADS", "BATCH_SIZE", "STORE_FILE_PATH", "BLOCK_FILES_PATH", "RPC_SERVER_HOST", "RPC_SERVER_PORT", "RPC_SERVER_USER", "RPC_SERVER_PASSWORD"}
Settings == Required \cup DOMAIN Default

Refused(env) == \E n \in Settings : env[n].t = "bad" \/ (env[n].t = "absent" /\ n \in Required)
Setting(env, n) == IF env[n].t = "absent" THEN Default[n] ELSE env[n].v
(* The sockets it listens on: none before the first update is done. *)
Listening(env, ready) == IF ready THEN {<<Setting(env, "HOST"), Setting(env, "PORT")>>} ELSE {}
(* n updates one after the other while the node answered at once took ms milliseconds, the quickest of them *)
(* least (0 while clients keep the service busy, for which an update may have to wait a little each time).  *)
(* The limits leave room for a busy machine, which may delay some of them.                                  *)
PaceOk(i, n, ms, least) == 5 * ms >= 4 * n * i /\ 2 * ms <= 3 * n * i + 30000 + 200 * n /\ 100 * least <= 115 * i + 15000
===============================================================================
