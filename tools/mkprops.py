#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": None}})

ONLY = "The existing tests are ten unit tests of the hex, base64 and base58 codecs; none of them runs the indexer, so "
q = ["HTTP answers of /addresses/... compared with a replay of the node's chain"]

p("C01", "Every confirmation view equals a replay of the node's chain",
  "After every update, the balance and the unspent outputs the service reports for any address with c confirmations (0 <= c <= CONFIRMATIONS) are exactly those obtained by replaying the node's best chain without its last c-1 blocks (c >= 1), or the whole chain followed by the unconfirmed transactions (c = 0, the default). Every unspent output is listed exactly once with its transaction id, index and value, the balance is the sum of the listed values, and outputs that cannot be spent (OP_RETURN) or have no P2PKH/P2SH address are counted for nobody. The single-address and the many-address forms, by GET or POST, agree.",
  ["histories", "inputs", "configurations"], "every history of blocks (including chained spends inside a block and across views, outputs created and spent inside the margin, addresses that become empty and used again), every address, every c, every CONFIRMATIONS >= 1",
  ONLY + "the layering of an index with per-depth overlays is not exercised by any of them.",
  ["src/state.rs", "src/last_blocks.rs", "src/store/transaction_store.rs", "src/store/transaction_store_backend.rs", "src/store/store.rs", "src/create_server.rs"],
  [("overlay per depth", "LastBlocks::augmentations"), ("overlay selection by confirmations", "State::augmented_store"), ("moving old blocks into the index", "State::apply_update, LastBlocks::pop")], q,
  [("store", "index of all but the last CONFIRMATIONS-1 blocks", "State.store"), ("augmentations", "one overlay per recent block plus one for the mempool", "State.augmentations"), ("tail_blocks", "recent blocks and mempool", "State.tail_blocks")])
p("C02", "Reorganisations within the margin leave no trace",
  "When the node switches to a longer branch that forks off at most CONFIRMATIONS-1 blocks below the tip the service knew, the next completed update answers exactly as if the abandoned blocks had never existed, in every view, however many such switches happen, in whatever nesting, and also when the abandoned and the new blocks contain the same or conflicting transactions. Blocks already counted in the permanent index are never taken from a branch the node has abandoned within the margin.",
  ["histories", "schedules"], "every sequence of reorganisations of depth at most CONFIRMATIONS-1, at any update, including several between two updates and a switch back to the first branch",
  ONLY + "no block is ever connected or abandoned in a test.",
  ["src/last_blocks.rs", "src/state.rs"], [("pop on parent mismatch", "BlockUpdater::add_block"), ("blocks leave the tail only after the chain was followed to its tip", "State::compute_update")], q)
p("C03", "Unconfirmed transactions count exactly when their inputs are available",
  "With 0 confirmations the service applies the unconfirmed transactions the node lists, in the node's order, on top of the whole chain: each counts exactly if all its inputs are unspent at that point, so conflicting, already confirmed or orphaned ones change nothing, and chains of unconfirmed transactions are followed. Transactions the node no longer lists (evicted, replaced, confirmed) stop counting with the next update, listed ones it cannot hand out are skipped without failing, and views with 1 or more confirmations never contain them.",
  ["histories", "inputs", "fault_sequences"], "every history of submissions, replacements, evictions, confirmations and conflicts, with or without a block in the same update",
  ONLY + "no mempool is ever processed in a test.",
  ["src/last_blocks.rs", "src/client.rs", "src/store/transaction_store.rs"], [("admission test", "TransactionStore::can_add_transaction"), ("cache limited to listed hashes", "LastBlocks::update_mempool"), ("-5 means skip", "Client::getrawtransaction")], q)
p("C04", "Every answer comes from one published state",
  "However queries overlap with updates and with each other, each answer (for one or many addresses) is computed from one single state of chain and unconfirmed transactions that was current at some moment between the request and the response, never from a mixture of two. Once an answer has shown a newer state, no later request is answered from an older one.",
  ["schedules", "histories"], "every interleaving of queries with updates, reorganisations, and the transfer of blocks into the permanent index",
  ONLY + "nothing is ever queried concurrently with an update in a test.",
  ["src/state.rs"], [("read locks on both overlay list and index", "State::balance_array and friends"), ("write lock on overlays held while the index is extended", "State::apply_update")], q)
p("C05", "The initial index does not depend on threads, batches or timing",
  "Building the index from block files gives the same answers for every THREADS >= 1, every BATCH_SIZE >= 1 and every timing of the worker threads: those of processing the blocks of the longest chain one after the other. In particular outputs created in one batch and spent in another, and outputs created and spent inside one batch, are gone.",
  ["schedules", "configurations", "inputs"], "every block sequence (in which no transaction id occurs twice), thread count, batch size (1, smaller, equal, larger than the chain) and completion order of scan and index workers",
  ONLY + "the parallel pipeline is never started in a test.",
  ["src/store/store.rs", "src/store/transaction_store_backend.rs", "src/sequential_thread_pool.rs", "src/thread_pool.rs", "src/batcher.rs"],
  [("results put back in order", "SequentialThreadPool::next"), ("batch summary of spent and unspent outputs", "IntermediaryTransactionStoreBackend, merge")], q)
p("C06", "The longest chain in the block files is the one indexed",
  "Without a stored index the service starts from the longest chain of blocks, linked from the genesis block, in the files blkNNNNN.dat of the block directory, whatever the order of blocks inside and across the files, stale branches, duplicate or unlinked blocks, zero padding at the end of a file and other files in the directory. It indexes all blocks of that chain but the last CONFIRMATIONS-1 and fetches the rest from the node.",
  ["inputs", "configurations"], "every placement of a block tree in files: shuffled, forked (also ending at different lengths), duplicated, orphaned, padded, foreign files",
  ONLY + "no block file is ever read in a test.",
  ["src/block_file_reader.rs", "src/main.rs"], [("breadth-first walk from the zero hash", "BlockFileReader::find_longest_chain"), ("end of file detection", "BlockFileReader::scan_block_file"), ("truncation by the margin", "main")], ["first getblockhash height", "HTTP answers"])
p("C07", "A restart from the stored index changes no answer",
  "After a stop and a restart with the stored index, the service gives the same answers as before for the same node state, whatever the outputs contain (any value, with and without address, any index) and without reading the block files. The stored index never loses blocks from one write to the next and never contains a block fewer than CONFIRMATIONS-1 blocks below the tip it was computed from.",
  ["histories", "inputs", "crash_points"], "every history of updates, writes, stops and restarts, with node changes (also reorganisations within the margin) while the service is down",
  ONLY + "no store is written or read in a test.",
  ["src/store/store.rs", "src/store/transaction_store_backend.rs", "src/state.rs", "src/main.rs", "src/buffer_writer.rs"],
  [("serialisation and its inverse", "to_writer, from_reader"), ("only final blocks reach the index", "LastBlocks::pop")], ["getblockhash heights after a restart", "HTTP answers before and after"])
p("C08", "A crash at any point of a store write never loses the index",
  "If the process is killed, the machine loses power or a write fails (disk full), at any point while it writes its store, the next start finds either the complete previous store or the complete new one (or none at all if none was complete before) and serves correct answers. A store file that is damaged by truncation is refused with a failing exit status and never served as a smaller index.",
  ["crash_points", "histories"], "every file operation of a store write, every prefix of a written buffer, every failing operation, with and without loss of data not yet synced; every length of a cut-off store file",
  ONLY + "no store is written in a test, and none is interrupted.",
  ["src/store/store.rs", "src/hashing_buffer_reader.rs"], [("write aside, sync, rename", "IndexedStore::to_file"), ("bounds-checked reads", "HashingBufferReader::read_buffer")], ["directory contents after the crash", "behaviour of the next start"])
p("C09", "Writing the store never disturbs updates or queries",
  "While the index is being written to disk, however long that takes, queries keep being answered and updates keep being published, including updates that bring new blocks. Blocks that arrive during a write are in the index written afterwards, at the latest after the next block, and every written file holds one consistent state.",
  ["schedules", "histories"], "every interleaving of a store write with updates (new blocks, reorganisations, none), queries and further write requests",
  ONLY + "writer and updater never run in a test.",
  ["src/state.rs", "src/main.rs"], [("try_lock on the writer's mutex decides whether the index may be extended", "State::update"), ("read lock during the write", "State::write")], ["HTTP answers while a write is held", "stored file afterwards"])
p("C10", "Requests are validated and answered in the documented form",
  "A request for a known path with valid parameters gets status 200 and a JSON document of the right shape, with one entry per requested address in the order requested, repeated ones included; one with an invalid or missing address, an invalid confirmations value (not a non-negative integer, or above CONFIRMATIONS), or a body that is not a JSON array of strings gets status 400 and a JSON object with a message; an unknown path or method gets 404. The addresses in the path or body alone decide whom the answer is for, and no request can stop the service or change later answers.",
  ["inputs"], "every request line, query string and body, by class: method, path shape, parameter presence and value, body shape, addresses valid and invalid in every position",
  ONLY + "no request is ever sent in a test.",
  ["src/create_server.rs", "src/server.rs"], [("route patterns", "DynamicUri"), ("parameter checks", "parse_*")], ["HTTP status and body"])
p("C11", "Outputs belong to the address their script names",
  "An output is attributed to a P2PKH address exactly if its script is the 25-byte pay-to-public-key-hash form, to a P2SH address exactly if it is the 23-byte pay-to-script-hash form, with the 20 bytes of that script, and to no address otherwise. P2PKH and P2SH addresses with the same 20 bytes, and addresses whose bytes agree in part, are kept apart.",
  ["inputs"], "every output script, by class: the two templates, every one-byte deviation from them, lengths around them, OP_RETURN look-alikes, witness and bare-key forms, colliding payloads",
  ONLY + "no script is ever parsed in a test.",
  ["src/address.rs", "src/hashmap.rs", "src/store/transaction_store.rs"], [("template match", "Address::from_script"), ("OP_RETURN test", "ScriptExt"), ("hash that looks at 8 bytes only", "U64Hasher")], q)
p("C12", "Blocks and transactions are decoded as Bitcoin defines them",
  "Transactions are recognised by the double SHA-256 of their serialisation without marker, flag and witness data, displayed in reversed byte order, for every mix of legacy and segwit transactions, counts and lengths in any valid compact-size form, versions, lock times and script lengths, in blocks from files, blocks from the node and unconfirmed transactions alike. Decoding one transaction never affects the next one in the block.",
  ["inputs"], "every shape of a transaction: segwit or not, numbers of inputs, outputs and witness items (0, 1, 252, 253, more), script lengths around every compact-size boundary",
  ONLY + "no transaction is ever decoded in a test.",
  ["src/transaction.rs", "src/block.rs", "src/hashing_buffer_reader.rs", "src/reverse_hex.rs"], [("hashing reader skips the witness", "Transaction::from_reader"), ("compact sizes", "read_var_int_le")], q)
p("C13", "It stops rather than answer from a state it cannot trust",
  "When the node becomes unreachable, refuses a request, or answers with an unexpected error or garbage, or when it abandons a block that is already in the permanent index, the service ends with a failing exit status within one update and never answers from a state that mixes in data of that failed update. The stored index stays usable: a restart against a healthy node serves correct answers.",
  ["fault_sequences", "schedules"], "every kind of fault at every request of an update, and every reorganisation deeper than the margin",
  ONLY + "no fault is ever injected in a test.",
  ["src/client.rs", "src/executor.rs", "src/last_blocks.rs", "src/store/store.rs"], [("unwrap on every unexpected reply", "Client"), ("failure of any runtime ends the process", "Executor::join"), ("parent check", "add_block_header")], ["exit status", "HTTP answers until then", "restart"])
p("C14", "Each update asks the node only for what is new, with its credentials",
  "Every request to the node carries the configured user and password as HTTP basic authentication, whatever characters and length they have; nobody but the node is told them: they are in no answer, log or file. While the best chain only grows, each block is fetched exactly once, and a transaction is fetched once while it stays listed; an update during which nothing changed fetches no block and no transaction.",
  ["histories", "inputs"], "every history of node changes; every user/password string",
  ONLY + "the base64 test covers single strings; which requests an update makes is not tested.",
  ["src/client.rs", "src/last_blocks.rs", "src/base64/encode.rs"], [("Authorization header", "Client::new"), ("cache of listed transactions", "LastBlocks::update_mempool"), ("next height only", "BlockUpdater::next_block")], ["requests received by the node"])
p("C15", "A node that changes during an update causes no lost or doubled value",
  "If blocks arrive, the best chain is reorganised or unconfirmed transactions come and go while an update is talking to the node, the state it publishes is the node's best chain of some moment after the unconfirmed transactions were listed, together with those of the listed transactions the node handed out. A transaction that is continuously either unconfirmed or on the best chain during the update is never missing from the published state and never counted twice.",
  ["schedules", "histories"], "every interleaving of node changes with the individual requests of an update",
  ONLY + "no update ever runs in a test.",
  ["src/last_blocks.rs", "src/state.rs"], [("mempool listed before the blocks are followed", "State::compute_update"), ("blocks followed until the node has no next one", "BlockUpdater::update")], q)
p("C16", "The wall clock has no influence",
  "Steps of the system clock, forwards or backwards by any amount at any time, neither stop the service nor change its answers, its exit behaviour or what it stores.",
  ["schedules", "fault_sequences"], "every clock step at every moment: during the build, during updates, writes and queries",
  ONLY + "the clock is never changed in a test.",
  ["src/chronometer.rs", "src/logger.rs"], [("elapsed time for log lines", "Chronometer::elapsed")], ["liveness and HTTP answers under clock steps"])
p("C17", "Start-up and configuration work as documented",
  "With valid settings, including every CONFIRMATIONS >= 1, every THREADS and BATCH_SIZE >= 1 and the documented defaults for HOST, PORT, UPDATE_INTERVAL and CONFIRMATIONS, the service starts, serves nothing before its first update is complete, and then serves on the configured address and port only, updating at the configured interval; if it cannot listen there it ends with a failing exit status. A missing required or an unparsable setting makes it end with a failing exit status before it opens a port or creates or changes the store.",
  ["configurations", "inputs"], "every subset of settings given, and each setting valid, missing, empty, malformed or out of range",
  ONLY + "the configuration is never parsed in a test.",
  ["src/configuration.rs", "src/main.rs", "src/state.rs"], [("var_map with defaults", "Configuration::new"), ("first update before the server", "main")], ["exit status, open ports, store file"])
p("C18", "It catches up and persists: nothing stays pending for ever",
  "Once the node stops changing, the next completed update makes every view current and later updates keep it so; updates keep being made at the configured interval for as long as the service runs, whatever queries are in flight. Every block that becomes final while no write is running is in the stored index after the write that follows.",
  ["schedules", "histories"], "every history followed by quiet, including bursts of many blocks between two updates and long catch-ups after a restart",
  ONLY + "the update and writer loops never run in a test.",
  ["src/main.rs", "src/state.rs", "src/last_blocks.rs"], [("update loop", "main"), ("writer signalled after each extension of the index", "main")], q + ["stored file"])
p("C19", "A failed index build is never passed off as complete",
  "If reading or decoding the block files fails anywhere during the initial build (unreadable or cut-off file, malformed block, spend of an output that does not exist), with any THREADS and BATCH_SIZE, the process ends with a failing exit status, without leaving a store file and without serving answers.",
  ["inputs", "fault_sequences", "configurations"], "every kind of damage at every block or file, for sequential and parallel builds",
  ONLY + "no build ever runs, let alone fails, in a test.",
  ["src/thread_pool.rs", "src/sequential_thread_pool.rs", "src/block_file_reader.rs", "src/store/transaction_store.rs"], [("strict spending", "TransactionStore::spend_transaction_outputs"), ("worker failures", "ThreadPool")], ["exit status, store file, open port"])
p("C20", "Amounts are exact to the satoshi",
  "Every balance and output value up to 21 million bitcoin is reported as a JSON number of bitcoins that identifies the exact number of satoshis, and sums over any number of outputs are exact. Values survive storing and restarting unchanged.",
  ["inputs"], "every value from 0 to 2.1e15 satoshis and every set of them that sums within that range",
  ONLY + "no amount is ever added up or printed in a test.",
  ["src/create_server.rs", "src/store/transaction_store_backend_trait.rs", "src/hashing_buffer_reader.rs"], [("division by 1e8", "format_value"), ("integer sums", "balance")], ["HTTP answers"])
p("C21", "An address text is accepted exactly if it is a valid encoding",
  "A text is accepted as an address exactly if it is the Base58Check encoding (Bitcoin alphabet, leading ones for leading zero bytes, four-byte double SHA-256 checksum) of a version byte 0 or 5 followed by 20 bytes, and it then denotes exactly that address and is echoed in that form; every other text of any length or alphabet gets status 400. Transaction ids are shown in lower-case hexadecimal, 64 characters, leading zeros included.",
  ["inputs"], "every text: valid ones of all leading-zero counts, one-character changes, swaps, truncations and extensions, other versions and lengths, wrong checksums, foreign characters",
  "The base58 tests sample a few raw encodings without the checksum or version rules, none of them through the service.",
  ["src/address.rs", "src/base58_check/decode.rs", "src/base58/decode.rs", "src/base_common/alphabet.rs", "src/create_server.rs"], [("checksum comparison", "base58_check::decode_into"), ("version and length check", "Address::from_slice")], ["HTTP status and echoed address"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
