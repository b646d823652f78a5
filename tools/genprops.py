#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
TC = "apps/tablet_cache/service/src/"
TX = TC + "transaction/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "Every requested key is routed to exactly the tablet that owns it",
 "Resolving a set of keys of a table yields, once all needed listings have been answered, every requested key exactly once, attached to the tablet that owns it: the first tablet at or after the key's hash going clockwise round the hash ring, wrapping to the lowest tablet. No key of the query is dropped, duplicated, invented or sent to a neighbour, wherever it lies relative to region and tablet boundaries and however many queries, tables and regions one request spans. A resolution whose listings are all already known completes at once and gives the same answer.",
 ["inputs", "configurations", "histories"],
 "all tablet placements, all region sizes, all key sets over the full 32-bit ring, all groupings of keys into queries and tables, all orders in which listings arrive",
 "One test resolves one fixed key set against one region layout; boundary positions, wrap-around, multi-region and multi-query requests and cached regions are never sampled.",
 [TX+"metadata.rs", TX+"manager.rs"],
 [("region split of the key set, clockwise merge of keys and tablets, result accumulation", TX+"metadata.rs")],
 ["results of key resolution, passed to the caller or its handler", "list requests sent to the tablet store"])

prop("C02", "Cached tablet metadata only moves forward and converges on the store",
 "The version of a tablet handed out by key resolution never goes back to an older one, whatever the order in which listings, conflict reports and commit confirmations arrive. After a transaction commits, the next resolution hands out the version it created; after a conflict, it hands out the version the store reported or a newer one; a version that was never committed is never handed out. A failed or errored listing is asked for again and never produces a result.",
 ["histories", "fault_sequences", "schedules"],
 "all interleavings of listings (fresh, delayed, failed), commits, conflicts and resolutions over any number of tablets",
 "The metadata test performs one listing; staleness, delayed replies, conflicts and failures are not exercised.",
 [TX+"metadata.rs", TX+"coordinator.rs"],
 [("keep-latest-version insertion and region invalidation on conflict", TX+"metadata.rs"), ("metadata updates derived from commit results", TX+"coordinator.rs")],
 ["tablet metadata returned by resolution", "list requests sent"])

prop("C03", "Loading tablets returns exactly the stored, verified contents of all",
 "A load of any set of tablets completes only when every requested tablet is available and then yields each of them exactly once with the contents stored for its metadata. If the data storage reports failure for any of them, or returns bytes that do not match the recorded hash or cannot be decoded, the load fails as a whole and no such bytes reach the caller. A tablet that has never been written has empty contents and needs no storage access, and an empty load completes at once.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "all mixes of cached, pending, failing, corrupted and never-written tablets in a batch, all reply orders, all concurrent batches sharing tablets",
 "The load test loads two tablets once with successful replies; partially cached batches, failures, corruption and shared pending loads are not reached.",
 [TX+"data.rs"],
 [("batch completion counting", TX+"data.rs"), ("blob hash check on load", TX+"data.rs")],
 ["load results", "load requests sent to tablet data storage"])

prop("C04", "Storing creates a new immutable version described exactly by its metadata",
 "Storing new contents for tablets produces, for each, metadata whose version is exactly one higher, whose size and SHA-256 hash are those of the bytes handed to the data storage, whose tablet identity is unchanged and whose location differs from that of any different content. The store completes successfully only after the data storage confirmed every blob, fails if any was refused, and always completes once all replies arrived. Two writers producing the same next version never share a location unless their bytes are identical.",
 ["inputs", "histories", "fault_sequences", "schedules"],
 "all contents, versions and batches, all reply orders and failures, all concurrent writers of the same tablet",
 "The store test stores two tablets once successfully; concurrent writers, identical contents, empty batches and refusals are not reached.",
 [TX+"data.rs"],
 [("metadata preparation before write", TX+"data.rs"), ("batch completion counting", TX+"data.rs")],
 ["store requests (location and bytes)", "updated metadata", "store results"])

prop("C05", "The data cache is coherent with what was stored",
 "A tablet version whose store or load completed is served from memory with exactly those contents and without another storage request, for as long as it is cached. Requests for a tablet already being fetched share the one outstanding request. A failed store or load leaves nothing behind: the next request for the tablet goes to storage again and its result depends only on that new reply.",
 ["histories", "fault_sequences", "schedules"],
 "all sequences of loads, stores, replies, failures and retries over a shared set of tablets",
 "No test reads back after a write, repeats a request, overlaps two requests or retries after a failure.",
 [TX+"data.rs"],
 [("cache entry state machine load/store/cache/error", TX+"data.rs")],
 ["load results", "storage requests sent"])

prop("C06", "A transaction sends exactly its reads and writes, after data is durable",
 "Committing a transaction sends the tablet store one request holding exactly one operation for every tablet the transaction processed: a version check at the version that was read for tablets only read, an update carrying the new version's metadata for tablets written. The request is sent only after every new blob has been confirmed by the data storage, carries each operation under the table it belongs to, and is sent once. An aborted transaction, or one whose local processing failed, sends nothing.",
 ["histories", "fault_sequences", "schedules"],
 "all mixes of read and written tablets over several tables and process calls, all storage reply orders and failures, aborts at every point",
 "The coordinator test runs one two-query transaction that succeeds; multi-table overlap, failures and aborts are not reached.",
 [TX+"coordinator.rs", TX+"manager.rs"],
 [("tablet op generation and commit gating", TX+"coordinator.rs")],
 ["tablet ops requests sent to the tablet store", "store requests and replies before them"])

prop("C07", "A transaction is reported successful only if the store committed it",
 "The reported outcome of a transaction is success if and only if the tablet store's reply to its commit request says that the whole request and every operation in it succeeded, and failure otherwise, including for error replies, replies without operation results, replies with missing or extra results, and any mix of per-operation statuses. Outcomes never leak between concurrent transactions. No such reply makes the component crash.",
 ["inputs", "fault_sequences", "schedules"],
 "all well-formed and malformed replies and errors, in any order, for any number of concurrent transactions",
 "Only the all-succeeded reply is tested.",
 [TX+"coordinator.rs", TX+"manager.rs"],
 [("evaluation of commit results", TX+"coordinator.rs"), ("translation of transport errors into failed results", TX+"manager.rs")],
 ["transaction outcome"])

prop("C08", "Concurrent transactions are serializable and atomic",
 "Whatever the interleaving of any number of transactions on any number of cache nodes sharing one tablet store and data storage, the committed ones have the same effect as running them one at a time in the order the tablet store committed them: each saw exactly the tablet contents left by its predecessors and each one's writes all took effect. Transactions that fail or abort have no effect on what others read. The blob of every committed tablet version is present in the data storage and matches its metadata.",
 ["schedules", "histories", "fault_sequences", "crash_points"],
 "all schedules of message delivery, storage and commit failures, lost replies and node restarts over concurrent read-modify-write transactions",
 "No test runs two transactions, let alone two nodes against one store.",
 [TX+"coordinator.rs", TX+"manager.rs", TX+"data.rs", TX+"metadata.rs"],
 [("optimistic concurrency control by version checks; immutable tablet versions; write data before metadata", TX+"coordinator.rs")],
 ["contents seen by process handlers", "final tablet store and data storage state", "transaction outcomes"])

prop("C09", "Transactions always finish once the environment answers",
 "Every resolution, every processing step and every commit reaches an outcome after finitely many rounds in which all outstanding requests are answered, whatever faults happened before. A processing step that failed stops being pending and its transaction can be committed (reporting failure) or aborted, with no effect on other transactions. No reply from the untrusted host or the tablet store, including unknown statuses, makes the manager crash or stall.",
 ["histories", "fault_sequences", "schedules"],
 "all histories of transactions with load, store, list and commit failures followed by a fair environment, including empty queries and transactions that only read",
 "Tests only follow the success path; a failed load, store or commit is never followed to its end.",
 [TX+"manager.rs", TX+"coordinator.rs", TX+"data.rs", TX+"metadata.rs"],
 [("process state machine and failure states", TX+"coordinator.rs")],
 ["pending indication", "transaction outcomes", "process handler calls"])

prop("C10", "Replies are matched to requests; stray messages change nothing",
 "Every request sent out carries a correlation id never used before by that node, and a reply affects only the request it answers, at most once. Replies that are duplicated, late (for an aborted or finished transaction) or carry an unknown id are ignored without effect on any other request, result or later behaviour.",
 ["histories", "fault_sequences", "schedules"],
 "all insertions of duplicate, unknown and late replies of every kind into any history",
 "Every test delivers each reply exactly once in order.",
 [TX+"manager.rs", TX+"coordinator.rs", TX+"data.rs", TX+"metadata.rs"],
 [("correlation maps", TX+"manager.rs")],
 ["outgoing messages", "results with and without stray messages"])

prop("C11", "Key-value store responses are linearizable",
 "For any concurrent sequence of puts and gets, the responses the key-value store gives are those of some order of the requests executed one at a time on a plain map, consistent with the order in which responses were handed out before later requests were accepted. A get returns the value of the latest preceding put of that key, byte for byte, or reports absence; a put reports whether the key existed. A response is handed out only after the effect is committed, and it survives the loss of the cache node.",
 ["histories", "schedules", "fault_sequences", "crash_points"],
 "all sequences of puts and gets over colliding and distinct keys, all batching thresholds, all tablet placements, all schedules, faults, conflicts with a second node, and node restarts",
 "store.rs's only test runs against mocks and is not even part of the runnable suite.",
 [TC+"store.rs", TX+"coordinator.rs"],
 [("execute requests against tablet contents inside a transaction, respond after commit", TC+"store.rs")],
 ["responses taken from the key-value store", "committed tablet contents"])

prop("C12", "Every key-value request is answered exactly once",
 "Each accepted put or get is eventually answered exactly once, with its own correlation id and the matching kind of response, once enough requests to pass the batching thresholds have been accepted and the environment answers. Conflicts, failed commits, failed loads or stores and batches spanning several tablets only delay the answer: the affected requests are executed again. No accepted request is lost, answered twice or answered as another request.",
 ["histories", "fault_sequences", "schedules", "configurations"],
 "all request sequences, thresholds, tablet placements and finite fault sequences",
 "The single mock-based test covers one tablet, one batch and no failure.",
 [TC+"store.rs"],
 [("request trackers for resolution, tablets and transactions", TC+"store.rs")],
 ["responses taken from the key-value store"])

prop("C13", "Requests are batched by the thresholds, one transaction per tablet at a time",
 "No resolution is started before the configured number of requests is pending and no transaction includes a tablet for which fewer than the configured number of requests is pending; with enough requests, both happen without further input. The node never has two unfinished key-value transactions touching the same tablet. An idle store starts no resolutions or transactions.",
 ["histories", "configurations", "schedules"],
 "all thresholds including zero and one, all arrival patterns of requests, all tablet placements",
 "One threshold value pair with one batch is sampled.",
 [TC+"store.rs"],
 [("threshold checks in request and tablet trackers", TC+"store.rs")],
 ["resolutions and transactions started through the transaction context"])

prop("C14", "Log records reach the host completely, in order and once",
 "Every log record written through the logger handed to the trusted application is delivered to the host exactly once, in the order written, with the severity it was logged at and with its text, source file name, key-value pairs and logger context included. Taking the pending records leaves none behind and never blocks or loses records written later, also when several threads or derived loggers write.",
 ["inputs", "histories", "schedules"],
 "all sequences of logging at every level through any tree of derived loggers, interleaved with takes",
 "logger.rs has no tests.",
 ["runtime/src/logger.rs", "runtime/src/driver.rs", "proto/src/endpoint.proto"],
 [("remote drain with shared queue, message formatting, severity mapping", "runtime/src/logger.rs"), ("records stashed among the messages of every call", "runtime/src/driver.rs")],
 ["records taken from the drain output", "Log messages sent to the host"])

prop("C15", "Messages survive the wire unchanged and the wire format is stable",
 "Every message exchanged between the trusted application, the untrusted host and the tablet services decodes to an equal message after encoding, and fields unknown to the reader or absent do not disturb the others. The encoding of each message and enumeration value stays the published one, so that replicas, snapshots and hosts built from different revisions understand each other. Arbitrary bytes either decode or are rejected, never crash.",
 ["inputs"],
 "all field values of all message types of the endpoint, tablet cache, tablet store and counter protocols, and arbitrary byte strings",
 "No test encodes and decodes the protocol messages against an independent description of the format.",
 ["proto/src/endpoint.proto", "apps/tablet_cache/service/proto/tablet_cache.proto", "apps/tablet_store/service/proto/tablet_store.proto", "apps/atomic_counter/service/proto/atomic_counter.proto"],
 [("protobuf schemas", "proto/src/endpoint.proto")],
 ["encoded bytes", "decoded messages"])

TS = "apps/tablet_store/service/src/actor.rs"
prop("C16", "The tablet store executes a request entirely or not at all",
 "A request to the tablet store either applies all of its updates and reports overall success with every operation succeeded, or leaves every table exactly as it was and reports overall failure. The reply holds one result per operation, in order and under the operation's table, and operations on unknown tables or with missing parts fail the request without effect. No request makes the store crash.",
 ["inputs", "histories"],
 "all sequences of requests mixing list, check, update and malformed operations over several tables",
 "Actor tests send a handful of single-operation requests (and cannot run in this sandbox's suite).",
 [TS],
 [("two-phase prepare and commit of operations", TS)],
 ["tablets responses", "later list results and snapshots"])

prop("C17", "Tablet versions are a compare-and-swap with no lost updates",
 "An update is accepted only if it names an existing tablet and carries the version directly following the current one, a check only if the version equals the current one; a refused operation reports the tablet's current metadata. Hence for each tablet and version at most one update is ever accepted and the accepted metadata is returned unchanged by later listings and conflict reports.",
 ["inputs", "histories"],
 "all histories of concurrent updates and checks with current, stale, skipped and absent versions and tablets",
 "Tests cover one accepted and one refused update.",
 [TS],
 [("version comparison in prepare phase", TS)],
 ["operation statuses and existing tablet metadata"])

prop("C18", "Tablet listings cover the requested arc of the ring",
 "Listing an arc of a table's ring returns every tablet that owns some key hash of the arc, at its current version, together with no duplicates and no tablet of another table, and echoes the requested bounds. A table starts with the configured number of distinct tablets. Listing contiguous arcs that cover the ring therefore finds every tablet and lets a reader place every key.",
 ["inputs", "configurations"],
 "all tablet placements and all arcs, including empty, wrapping, single-point and full-ring ones",
 "Only a couple of arcs over one placement are sampled.",
 [TS],
 [("ordered range scan with clockwise successor", TS)],
 ["list results"])

prop("C19", "Tablet store snapshots and replicas agree",
 "Two tablet store replicas that start from the same snapshot and apply the same committed requests hold the same state and produce the same replies; saving a snapshot and loading it into a new replica reproduces the state exactly, at any point of the history. Only the replica that proposed a request answers its sender, exactly once, and a replica that is not leader or cannot decode a request answers with a rejection and proposes nothing.",
 ["histories", "crash_points", "inputs"],
 "all request histories, all snapshot points, all placements of leadership, and arbitrary request bytes",
 "Tests save and load one tiny snapshot; divergence between replicas is never looked for.",
 [TS],
 [("snapshot save and load; owned-event replies; leader gate", TS)],
 ["snapshots", "replies of each replica"])

AC = "apps/atomic_counter/service/src/actor.rs"
prop("C20", "The atomic counter is a linearizable replicated compare-and-swap",
 "Each compare-and-swap takes effect at its position in the replicated log: it succeeds exactly when the counter's current value (zero if never set) equals the expected one, changes only that counter, and reports the value found. Replicas applying the same log from any snapshot hold the same counters and only the proposer answers, once per request, carrying the request's payload semantics unchanged. Requests to a follower, undecodable requests and unsupported operations are rejected without any effect.",
 ["histories", "inputs", "crash_points"],
 "all histories of requests over several counters, all snapshot points and leadership placements, arbitrary request bytes",
 "The counter's tests live in an integration harness that samples a few increments.",
 [AC],
 [("apply of compare-and-swap on event application", AC)],
 ["counter responses", "snapshots"])

prop("C21", "The in-memory log storage behaves like a durable log",
 "At all times the replicated log kept by a replica is a contiguous sequence following its latest snapshot; reads return exactly what was appended last for each index, conflicting suffixes are replaced, compacted and unavailable indexes are refused with the proper error, and size limits never yield an empty answer when entries exist. Snapshots never move the log backwards, never lose entries after the snapshot point that are still needed, and are only offered to peers when they are recent enough.",
 ["histories", "inputs"],
 "all sequences of appends, truncating appends, hard-state changes, local and received snapshots, and reads with any bounds and size limits",
 "storage.rs samples fixed tables of calls (not runnable in this sandbox's suite).",
 ["runtime/src/storage.rs"],
 [("entry offset arithmetic, compaction, snapshot acceptance", "runtime/src/storage.rs")],
 ["storage reads, errors and snapshots"])

prop("C22", "Snapshot transfer delivers the exact snapshot or reports failure",
 "A snapshot sent between replicas in chunks is reassembled byte for byte with its original metadata, for every size and chunk size and window, under any order of acknowledgements, loss, duplication or corruption of chunks; otherwise the transfer ends with a reported failure and never with a wrong snapshot. Each started transfer is reported to the consensus module exactly once, chunks of other snapshots or replicas are refused, and a new transfer or role change cancels the old one cleanly.",
 ["inputs", "schedules", "fault_sequences"],
 "all snapshot and chunk sizes, window limits, delivery schedules with loss, duplication, reordering, foreign chunks, role changes and cancellations",
 "snapshot.rs's tests follow scripted transfers of a few chunks (not runnable in this sandbox's suite).",
 ["runtime/src/snapshot.rs"],
 [("sender window and receiver reassembly", "runtime/src/snapshot.rs")],
 ["chunks and acknowledgements exchanged", "snapshot handed to consensus", "status reported"])

prop("C23", "Replicas apply the same committed events in the same order",
 "In a cluster of replicas exchanging messages through an untrusted network that delays, drops, duplicates and reorders them, any two replicas' applied event sequences are one a prefix of the other, each proposed event is applied at most once per replica and marked as owned only at the replica that proposed it, and events are applied in log order. A replica that joins late or falls behind is brought to the same state by snapshot. An event reported as applied by the proposer is never lost while a majority survives.",
 ["schedules", "fault_sequences", "histories", "crash_points"],
 "all network schedules, leader changes, membership changes, log compactions and proposals in small clusters",
 "driver.rs's tests run one replica against mocks; the integration harness delivers every message promptly and cannot run here.",
 ["runtime/src/driver.rs", "runtime/src/consensus.rs", "runtime/src/storage.rs", "runtime/src/snapshot.rs", "runtime/src/communication.rs"],
 [("raft ready processing: persist, send, apply, snapshot", "runtime/src/driver.rs")],
 ["events applied to actors, with index and ownership", "messages handed to the host"])

prop("C24", "The replica accepts host input only in the proper state and never trusts it",
 "A replica not yet started, stopped, or addressed with a message meant for another replica or of unknown shape does not change its replicated state or reach its application; such input is rejected or ignored and, where the protocol defines a reply, answered. Start, stop and membership requests take effect at most once and are answered with the status the protocol defines. No input from the untrusted host makes the trusted application crash.",
 ["inputs", "histories", "fault_sequences"],
 "all sequences of host messages of every kind, in every lifecycle state, with arbitrary identifiers and payload bytes",
 "Tests check a few single rejections on mocks.",
 ["runtime/src/driver.rs", "runtime/src/communication.rs"],
 [("driver state checks and message dispatch", "runtime/src/driver.rs")],
 ["results and messages returned to the host", "calls reaching the application"])

prop("C25", "Application traffic between replicas is only ever sent encrypted",
 "No consensus message or snapshot data leaves a replica in the clear when it is not in the ephemeral single-replica mode: messages for a peer are held until the handshake with that peer has completed, then delivered encrypted with that peer's session, in order, once. Incoming data is accepted only if it decrypts under the session of its sender; data arriving before or without a completed handshake, or failing to decrypt, is never delivered inward.",
 ["schedules", "fault_sequences", "histories"],
 "all interleavings of outgoing messages, handshake steps, failures, ticks and incoming messages with several peers",
 "communication.rs's tests script one peer on mocks (not runnable in this sandbox's suite).",
 ["runtime/src/communication.rs", "runtime/src/handshake.rs", "runtime/src/encryptor.rs"],
 [("per-peer state machine with stash and encryptor", "runtime/src/communication.rs")],
 ["messages handed to the host", "messages delivered inward"])

prop("C26", "The secure-channel handshake completes on both sides or on neither data flows",
 "Two replicas exchanging handshake messages in order both complete and then decrypt each other's messages; a side is complete only when its underlying attested session is open. Messages of the wrong direction, malformed or failing verification move the session to a failed state that never completes and never yields an encryptor, and messages after completion are ignored.",
 ["schedules", "fault_sequences", "inputs"],
 "all numbers of handshake round trips, all interleavings, and all injections of wrong, duplicated or failing messages",
 "handshake.rs's tests script single transitions on mocks.",
 ["runtime/src/handshake.rs", "runtime/src/encryptor.rs"],
 [("client and server handshake state machines", "runtime/src/handshake.rs")],
 ["handshake messages", "completion and encryptors"])

prop("C27", "Peers are admitted only by mutual attestation against the reference values",
 "Every session a replica opens or accepts requires attestation in both directions, presents its own evidence with the configured endorsements, and verifies the peer with a policy for every layer named by the application's reference values and with the clock in force. The relaxed verifier is used only if the reference values ask for it explicitly.",
 ["configurations", "inputs"],
 "all shapes of reference values (restricted kernel, containers with and without hardware root, missing layers) and both session roles",
 "session.rs has no tests; it only builds sessions from the real attestation library.",
 ["runtime/src/session.rs"],
 [("verifier selection by reference values", "runtime/src/session.rs")],
 ["session configuration handed to the attestation library"])

prop("C28", "The tablet cache application forwards every message to the right component",
 "Each incoming consumer request, storage reply and tablet store reply or error delivered to the tablet cache application reaches the component it is meant for with its correlation id and payload unchanged, each ready response and outgoing request is sent exactly once in the message kind the protocol defines, and time ticks advance both the key-value store and its transaction manager. Undecodable messages are ignored without crashing; snapshots and replicated events are never produced.",
 ["inputs", "histories"],
 "all sequences of incoming message kinds with arbitrary headers and payload bytes and ticks",
 "tablet_cache/actor.rs has no tests.",
 [TC+"actor.rs"],
 [("message translation in the actor", TC+"actor.rs")],
 ["commands returned by the application", "calls on the manager and store"])

prop("C29", "The decryptor application handles key requests as its protocol defines",
 "Each key-generation and partial-decryption request to the decryptor application is executed against the replicated key state at its log position, answered once by the replica that received it, and invalid requests are rejected without changing that state.",
 ["histories", "inputs"],
 "all request histories",
 "Only an integration test exists and it needs the external cryptographic library.",
 ["apps/willow/decryptor/actor/src/actor.rs"],
 [("decryptor actor", "apps/willow/decryptor/actor/src/actor.rs")],
 ["responses"])

prop("C30", "The endpoint services answer every host call with what the replica sent in it",
 "Both endpoint services (restricted kernel and Oak Containers) hand each call's message and instant to the replica, one call at a time, and answer it with exactly the messages the replica produced in that call, all of them and in order, and none of another call. Calls made concurrently each get their own answer; a caller that goes away before its answer disturbs no other caller; a replica that reports an unrecoverable error is never used again and no later call is answered as if it worked. Replicas built by the services connect to each other when each admits the other's evidence, and only then.",
 ["inputs", "histories", "schedules"],
 "all sequences of host messages, all interleavings of concurrent calls with cancellations and with failures of the application",
 "service.rs has no tests that run here; its integration tests call it once at a time and never cancel a call.",
 ["runtime/src/service.rs", "runtime/src/session.rs"],
 [("application services", "runtime/src/service.rs"), ("Oak Containers factories", "runtime/src/session.rs")],
 ["answers of the services to the host", "calls the application receives"])

os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
with open("properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    for a in p["anchors"]["files"]: assert os.path.exists("/repo/"+a), a
