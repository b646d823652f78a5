NOT_APPLICABLE = {
    'C29': 'The decryptor application is a thin adapter around the secure_aggregation (Willow) library, whose sources, protos and lattice cryptography are not in this sandbox, so neither the code nor an oracle for its results can be built here.',
}
CLAIMS = {
    'C01': ('property-based testing: generated rings, regions and queries against a routing oracle',
            'Routing of every generated query checked against the definition of ownership, component and manager level; listings answered in any order, late and failing. Assumes known tables, region sizes of at least 2^21 and listings as the tablet store gives them.'),
    'C02': ('stateful property-based testing: generated histories of commits, conflicts and listings against a versioned model of the tablet store',
            'Every version handed out is checked to be committed, not older than anything reported or handed out before; waiting resolutions always have an outstanding listing.'),
    'C03': ('stateful property-based testing: generated batches of loads and stores on two caches against a model of the data storage that fails, corrupts, swaps and delays replies',
            'Every completed load is compared with what was stored under the metadata; the result of a batch must follow from the fate of its parts.'),
    'C04': ('stateful property-based testing: generated batches of stores on two caches against a model of the data storage that fails and delays replies',
            'New metadata, its hash, size and location, the bytes sent and the result of the batch are compared with an independent computation.'),
    'C05': ('stateful property-based testing: generated batches of loads and stores against a model of the entries of the cache',
            'Requests sent are compared with what must be missing in the cache, after failures of any kind, with batches sharing requests.'),
    'C06': ('stateful property-based testing: generated concurrent transactions on several nodes against a model of tablet store and data storage',
            'Every commit request is compared with what the handlers of exactly one waiting transaction read and wrote. Histories of up to 120 steps on 1 to 3 nodes with any interleaving of execution and delivery of requests. Processing steps of one transaction touch different tablets (the known finding is listed).'),
    'C07': ('stateful property-based testing: generated concurrent transactions with generated faulty replies to commits',
            'The reported outcome is compared with what the delivered reply says, for replies damaged in any of a dozen ways. Histories of up to 120 steps on 1 to 3 nodes with any interleaving of execution and delivery of requests. Processing steps of one transaction touch different tablets (the known finding is listed).'),
    'C08': ('stateful property-based testing: generated concurrent transactions, faults and crashes against a serial replay in commit order',
            'Everything a committed transaction saw is compared with a serial replay; blobs of all committed versions must be there; a fresh node must read the result. Histories of up to 120 steps on 1 to 3 nodes with any interleaving of execution and delivery of requests. Processing steps of one transaction touch different tablets (the known finding is listed).'),
    'C09': ('stateful property-based testing: generated histories with arbitrary faults, stray messages and crashes followed by bounded rounds of answers',
            'After any generated history everything must finish within 40 rounds of answers and every node must succeed within 4 attempts. Histories of up to 120 steps on 1 to 3 nodes with any interleaving of execution and delivery of requests. Processing steps of one transaction touch different tablets (the known finding is listed).'),
    'C10': ('stateful and metamorphic property-based testing: generated histories with stray messages compared with the same history without them',
            'Stray messages at quiescent points cause no message, no handler call and no outcome, and nothing later goes wrong that would not without them. Histories of up to 120 steps on 1 to 3 nodes with any interleaving of execution and delivery of requests. Processing steps of one transaction touch different tablets (the known finding is listed).'),
    'C11': ('stateful property-based testing: generated requests to several nodes with faults and crashes, histories decided by a linearizability checker',
            'Per-key linearizability (which composes) of all responses including those of a node started afterwards. Commits whose outcome the node is not told are excluded: the store executes such requests again by design.'),
    'C12': ('stateful property-based testing: generated requests to several nodes with arbitrary faults, and on a scripted transaction context that fails at any phase',
            'Exactly one response of the right kind for every request at a node that lives, after a bounded number of later requests that pass the thresholds.'),
    'C13': ('stateful property-based testing: generated requests on a scripted transaction context against a model of where every request is',
            'Every resolution and transaction started is compared with the numbers of pending requests in a model; starts that are due must happen without further input.'),
    'C14': ('stateful property-based testing: generated logging from several loggers and threads against a model of the records',
            'Both builds of the logger: for the trusted application (no_std) and the hosted one. Threads are real, so their schedules are sampled, not enumerated. A third facet drives a replica whose application logs in every callback and reads the records among the messages to the host.'),
    'C15': ('property-based testing: values generated from the published schemas, exchanged between them and the schemas of the tree; damaged and arbitrary bytes',
            'Every field and enumeration value of every message of the five schemas, also with fields in another order, left out, unknown or unpacked. The published schemas are copies pinned in harness/protocheck/golden.'),
    'C16': ('stateful property-based testing: generated requests, also malformed ones, to the tablet store actor against a reference store',
            'Every reply and every later listing is compared with a reference implementation written from the protocol. Replicated through a log that the harness keeps.'),
    'C17': ('stateful property-based testing: generated checks and updates with right, wrong and extreme versions against a reference store',
            'Every accepted and refused operation is compared with the reference; versions up to the largest.'),
    'C18': ('property-based testing: generated tables and arcs, also empty, full and wrapping ones, against the definition of the arc',
            'Every listing is compared with the tablets that own a hash of the arc.'),
    'C19': ('stateful property-based testing: generated histories on several replicas with snapshots taken and loaded at any point',
            'State and replies of replicas are compared with each other; only the proposer answers, once.'),
    'C20': ('stateful property-based testing: generated compare-and-swap histories on several replicas, snapshots at any point, against a map',
            'Every reply and every replica is compared with a sequential model at the position in the log.'),
    'C21': ('stateful property-based testing: generated histories of raft storage operations against a reference log',
            'Every answer of the storage (entries, terms, bounds, snapshots, size limits) is compared with a list of all entries. Operations within the contract of the raft library.'),
    'C22': ('stateful property-based testing: generated transfers with lost, repeated, reordered, foreign and malformed chunks against the snapshots sent',
            'A received snapshot must be one that was sent, byte for byte; transfers end; windows and chunk sizes are kept; roles can change at any point.'),
    'C23': ('stateful model-based testing: generated clusters of the real replica with generated schedules, losses, crashes, membership changes and snapshots against one agreed log',
            'Two to five replicas (driver, Raft storage, snapshots, secure channel) on a simulated host; every applied event, answer and report is compared with one log, and after the faults end every command has to be answered within bounded time. Raft itself is a stand-in built from the published raft crate because the fork is not available; Oak is a stand-in as well.'),
    'C24': ('stateful model-based testing and structured fuzzing: generated sequences of every kind of host message against a model of the lifecycle, and hostile ones within a working cluster',
            'Every call is compared with what the lifecycle allows: set up first, no message after stop, application messages answered or refused; malformed, misrouted and forged messages must not terminate a replica or keep the cluster from working.'),
    'C25': ('stateful model-based testing: the communication module against scripted sessions and against real sessions over a lossy network',
            'Nothing leaves unencrypted, messages go to whom they are for in order, nothing is accepted but what the peer encrypted, failed handshakes are tried again, and what could not be sent is reported. The cryptography is a stand-in that authenticates and refuses replays.'),
    'C26': ('stateful model-based testing and structured fuzzing: handshakes with messages dropped, repeated, crossed, tampered and malformed against a model of the states',
            'A session is complete on a side only after the prescribed exchange; encryptors exist only then; a broken handshake never completes. Encryptors decrypt what the other side encrypted, once. Oak is a stand-in.'),
    'C27': ('property-based testing: generated reference values, evidence, endorsements, keys and times against a definition of whom to admit, with tampered handshakes; and through the replica with a peer that connects',
            'Both roles; all shapes of reference values with any layer missing; sessions open exactly if each side admits the other. The verifiers of Oak are stand-ins with the documented behaviour, so the choice and the arguments of the verifier are judged, not the verification of real evidence.'),
    'C28': ('stateful property-based testing: generated messages to the tablet cache actor with recording components, and with the real ones',
            'What reaches each component and what leaves the actor are compared one by one; with the real components requests must be answered.'),
    'C30': ('stateful property-based testing: generated call sequences, generated interleavings of concurrent and cancelled calls, and pairs of replicas, on both endpoint services against what the application recorded',
            'Answers are compared message by message with what the application did in that call; concurrent calls are opened, polled, finished and cancelled in a generated order with the replica held at a gate. The Oak SDKs, tonic and the attestation are stand-ins; tokio is real, so wake-ups within the worker thread are sampled. Calls to a replica that has failed need not be answered at all.'),
}
