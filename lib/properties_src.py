"""Source of /verif/properties.jsonl: `python3 lib/properties_src.py` rewrites it."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe,
            "state": state or [],
            "hook_needed": hook,
        },
    })


prop("C01", "Every data command replies as a sequential model of its type would",
     "For any sequence of commands on strings, hashes, sets, deques, locality hashes, versioned hashes and leases, every reply (value, count, error kind for a wrong type or bad argument) is the one a plain in-memory model of those types gives. Commands against a key of another type fail and change nothing. Closing and reopening the database at any point changes no later reply.",
     ["inputs", "histories"], "all command sequences, with any byte strings as keys, fields, values and patterns, and any restart points",
     "The repository's state-machine tests run a few fixed sequences on friendly keys, and are not part of the stable test set here; interactions between types, staged deletes and re-creation, empty strings, binary bytes and restarts are unsampled.",
     ["src/StateMachine.cc", "src/StateMachine.hh", "src/Dispatcher.cc", "src/storage/StagingArea.hh", "src/storage/KeyDescriptor.hh", "src/storage/KeyLocators.hh", "src/utils/ParseUtils.hh"],
     [("key descriptors checked on every access", "src/StateMachine.cc WriteOperation / assertKeyType"), ("dispatch of parsed requests", "src/Dispatcher.cc RedisDispatcher")],
     ["RESP reply of each command", "replies after reopening the database"])

prop("C02", "Sizes equal contents, and deletion leaves nothing behind",
     "After any sequence of committed operations the stored size of every hash, set, locality hash, versioned hash and deque equals the number of elements that can be read from it, a key exists exactly while it has elements (only a versioned hash, whose version must survive, outlives its last field), and every stored locality index entry agrees with its data. Deleting the last element, deleting a key, or flushing removes every trace of the key from the database, so a later key of the same name starts empty. No stored record is orphaned: each one belongs to a live key.",
     ["inputs", "histories"], "all histories of writes, deletes and flushes, including several within one transaction",
     "Tests read back through the same commands; nothing walks the raw database after arbitrary histories looking for orphans or size drift.",
     ["src/StateMachine.cc", "src/storage/KeyDescriptor.hh", "src/storage/KeyLocators.hh", "src/storage/ReverseLocator.hh", "src/storage/ConsistencyScanner.cc", "src/storage/KeyDescriptorBuilder.cc"],
     [("size kept in the descriptor, rewritten with each operation", "src/StateMachine.cc WriteOperation::finalize"), ("consistency scan", "src/storage/ConsistencyScanner.cc")],
     ["raw key/value dump of the database at quiescent points"])

prop("C03", "Transactions are atomic, isolated, and read their own writes",
     "A MULTI/EXEC block takes effect entirely or not at all, reads inside a read-write block see the block's earlier writes, and no other client or crash ever sees part of one. A read-only block sees one snapshot. A transaction serialized into one request and parsed back is the same list of commands in the same order, and malformed serializations are rejected without reading outside the data.",
     ["inputs", "schedules", "crash_points"], "all contents of blocks, concurrent readers, and crash points while a block is applied",
     "Tests cover a few hand-written blocks on one thread; torn visibility needs concurrent readers or a kill in the commit window, and the serialization holds for arbitrary binary arguments.",
     ["src/redis/Transaction.cc", "src/redis/Transaction.hh", "src/redis/MultiHandler.cc", "src/Dispatcher.cc", "src/StateMachine.cc", "src/storage/StagingArea.hh"],
     [("one write batch per block", "src/storage/StagingArea.hh"), ("length-prefixed serialization", "src/redis/Transaction.cc")],
     ["replies of a block", "replies of concurrent readers", "state after kill and reopen"])

prop("C04", "Cursor scans return every matching element exactly once",
     "Following the cursor of any scan (keys, hash, set, locality hash, deque, raw storage) from the start to the end returns each element that is present throughout, and matches the pattern, exactly once, in key order and nothing else, whatever the count per call. A scan always terminates, and elements added or removed meanwhile only affect themselves. Glob patterns match what the pattern language says.",
     ["inputs", "histories"], "all contents, patterns and counts, including keys that contain separators, NUL and prefixes of each other, and writes between calls",
     "Tests page through a handful of ASCII keys with one count; cursors that are themselves data (binary, prefix of each other, ending in the separator) are not tried.",
     ["src/StateMachine.cc", "src/Dispatcher.cc", "src/storage/PatternMatching.hh", "src/utils/CommandParsing.hh", "src/storage/ReverseLocator.hh", "deps/StringMatchLen.h"],
     [("next:<item> cursors", "src/utils/CommandParsing.hh, src/Dispatcher.cc"), ("pattern prefix seek", "src/storage/PatternMatching.hh")],
     ["elements and cursors of each scan reply"])

prop("C05", "A versioned hash advances one revision per transaction and publishes it",
     "Each transaction that modifies a versioned hash advances its revision number by exactly one however many of its fields it touches, a transaction that changes nothing leaves it, and the revision number never repeats or goes back while the hash lives. The change set handed to subscribers for a revision is exactly the net field updates of that transaction, and replaying all change sets in order reproduces the hash.",
     ["inputs", "histories"], "all sequences of transactions over versioned hashes, including deletes, re-creation and mixed types in one block",
     "Existing tests exercise two or three revisions; the once-per-transaction rule depends on combinations of sets, deletes and no-ops inside a block.",
     ["src/storage/VersionedHashRevisionTracker.cc", "src/storage/VersionedHashRevisionTracker.hh", "src/StateMachine.cc", "src/Dispatcher.cc", "src/pubsub/Publisher.cc", "src/redis/ArrayResponseBuilder.cc"],
     [("revision tracker of a staging area", "src/storage/VersionedHashRevisionTracker.cc"), ("descriptor start index as version", "src/StateMachine.cc")],
     ["VHGETALL/VHLEN replies", "bytes queued to a subscribed connection", "tracker iteration"])

prop("C06", "A lease has one holder and lapses exactly at its deadline",
     "At any replicated clock value a lease has at most one holder: another claimant is refused until the deadline, the holder can renew, which moves the deadline to the current clock plus the new duration, and at the deadline the lease is gone for everybody, including after a restart. The expiration index always holds exactly one event for each live lease, at its current deadline. The replicated clock never moves backwards, and a claimant learns whether it acquired or renewed.",
     ["inputs", "histories", "crash_points"], "all interleavings of acquire, release, get and clock advance, with any holder names, durations and restarts",
     "Tests walk one lease through a fixed script; expiry, renewal and restart combine in ways that need a model of the clock and of the event index.",
     ["src/StateMachine.cc", "src/storage/ExpirationEventCache.cc", "src/storage/ExpirationEventIterator.cc", "src/storage/LeaseInfo.hh", "src/redis/LeaseFilter.cc", "src/Dispatcher.cc", "src/Timekeeper.cc"],
     [("lazy expiry when the clock advances", "src/StateMachine.cc advanceClock"), ("event index kept in the database and in memory", "src/storage/ExpirationEventCache.cc"), ("timestamp attached before replication", "src/redis/LeaseFilter.cc")],
     ["lease command replies", "raw expiration events", "cache contents against a model"])

prop("C07", "The applied index moves with its entry, exactly once, across crashes",
     "The index of the last applied log entry is stored atomically with the entry's effects: after a kill at any instant the database contains the effects of precisely the entries up to the index it reports. Indices advance by one, entries are never skipped or applied twice, and an entry with no effect still advances the index.",
     ["crash_points", "histories"], "every crash point while applying entries, and every kind of entry (writes, no-ops, failing commands, transactions, flushes)",
     "No test kills a process while it applies entries; the atomicity holds at every instant or not at all.",
     ["src/StateMachine.cc", "src/storage/StagingArea.hh", "src/Dispatcher.cc"],
     [("last applied written in the same batch", "src/StateMachine.cc commitTransaction"), ("assertion on consecutive indices", "src/StateMachine.cc")],
     ["database contents after SIGKILL and reopen, against a replay of the prefix it reports"])

prop("C08", "Replicas that apply the same log hold the same state",
     "Applying the same sequence of log entries from the same initial state gives byte-identical databases and replies, whatever the local clock, restarts or load of the machine. Strings, hashes, sets and locality hashes loaded in bulk mode and finalized are indistinguishable from the same data written normally. Resetting a state machine leaves no memory of what it held.",
     ["histories", "inputs"], "all logs, including failing and redundant commands, with restarts of one replica at any point",
     "Determinism is a relation between two executions; tests look at one.",
     ["src/StateMachine.cc", "src/Dispatcher.cc", "src/storage/KeyDescriptorBuilder.cc", "src/storage/StagingArea.hh"],
     [("all nondeterminism resolved before replication", "src/redis/LeaseFilter.cc"), ("bulk load builds descriptors at the end", "src/storage/KeyDescriptorBuilder.cc")],
     ["raw dumps of two databases"])

prop("C09", "Internal key encoding is unambiguous, ordered and invertible",
     "Two different (type, key, field) combinations never share a stored key, and no key is a stored prefix of another key's fields. Fields of one key sort in field order and decoding any stored key gives back exactly the original parts. Malformed stored keys are reported as such, never read out of bounds.",
     ["inputs"], "all byte strings as key, field and hint",
     "A universal statement over pairs of binary strings; the tests encode a few of them.",
     ["src/storage/KeyLocators.hh", "src/storage/ReverseLocator.hh", "src/storage/InternalKeyParsing.cc", "src/storage/KeyDescriptor.hh", "src/utils/IntToBinaryString.hh", "src/utils/StaticBuffer.hh", "src/storage/KeyConstants.cc"],
     [("escaping of the separator", "src/storage/KeyLocators.hh appendEscapedString"), ("reverse parsing", "src/storage/ReverseLocator.hh")],
     ["encoded bytes", "decoded parts"])

prop("C10", "Requests parse the same however their bytes arrive",
     "The sequence of requests a connection delivers depends only on the bytes received, not on how they are split into reads, and each argument is exactly the bytes sent. Malformed input ends the connection with an error and never crashes, hangs or over-reads. An unauthenticated peer cannot make the server buffer beyond the small documented limits.",
     ["inputs", "schedules"], "all byte streams and all ways of splitting them",
     "Tests feed well-formed requests split at a few places; adversarial lengths, signs and boundaries are not tried.",
     ["src/RedisParser.cc", "src/RedisParser.hh", "src/BufferedReader.cc", "src/BufferedReader.hh", "src/Link.cc", "src/RedisRequest.cc", "src/RedisRequest.hh", "src/memory/RingAllocator.hh"],
     [("incremental parser state", "src/RedisParser.cc"), ("all-or-nothing consume", "src/BufferedReader.cc"), ("limits before authentication", "src/RedisParser.cc fetch")],
     ["parsed requests", "link status", "sanitizer reports"])

prop("C11", "Every reply is one well-formed RESP value carrying its data intact",
     "Each reply the server formats is exactly one complete protocol value whose strings, integers and nesting decode to the data that was given, for any bytes, sizes and push-type setting. Error and status text can never break the framing of later replies. Composite replies hold exactly the announced number of elements.",
     ["inputs"], "all payload bytes and sizes, both protocol modes",
     "Tests compare a few literal strings; framing holds for every payload or a client loses sync.",
     ["src/Formatter.cc", "src/Formatter.hh", "src/redis/ArrayResponseBuilder.cc", "src/redis/RedisEncodedResponse.hh", "src/BufferedWriter.cc"],
     [("length-prefixed formatting", "src/Formatter.cc"), ("array builder counting slots", "src/redis/ArrayResponseBuilder.cc")],
     ["formatted bytes decoded by an independent RESP reader"])

prop("C12", "Every request gets exactly one reply, in the order requests were sent",
     "On any connection the k-th reply answers the k-th request, under pipelining, write batching, MULTI blocks, mixtures of reads and replicated writes, and however commits are delayed or leadership is lost. Batching consecutive writes changes neither replies nor effects, except that a versioned hash counts a batch as one revision. Replies go to the connection that asked, and a closed connection neither receives data nor loses accepted writes.",
     ["schedules", "inputs", "fault_sequences"], "all pipelines of requests, batch limits, arrival splits, commit delays and disconnects",
     "Needs arbitrary pipelines against a reference; tests send short scripted ones.",
     ["src/Connection.cc", "src/Connection.hh", "src/redis/MultiHandler.cc", "src/redis/Transaction.cc", "src/raft/RaftBlockedWrites.cc", "src/raft/RaftWriteTracker.cc", "src/BufferedWriter.cc", "src/Dispatcher.cc"],
     [("pending queue blocks reads behind writes", "src/Connection.cc PendingQueue"), ("phantom batching", "src/redis/MultiHandler.cc")],
     ["bytes written to each link"])

prop("C13", "Only a holder of the password gets past authentication",
     "While a password is set, no command other than authentication has any effect or reveals anything until the connection proves knowledge of the password. A challenge is fresh, can be answered at most once and only before its deadline, and only the exact keyed digest is accepted. A password that is too short, or a password file others can read, is refused at startup.",
     ["inputs", "histories"], "all sequences of authentication attempts, responses and times, and all other commands before success",
     "Tests try one good and a few bad attempts.",
     ["src/auth/AuthenticationDispatcher.cc", "src/redis/Authenticator.cc", "src/redis/Authenticator.hh", "src/QuarkDBNode.cc", "src/Configuration.cc", "src/utils/FileUtils.cc", "src/utils/Random.cc"],
     [("HMAC challenge", "src/redis/Authenticator.cc"), ("gate before dispatch", "src/QuarkDBNode.cc")],
     ["replies before and after authentication attempts", "authorization state of the connection"])

prop("C14", "A published message reaches exactly the matching subscribers",
     "Publishing delivers the message once to each connection subscribed to the channel and once per matching pattern, to nobody else, and returns that number. Subscribing and unsubscribing report the connection's true subscription count, take effect in order, and a disconnected client receives nothing and is forgotten at the latest with the next message it would have received. When the node drops all subscriptions (it is no longer the leader) their connections are told and start from none. Inserting, erasing and iterating the underlying containers stays correct for everything present throughout an iteration. This holds with concurrent subscribe, unsubscribe, publish and disconnect.",
     ["schedules", "inputs"], "all sets of channels, patterns and connections, and all interleavings",
     "Tests cover a few channels on one thread; the matcher works in batches whose boundaries interleave with mutation.",
     ["src/pubsub/Publisher.cc", "src/pubsub/SubscriptionTracker.cc", "src/pubsub/ThreadSafeMultiMap.hh", "src/pubsub/SimplePatternMatcher.hh", "src/Connection.cc", "src/Formatter.cc"],
     [("staged iteration over a locked multimap", "src/pubsub/ThreadSafeMultiMap.hh"), ("per-connection tracker", "src/pubsub/SubscriptionTracker.cc")],
     ["bytes delivered to each connection", "reply counts"])

prop("C15", "The raft journal holds exactly the entries appended, across reopen and crash",
     "After any sequence of appends, commits, truncations, trims and membership entries the journal's contents, size, start, terms, commit index and membership equal those of a simple list model, and the same after reopening. Operations that would break the log's invariants (gap, older term, removing or overwriting committed entries, trimming uncommitted ones, committing beyond the end) are refused and change nothing. A kill at any instant leaves the journal at the state after some completed operation, including every one that returned.",
     ["histories", "crash_points", "inputs"], "all operation sequences, entry contents and kill points",
     "Journal tests run one fixed scenario without reopening at arbitrary points and never crash; here they are not even part of the stable set.",
     ["src/raft/RaftJournal.cc", "src/raft/RaftJournal.hh", "src/raft/RaftCommon.hh", "src/raft/RaftMembers.hh", "src/utils/IntToBinaryString.hh"],
     [("every update is one write batch with its bookkeeping", "src/raft/RaftJournal.cc"), ("checks before each mutation", "src/raft/RaftJournal.cc")],
     ["journal API results against a model", "state after SIGKILL and reopen"])

prop("C16", "Terms only grow, one vote and one leader per term, and restarts remember",
     "A node's term never decreases, in one term it votes for at most one candidate and recognises at most one leader, and it becomes leader only in a term in which it voted for itself. Whatever was granted or observed is remembered after a restart or crash. Concurrent transitions take effect one at a time, and every snapshot a reader takes is one of the states the node really went through.",
     ["schedules", "histories", "crash_points"], "all sequences and interleavings of observations, votes, ascents, and restarts",
     "The state tests use one thread and one script; vote uniqueness must hold for racing threads and across restarts.",
     ["src/raft/RaftState.cc", "src/raft/RaftState.hh", "src/raft/RaftJournal.cc"],
     [("single mutex over transitions, journal written before publication", "src/raft/RaftState.cc"), ("term and vote persisted together", "src/raft/RaftJournal.cc setCurrentTerm")],
     ["return values of transitions", "snapshots sampled concurrently", "state after reopen"])

prop("C17", "Votes go only to up-to-date candidates, and elections need a quorum",
     "A vote or pre-vote is granted only if the candidate's term is current, its log is at least as up-to-date as the voter's, and no other candidate got the vote; a pre-vote changes no state. A candidate which would overwrite committed entries is vetoed. An election succeeds only with grants from a quorum of the full members, counting each once, and any veto prevents success.",
     ["inputs", "histories", "schedules"], "all voter states, requests, orders of replies and membership sizes",
     "Tests check selected request/response pairs.",
     ["src/raft/RaftDispatcher.cc", "src/raft/RaftVoteRegistry.cc", "src/raft/RaftUtils.cc", "src/raft/RaftState.cc", "src/raft/RaftUtils.hh", "src/raft/RaftCommon.hh"],
     [("vote handler", "src/raft/RaftDispatcher.cc requestVote"), ("tally", "src/raft/RaftVoteRegistry.cc")],
     ["vote replies", "term and vote after each request", "tally outcome"])

prop("C18", "Replication accepts only matching entries and never undoes committed ones",
     "A follower accepts entries only when its log matches the leader's at the preceding position, ends up with exactly the leader's entries for the range sent, keeps everything before it, and refuses messages from old terms. Committed entries are never removed or replaced, and the commit index never decreases nor passes the end of the log. Repeating or reordering messages does not change where the logs end up.",
     ["inputs", "histories", "fault_sequences"], "all follower logs and all sequences of replication messages, including duplicated, stale and reordered ones",
     "Tests send a few handcrafted messages.",
     ["src/raft/RaftDispatcher.cc", "src/raft/RaftJournal.cc", "src/raft/RaftUtils.cc", "src/raft/RaftCommon.hh", "src/utils/IntToBinaryString.hh"],
     [("append handler", "src/raft/RaftDispatcher.cc appendEntries"), ("entry comparison", "src/raft/RaftJournal.cc compareEntries")],
     ["append replies", "journal contents after each message"])

prop("C19", "Commit index and leader lease follow the quorum",
     "A leader's commit index is always the highest position stored on a quorum of full members and belonging to the leader's own term, never decreases, and ignores observers. The leader's lease deadline is the latest instant supported by a quorum of heartbeats, so it expires when a quorum stays silent. Replication and quorum status reports agree with the last observation of each target.",
     ["inputs", "schedules"], "all membership sizes and changes, all orders and values of updates, from several threads",
     "Tests check three-to-five-node examples.",
     ["src/raft/RaftCommitTracker.cc", "src/raft/RaftLease.cc", "src/raft/RaftReplicator.cc", "src/raft/RaftCommon.hh", "src/raft/RaftUtils.cc"],
     [("median of match indices", "src/raft/RaftCommitTracker.cc"), ("median of last contacts", "src/raft/RaftLease.cc")],
     ["commit index after each update", "lease deadline after each heartbeat"])

prop("C20", "A cluster is linearizable and loses no acknowledged write under faults",
     "While nodes are killed, restarted, paused or partitioned and members come and go, every history of client operations on the cluster is linearizable: an acknowledged write is seen by all later reads and survives, no write happens twice, a read never returns a value that was not written or half of a transaction, and at most one leader acts per term. Reads rely on the leader's lease: one may be stale only for as long as an expired leader takes to notice, and nodes are assumed not to be suspended for longer than their lease while reads they then serve are judged. No node ends by itself. After faults stop the nodes elect a leader, and all replicas converge to identical logs and state.",
     ["schedules", "fault_sequences", "crash_points", "histories"], "all client histories under all sequences of kills, pauses, partitions and restarts",
     "The cluster tests need a library missing from this checkout and script a few failovers; linearizability is a property of whole concurrent histories.",
     ["src/raft/RaftDirector.cc", "src/raft/RaftReplicator.cc", "src/raft/RaftDispatcher.cc", "src/raft/RaftWriteTracker.cc", "src/raft/RaftCommitTracker.cc", "src/raft/RaftLease.cc", "src/Shard.cc", "src/QuarkDBNode.cc", "src/StateMachine.cc"],
     [("raft", "src/raft"), ("reads served by a leader with a lease", "src/raft/RaftDispatcher.cc service")],
     ["client-side histories", "journal and database dumps of all nodes"])

prop("C21", "Membership changes one committed step at a time and can be rolled back",
     "A membership change is refused while the previous one is uncommitted, or before the leader has committed an entry of its own term; otherwise it changes the set exactly as asked (add observer, promote, demote, remove) and refuses unknown, duplicate or quorum-losing requests. Every node's view of the membership is determined by its log: truncating an uncommitted change restores the previous membership and epoch. Membership text round-trips through its serialized form.",
     ["histories", "inputs"], "all sequences of change requests, commits and truncations",
     "Tests apply one change at a time and never roll back across several epochs.",
     ["src/raft/RaftMembers.hh", "src/raft/RaftJournal.cc", "src/raft/RaftDispatcher.cc", "src/raft/RaftConfig.cc", "src/Utils.cc"],
     [("epoch and previous members stored in the journal", "src/raft/RaftJournal.cc membershipUpdate"), ("set algebra", "src/raft/RaftMembers.hh")],
     ["membership, observers and epoch after each step and reopen"])

prop("C22", "Trimming discards only committed, applied and unneeded log entries",
     "Trimming never removes an entry that is uncommitted, unapplied, needed by a replication target in progress, or among the configured number to keep, and never while trimming is blocked. It removes a contiguous prefix only, and the remaining entries stay readable. Trimming limits are validated and persist.",
     ["histories", "schedules", "configurations"], "all log sizes, limits, blocks and concurrent readers",
     "Trimming needs more than 100000 entries by default; no test reaches the boundaries.",
     ["src/raft/RaftTrimmer.cc", "src/raft/RaftTrimmer.hh", "src/raft/RaftConfig.cc", "src/raft/RaftJournal.cc"],
     [("trimmer thread with blocks", "src/raft/RaftTrimmer.cc"), ("journal refuses to trim the commit index", "src/raft/RaftJournal.cc trimUntil")],
     ["log start over time against limits and blocks"])

prop("C23", "Resilvering installs a complete faithful copy, or leaves the old data alone",
     "Files copied to a node arrive byte-identical, in the same layout, under the shard's own directory only. The live data is swapped only when a resilvering is finished which was started under that identifier, is complete (state machine and journal open, and agree) and is not older than what is there; anything else - refused, interrupted, out of order, unknown or malformed identifiers and file names - leaves the live data untouched and usable, and a crash at any step leaves either the old data or the new. A sender never finishes a resilvering of which any part failed. The history of resilverings records each event and survives its own serialization and restarts.",
     ["fault_sequences", "crash_points", "inputs"], "all sequences of start, copy, finish and cancel calls, all file contents, and crashes between steps",
     "Tests perform one successful resilvering.",
     ["src/ShardDirectory.cc", "src/ShardDirectory.hh", "src/Shard.cc", "src/raft/RaftResilverer.cc", "src/utils/Resilvering.cc", "src/utils/DirectoryIterator.cc", "src/utils/FileUtils.cc"],
     [("supplanted directory swap", "src/ShardDirectory.cc resilveringFinish"), ("history serialization", "src/utils/Resilvering.cc")],
     ["directory trees before and after", "history contents"])

prop("C24", "A checkpoint is a consistent, usable snapshot taken without stopping writes",
     "A checkpoint taken while writes continue opens as a database and journal on its own, contains everything acknowledged before it was requested, and nothing in it is torn: the state machine is at an applied index whose effects it holds exactly, and not ahead of what the journal can account for. Taking a checkpoint changes nothing in the live data, and failing to create one is reported.",
     ["schedules", "histories"], "all moments of taking a checkpoint relative to concurrent writes",
     "Tests checkpoint an idle database.",
     ["src/ShardDirectory.cc", "src/StateMachine.cc", "src/raft/RaftJournal.cc", "src/raft/RaftDispatcher.cc", "src/Shard.cc"],
     [("state machine first, then journal", "src/raft/RaftDispatcher.cc / src/ShardDirectory.cc"), ("rocksdb checkpoints", "src/StateMachine.cc")],
     ["contents of the opened checkpoint"])

prop("C25", "A configuration means what it says, or is rejected",
     "Parsing a configuration yields exactly the stated value of every recognised option in any order, with any spacing and comments, and defaults for the rest. A configuration with an unknown option of this program, a missing or contradictory mandatory option, an invalid mode, port or path is rejected, and unrelated lines are ignored. Parsing never crashes on any text.",
     ["inputs", "configurations"], "all texts, option orders and combinations",
     "Tests parse five or six files.",
     ["src/Configuration.cc", "src/Configuration.hh", "src/config/ConfigurationReader.cc", "src/Utils.cc", "src/raft/RaftTimeouts.cc"],
     [("line-based parser", "src/Configuration.cc"), ("word reader", "src/config/ConfigurationReader.cc")],
     ["parsed options against an independent reading of the text"])

prop("C26", "Buffers handed out never overlap, move or die while in use",
     "Memory handed out by the allocators is disjoint from all other live allocations, keeps its bytes until its last user is gone, and is then released. Small-buffer types hold exactly the bytes written whatever sequence of growing and shrinking is applied. No use reads or writes outside what was requested.",
     ["inputs", "histories", "schedules"], "all allocation sizes, lifetimes and operation sequences",
     "Tests allocate a few blocks and check addresses.",
     ["src/memory/RingAllocator.hh", "src/memory/PinnedBuffer.hh", "src/utils/SmartBuffer.hh", "src/utils/StaticBuffer.hh", "src/RedisRequest.hh", "src/RedisRequest.cc"],
     [("shared ownership of regions", "src/memory/RingAllocator.hh"), ("inline buffer with heap spill", "src/utils/SmartBuffer.hh")],
     ["canaries in live allocations", "sanitizer reports"])

prop("C27", "Shared components are free of data races, lost updates and lost wakeups",
     "Components used from several threads (thread helper, in-flight tracker, synchronized values, per-core counters, periodic sync, state, journal, publisher, clocks) show no data race under any interleaving. Counts are conserved: what was added equals what is reported once updates stop. Stopping or waiting always completes: after a stop request, threads end and waiters wake.",
     ["schedules"], "all interleavings of the public operations from any number of threads on any CPUs",
     "Tests use these helpers from one or two threads for a moment, without race detection.",
     ["src/utils/AssistedThread.hh", "src/utils/InFlightTracker.hh", "src/utils/Synchronized.hh", "src/utils/CoreLocalArray.hh", "src/utils/Statistics.cc", "src/utils/RequestCounter.cc", "src/utils/FsyncThread.cc", "src/raft/RaftState.cc", "src/raft/RaftJournal.cc", "src/pubsub/ThreadSafeMultiMap.hh", "src/Timekeeper.cc", "src/storage/WriteStallWarner.cc"],
     [("mutexes, atomics and condition variables", "src/utils")],
     ["ThreadSanitizer reports", "totals after quiescence", "completion of stop and wait"])

prop("C28", "Health reports and integrity scans tell the truth",
     "The overall health of a node is the worst of its indicators, and each indicator's status matches its inputs. The integrity scan reports corruption when a stored file no longer matches its checksums and only then, and the manifest check warns when the on-disk manifest falls behind the data by more than the allowed time and only then. Health output decodes to the indicators given.",
     ["inputs"], "all combinations of indicators, directory contents and file times",
     "Tests compare two or three combinations.",
     ["src/health/HealthIndicator.hh", "src/storage/ParanoidManifestChecker.cc", "src/storage/ConsistencyScanner.cc", "src/storage/WriteStallWarner.cc", "src/Formatter.cc", "src/StateMachine.cc"],
     [("worst-of combination", "src/health/HealthIndicator.hh"), ("manifest comparison", "src/storage/ParanoidManifestChecker.cc")],
     ["computed status against an independent computation"])

prop("C29", "Clocks never step back and timeouts stay within their bounds",
     "The dynamic time a node reports is the last synchronized clock value plus the steady time elapsed since: between synchronizations it never decreases, it is never below the value last synchronized, it ignores changes of the wall clock, and a synchronization to an older value is refused. It resumes from the persisted value after a restart or reset. Election timeouts are always drawn from the configured closed range, cover it, and differ between draws; the heartbeat interval is respected. Parsing and printing timeouts round-trip.",
     ["inputs", "schedules", "histories"], "all initial values, resets, readings from many threads, and timeout ranges",
     "Tests check a few readings.",
     ["src/Timekeeper.cc", "src/Timekeeper.hh", "src/utils/ClockWrapper.hh", "src/raft/RaftTimeouts.cc", "src/raft/RaftTimeouts.hh", "src/utils/TimeFormatting.cc", "src/raft/RaftContactDetails.hh"],
     [("static plus steady difference", "src/Timekeeper.cc"), ("uniform draw", "src/raft/RaftTimeouts.cc")],
     ["clock readings", "timeout draws"])

prop("C30", "Text and binary conversions round-trip and reject what is malformed",
     "Integers, doubles, server lists, membership lists and time spans converted to text or bytes and back give the original, binary integers sort like the numbers, and malformed text is rejected rather than half-parsed. Splitting, joining, prefix, suffix and pattern helpers agree with their plain definitions on every input. Command names are recognised case-insensitively, with '-' and '_' interchangeable, and nothing else is.",
     ["inputs"], "all integers, strings and lists",
     "Universal over inputs; tests list a dozen.",
     ["src/Utils.cc", "src/Utils.hh", "src/utils/ParseUtils.hh", "src/utils/IntToBinaryString.hh", "src/utils/StringUtils.cc", "src/utils/TimeFormatting.cc", "src/Commands.cc", "src/storage/PatternMatching.hh", "src/utils/VectorUtils.hh", "deps/StringMatchLen.h"],
     [("conversion helpers", "src/Utils.cc, src/utils")],
     ["results against independent definitions"])

prop("C31", "What was acknowledged survives power loss as the fsync policy promises",
     "Under the always-sync policy every journal update (entries, truncations, term, vote, membership, commit index) reached stable storage before the call returned; under the important-updates policy every change of term, vote, membership or policy did, and everything else within seconds. Losing all data that was not synced leaves a journal equal to some earlier point, no earlier than the last synced one. What a node answered, to other nodes or to clients, is never taken back by a loss of power under these policies. The policy is remembered across restarts and cannot be bypassed by any write path.",
     ["crash_points", "histories", "configurations"], "all operation sequences, policies and power-loss points",
     "Tests cannot observe what was synced.",
     ["src/raft/RaftJournal.cc", "src/raft/RaftState.cc", "src/utils/FsyncThread.cc", "src/raft/RaftCommon.hh", "src/raft/RaftConfig.cc"],
     [("write options per policy", "src/raft/RaftJournal.cc shouldSync"), ("periodic sync thread", "src/utils/FsyncThread.cc")],
     ["fdatasync/fsync calls on the write-ahead log", "journal recovered from only the synced bytes"])

prop("C32", "Offline recovery edits exactly what it is asked to",
     "Recovery operations on a stopped node read, write and delete exactly the requested raw key and nothing else, report missing keys, and leave the database openable. Forcing a new configuration changes the membership and identity to the requested ones and keeps the entries and state. Any other command is refused.",
     ["inputs", "histories"], "all raw keys, values and memberships",
     "Tests run one scripted sequence.",
     ["src/recovery/RecoveryEditor.cc", "src/recovery/RecoveryDispatcher.cc", "src/recovery/RecoveryRunner.cc", "src/storage/KeyConstants.cc"],
     [("raw access", "src/recovery/RecoveryEditor.cc"), ("forced reconfiguration", "src/recovery/RecoveryDispatcher.cc")],
     ["raw dumps before and after"])

prop("C33", "Commands do only what their class allows",
     "A command classed as a read changes nothing that is stored, every command that changes user data is classed as a write and so goes through replication, and control commands bypass the log. Internal operations that carry a replicated timestamp or revision cannot be issued by ordinary clients. A follower answers data commands only with a redirection, or with local reads when stale reads were activated.",
     ["inputs", "histories"], "all commands and arguments, in all roles",
     "A statement about the whole command table; tests touch each command's happy path.",
     ["src/Commands.cc", "src/Commands.hh", "src/RedisRequest.cc", "src/redis/InternalFilter.cc", "src/redis/LeaseFilter.cc", "src/Dispatcher.cc", "src/raft/RaftDispatcher.cc"],
     [("command table", "src/Commands.cc"), ("internal filter", "src/redis/InternalFilter.cc")],
     ["raw dumps around each command", "command type of each name"])

prop("C34", "No client input takes a node down",
     "Whatever an authenticated client sends (any command name, number and bytes of arguments, in or out of a transaction, in any order), the node answers with a reply or an error, stays up, and keeps serving other clients correctly. No such input causes an out-of-bounds access, undefined arithmetic, unbounded loop or internal assertion failure.",
     ["inputs", "histories"], "all request sequences",
     "Robustness is over all inputs; tests send valid commands and a few argument-count errors.",
     ["src/Dispatcher.cc", "src/StateMachine.cc", "src/QuarkDBNode.cc", "src/Shard.cc", "src/raft/RaftDispatcher.cc", "src/redis/Transaction.cc", "src/utils/ParseUtils.hh", "src/utils/CommandParsing.hh"],
     [("argument checks in every dispatcher case", "src/Dispatcher.cc")],
     ["sanitizer reports, exceptions, liveness of the node"])

prop("C35", "File helpers report the truth and touch only what they are given",
     "A file written through the helpers reads back byte-identical, or the write is reported as failed; a password file is accepted only if nobody but the owner can read it, and its contents lose only trailing whitespace. Creating a directory path creates exactly the missing levels, listing a directory returns each entry once, and existence tests distinguish files from directories.",
     ["inputs", "fault_sequences"], "all contents, sizes, permissions and directory layouts",
     "Tests use one small file.",
     ["src/utils/FileUtils.cc", "src/utils/FileUtils.hh", "src/utils/DirectoryIterator.cc", "src/ShardDirectory.cc"],
     [("stdio wrappers", "src/utils/FileUtils.cc")],
     ["files and directories on disk"])

prop("C36", "A node starts exactly as it was created, and nothing existing is overwritten",
     "quarkdb-create, ShardDirectory::create and obliterate leave a node with exactly the requested identity, members, log start, fsync policy and contents (an adopted state machine is moved whole); a refused invocation changes nothing that was there. quarkdb-validate-checkpoint accepts exactly the sound checkpoints. A server process told to stop loses no acknowledged write and exits cleanly, and the documented restore and bulkload procedures end in a node or cluster holding exactly the data they started from.",
     ["inputs", "histories", "schedules"], "all invocations and states of the disk, all loads at the moment of a signal",
     "No test runs the executables; the procedures span several processes, and the state of the disk before them is arbitrary.",
     ["tools/quarkdb-create.cc", "tools/quarkdb-validate-checkpoint.cc", "tools/quarkdb-recovery.cc", "tools/quarkdb-server.cc", "src/ShardDirectory.cc", "src/StandaloneGroup.cc", "src/raft/RaftJournal.cc", "src/Shard.cc"],
     [("creation of a shard", "src/ShardDirectory.cc"), ("tools", "tools")],
     ["files left behind, exit codes, replies over TCP"])

prop("C37", "What is no longer used is given back",
     "Closing a connection in whatever state, finishing or refusing a request, unsubscribing, losing an election or ending a leadership, dropping a snapshot, finishing a scan, and closing a journal, state machine, group or node give back the memory, descriptors, threads and disk space that were taken for them: a node that serves the same traffic again and again does not grow, and overwritten or deleted data stops occupying space once compacted.",
     ["histories", "inputs", "schedules"], "all repetitions of all traffic, all ways a client may leave",
     "Tests end after a single round, and run without leak detection; a slow loss shows only after long repetition.",
     ["src/netio/AsioPoller.cc", "src/Connection.cc", "src/BufferedReader.cc", "src/BufferedWriter.cc", "src/pubsub/Publisher.cc", "src/StateMachine.cc", "src/storage/StagingArea.hh", "src/ShardDirectory.cc", "src/raft/RaftReplicator.cc", "src/raft/RaftTalker.cc", "src/raft/RaftJournal.cc", "src/utils/FileUtils.cc", "src/utils/DirectoryIterator.cc"],
     [("connections of departed clients", "src/netio/AsioPoller.cc"), ("snapshots of the database", "src/StateMachine.cc"), ("temporary snapshots of a shard", "src/ShardDirectory.cc")],
     ["live heap, descriptors, threads, bytes on disk between rounds"])


def main():
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")


if __name__ == "__main__":
    main()
