RULE = ("rounds of the same traffic: clients over TCP closed in twelve ways (in the middle of an argument, of a transaction, with replies unread, subscribed, reset); reads, writes, transactions, refused requests and subscriptions; opening and closing of journals, state machines, shards, groups and nodes; snapshots, checkpoints, checksum scans; elections, leaderships, links to peers absent, slow and refusing; file helpers. "
        "After each round descriptors, threads and the live heap (counted by allocator hooks) are compared with the rounds before. Non-trivial: rounds of at least two uses, connections, leaderships, compactions")
TECHNIQUE = "ASan builds with allocator hooks counting live bytes and blocks, /proc for descriptors and threads, directory sizes after compaction; a monitor over the series of rounds: nothing may grow in each and every one"
NOTE = "A loss is noticed once it occurs in every round; what is lost only once, or only in circumstances the rounds do not contain, is not"


def run(c):
    exe = c.build("c37_release", ["c37_release.cc"], "asan")
    t = c.n(300, 900)
    modes = ["clients", "clients-raft", "requests", "quiet", "reopen", "leader", "space", "files"]
    c.par([dict(exe=exe, label="%s#%d" % (m, k), args=dict(mode=m), seed=c.seed + k * 100, timeout=t) for k in range(c.n(1, 3)) for m in modes], workers=4)
