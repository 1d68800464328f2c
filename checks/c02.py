RULE = ("Random sequences of commands, batches, transactions, expirations, flushes and reopens; after each commit the whole raw database is "
        "compared with what the reference model says must exist: descriptors with type, size and version, every field, index, deque item, "
        "lease and expiration event, and nothing else. Non-trivial: distinct (command, outcome) sequences")
TECHNIQUE = "ASan/UBSan build of the real state machine; a monitor dumps and audits every stored record after each commit"
NOTE = "Random sequences over small hostile key pools; every commit followed by a full audit of the records; trusts RocksDB"
ASSUMPTIONS = ["RocksDB itself is trusted", "keys and hints ending in '|' are left out (see K01)"]


def run(c):
    exe = c.build("sm_seq", ["sm_seq.cc"], "asan")
    for i in range(c.n(2, 8)):
        c.run(exe, "audit#%d" % i, {"n": c.n(60, 1000), "len": 200, "dumps": "each"}, seed=c.seed * 100 + 50 + i, timeout=c.n(200, 1500))
