RULE = ("tracker: random updates, drops, moves of the revision tracker against a list model; end-to-end: random transactions on versioned hashes "
        "(and other types, deletions, flushes, reopens) with subscribers by channel, by pattern and with push types: every reply, revision number "
        "and change set compared with the reference model, the replayed change sets with the hash; concurrent: parallel writers, each revision heard once and in order. "
        "Non-trivial: distinct operation/outcome sequences, distinct revisions heard")
TECHNIQUE = "ASan/UBSan build with real subscribers on sockets; a monitor compares every published revision with a reference model and replays them"
NOTE = "Random transactions on small key and field pools; trusts RocksDB and the model"
ASSUMPTIONS = ["RocksDB itself is trusted", "a revision counts per transaction or per write batch, as the raft log has one entry for it"]


def run(c):
    exe = c.build("c05_vhash", ["c05_vhash.cc"], "asan")
    t = c.n(200, 1500)
    c.par([dict(exe=exe, label="vhash-tracker", args={"mode": "tracker"}, timeout=t),
           dict(exe=exe, label="vhash-e2e#0", args={"mode": "e2e"}, timeout=t),
           dict(exe=exe, label="vhash-e2e#1", args={"mode": "e2e"}, seed=c.seed * 100 + 1, timeout=t),
           dict(exe=exe, label="vhash-misc", args={"mode": "misc"}, timeout=t)])
