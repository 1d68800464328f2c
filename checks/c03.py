RULE = ("serialize: random transactions through serialize/deserialize and through one request, and damaged serializations (truncated, extended, "
        "bit flips, evil lengths) in exact heap copies, judged by an independent decoder; isolation: a writer replaces all values of six keys "
        "in one block while readers' single reads, batches and blocks must show one generation only, the newest or newer; writers: concurrent "
        "read-write blocks conserve counters; model: blocks read their own writes (reference model); kill: a kill leaves whole blocks only. "
        "Non-trivial: distinct serialized texts, (reader, generation seen, kind of read), (program, crash point, mode)")
TECHNIQUE = "ASan/UBSan build with an online snapshot/generation checker, a reference-model monitor, and kill-at-every-write crash injection"
NOTE = "Random transactions; isolation judged on concurrent executions as scheduled here; sampled crash points; trusts RocksDB"
ASSUMPTIONS = ["RocksDB itself is trusted", "a killed process keeps what it passed to write(2)"]


def run(c):
    exe = c.build("c03_tx", ["c03_tx.cc"], "asan")
    sm = c.build("sm_seq", ["sm_seq.cc"], "asan")
    kill = c.build("sm_kill", ["sm_kill.cc"], "asan")
    t = c.n(200, 1800)
    c.par([dict(exe=exe, label="tx-serialize", args={"mode": "serialize"}, timeout=t),
           dict(exe=sm, label="tx-model", args={"n": c.n(40, 500), "len": 120, "multi": 70, "swallow": "ignore"}, seed=c.seed * 100 + 31, timeout=t),
           dict(exe=kill, label="tx-kill", args={"n": c.n(3, 60), "focus": "multi", "points": c.n(16, 60)}, seed=c.seed * 100 + 33, timeout=t)])
    c.par([dict(exe=exe, label="tx-isolation#%d" % i, args={"mode": "isolation"}, seed=c.seed * 2 + i, timeout=t) for i in range(2)])
    c.run(exe, "tx-writers", {"mode": "writers"}, timeout=t)
