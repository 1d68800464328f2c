RULE = ("cache: the expiration cache against a map model; leases: random acquire/get/release/delete/overwrite/flush sequences with clocks around every "
        "deadline and behind, single, batched and in MULTI, with reopen and reset: each reply, the stored lease, the one expiration event per lease, the "
        "pending list and the clock compared with the model after each commit; kill: the same state after a kill at any write. "
        "Non-trivial: distinct (command, outcome) sequences, (program, crash point, mode)")
TECHNIQUE = "ASan/UBSan build under a reference-model monitor auditing every reply, record and expiration event, plus kill-at-every-write crash injection"
NOTE = "Random command sequences over few keys, holders and instants near deadlines; trusts RocksDB and the model; timestamps as the log would carry them"
ASSUMPTIONS = ["RocksDB itself is trusted", "clock values stay below 2^63 ms"]


def run(c):
    exe = c.build("c06_lease", ["c06_lease.cc"], "asan")
    kill = c.build("sm_kill", ["sm_kill.cc"], "asan")
    t = c.n(200, 1800)
    c.par([dict(exe=exe, label="lease-cache", args={"mode": "cache"}, timeout=t),
           dict(exe=exe, label="lease-run#0", args={"mode": "run"}, timeout=t),
           dict(exe=exe, label="lease-run#1", args={"mode": "run"}, seed=c.seed * 100 + 1, timeout=t),
           dict(exe=kill, label="lease-kill", args={"n": c.n(4, 60), "focus": "leases", "points": c.n(16, 60)}, seed=c.seed * 100 + 7, timeout=t)])
