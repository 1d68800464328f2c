RULE = ("replicas: a random log applied by two state machines, the second with another wall clock, restarts, compactions and concurrent reads: every "
        "reply and every stored record must be identical; then reset, compared with a new one, and the log again; bulk: the same strings, hashes, sets "
        "and locality hashes written normally and bulk loaded must give the same records, reads and later behaviour. "
        "Non-trivial: distinct logs")
TECHNIQUE = "ASan/UBSan build; a differential monitor compares replies and raw records of replicas under perturbation (clock, restart, compaction, readers)"
NOTE = "Random logs; bulk load judged for the types it supports; trusts RocksDB; the last replica's wall clock is shifted by interposing clock_gettime"
ASSUMPTIONS = ["RocksDB itself is trusted", "bulk load is given each locality hash field with one hint only"]


def run(c):
    exe = c.build("c08_replica", ["c08_replica.cc"], "asan")
    t = c.n(250, 1800)
    c.par([dict(exe=exe, label="replica-log#0", args={"mode": "replicas"}, timeout=t),
           dict(exe=exe, label="replica-log#1", args={"mode": "replicas"}, seed=c.seed * 100 + 1, timeout=t),
           dict(exe=exe, label="replica-bulk", args={"mode": "bulk"}, timeout=t)])
