RULE = ("kill: a child applying random log entries (single commands, batches, MULTI, markers) is killed before, during or after its k-th write "
        "system call; the reopened state machine must report an index between the last entry that returned and the one in flight, hold exactly "
        "the records of the model after that many entries, have that clock, refuse any other index and carry on correctly; model: index after "
        "each commit. Non-trivial: distinct (program, crash point, mode)")
TECHNIQUE = "kill-at-every-write crash injection on an ASan/UBSan build, stored records compared with a reference model of the applied entries"
NOTE = "Sampled crash points at system-call granularity after creation of the database; trusts RocksDB and the model of the commands"
ASSUMPTIONS = ["a killed process keeps what it passed to write(2)", "RocksDB itself is trusted", "kills while the database is being created are left out"]


def run(c):
    exe = c.build("sm_kill", ["sm_kill.cc"], "asan")
    c.par([dict(exe=exe, label="kill-%s#%d" % (f, i), args={"n": c.n(4, 60), "focus": f, "points": c.n(16, 60)}, seed=c.seed * 100 + i, timeout=c.n(250, 1500))
           for i, f in enumerate(["mix", "mix", "multi", "leases"])])
