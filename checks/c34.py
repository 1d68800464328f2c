RULE = ("a whole node as standalone, as leader, as follower and in bulkload mode; hostile clients (one, or three at a time) sending every command with any number of arguments of any kind (extreme numbers, binary, patterns, cursors, "
        "serialized transactions, intact and mutated), in and out of MULTI, in pieces, broken and abandoned requests, on a follower also malformed and outdated requests of nodes; patterns and subjects of up to 700 kB; "
        "meanwhile a well-behaved client works on its own keys, and another one monitors. Non-trivial: requests by role, command, size and reply")
TECHNIQUE = "ASan/UBSan builds of the real node under generated hostile traffic; online monitors: alive, every request answered in time, valid protocol, the right number of replies, other clients' data right, journal and data after reopening and replay"
NOTE = "not sent: commands meant to do harm (DEBUG, the slow write, FLUSHALL), terms beyond the current one, requests which only a faulty member could send, resilvering after a handshake (C23)"
ASSUMPTIONS = ["members of the cluster, and whoever changes terms by hand, are trusted", "memory is not exhausted"]


def run(c):
    exe = c.build("c34_hostile", ["c34_hostile.cc"], "asan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="globs#1", args={"mode": "globs"}, seed=c.seed, timeout=t)]
    for i in range(c.n(5, 8)):
        runs += [dict(exe=exe, label="%s#%d" % (m, i + 2), args={"mode": m}, seed=c.seed * 10 + i, timeout=t) for m in ("standalone", "leader", "follower", "bulkload")]
    c.par(runs, workers=6)
