RULE = ("table: every command name in many spellings against an independent class table, names close to commands, transactions by what they hold; reads: every read in every way of dispatching on a populated state machine; "
        "leader, standalone: every command, alone, pipelined, in MULTI and as serialized transaction, on a whole node, with log size and raw dump taken around each; "
        "follower: every command on a follower changing leaders, losing them, with and without stale reads. Non-trivial: commands by kind of reply and role")
TECHNIQUE = "ASan/UBSan builds of the real node; online monitor of log growth, raw dumps and replies around every command, in every role"
NOTE = "DEBUG, MONITOR and commands meant to change the term are not among the generated ones; candidates are not visited (leaderless followers are)"


def run(c):
    exe = c.build("c33_class", ["c33_class.cc"], "asan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="%s#1" % m, args={"mode": m}, seed=c.seed, timeout=t) for m in ("table", "reads")]
    for i in range(c.n(4, 6)):
        runs += [dict(exe=exe, label="%s#%d" % (m, i + 2), args={"mode": m}, seed=c.seed * 10 + i, timeout=t) for m in ("leader", "standalone", "follower")]
    c.par(runs, workers=6)
