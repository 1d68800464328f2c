RULE = ("algebra: random membership operations and texts; journal: changes, commits, truncations, trims, foreign updates and reopening on the real journal against a list model; "
        "live: a real leader of one to five members gets membership commands (valid, unknown, duplicate, malformed, quorum-losing, while one is pending, before it committed anything "
        "of its term, before its replicator runs) while peers come and go and a client writes; lag: an observer 30000 entries behind; follower: a log rewritten by successive leaders, "
        "with a concurrent reader. Non-trivial: distinct situations")
TECHNIQUE = "ASan/UBSan and TSan builds with online monitors: list models of membership and log, the peers' real logs, the truth about who answers"
NOTE = "Random sequences; commands are judged once the leader's status report agrees with who is really up; refusals for lack of up-to-date peers are judged for dead peers and for lags of 30000 entries"


def run(c):
    exe = c.build("c21_members", ["c21_members.cc"], "asan")
    tsan = c.build("c21_members", ["c21_members.cc"], "tsan")
    t = c.n(200, 1800)
    runs = [dict(exe=exe, label="%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
            [("lag", 0), ("live", 0), ("live", 20), ("live", 40), ("live", 60), ("algebra", 0), ("journal", 0), ("follower", 0)]]
    runs += [dict(exe=tsan, label="tsan-%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
             [("follower", 90), ("live", 90)]]
    c.par(runs, workers=7)
