RULE = ("tracker: random updates, target changes (single node, observers, former members) on the real commit tracker and journal, judged by the definition after each; "
        "lease: the same for heartbeats, votes and deadlines; both also from several threads with a monitor; leader: a real leader replicating over loopback to one to four "
        "members and an observer played by the harness, which start behind or diverged, withhold, vanish and come back. Non-trivial: distinct situations")
TECHNIQUE = "ASan/UBSan and TSan builds with online monitors: the quorum definition recomputed from every update, and from the peers' actual logs at every commit seen"
NOTE = "Random sequences; a leader's commits are sampled every 0.3 ms; up to five members"


def run(c):
    exe = c.build("c19_quorum", ["c19_quorum.cc"], "asan")
    tsan = c.build("c19_quorum", ["c19_quorum.cc"], "tsan")
    t = c.n(200, 1500)
    runs = [dict(exe=exe, label="%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
            [("leader", 0), ("leader", 50), ("leader", 60), ("tracker", 0), ("lease", 0), ("lease-votes", 0), ("tracker-threads", 0), ("lease-threads", 0)]]
    runs += [dict(exe=tsan, label="tsan-%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
             [("tracker-threads", 90), ("lease-threads", 90)]]
    c.par(runs, workers=6)
