RULE = ("history: the real node is one of three or five members of a simulated cluster obeying the Raft rules; random elections (the real node votes, runs and leads "
        "too), appends, membership entries, trims, restarts and deliveries of its leaders' messages, repeated, late, partial and reordered, half of them over a real "
        "connection; compare: journals, also trimmed, asked which of the entries they are sent they hold already; storm: four threads deliver messages of present and past leaders at once while a monitor reads. Non-trivial: distinct message situations")
TECHNIQUE = "ASan/UBSan and TSan builds with an online monitor: a reference follower, and committed entries as recorded from the leaders, compared after every message"
NOTE = "Up to five members, logs of some hundreds of entries; message order is random, not exhaustive"


def run(c):
    exe = c.build("c18_append", ["c18_append.cc"], "asan")
    tsan = c.build("c18_append", ["c18_append.cc"], "tsan")
    t = c.n(200, 1500)
    runs = [dict(exe=exe, label="%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
            [("history", 0), ("history", 50), ("history", 60), ("history", 70), ("storm", 0), ("compare", 0)]]
    runs.append(dict(exe=tsan, label="tsan-storm", args={"mode": "storm"}, seed=c.seed + 90, timeout=t))
    c.par(runs)
