RULE = ("pipeline: random pipelines (reads, writes, MULTI/EXEC/DISCARD in every order, serialized transactions, control, malformed and unknown commands) cut at random byte boundaries, on a standalone and on a raft node, "
        "against the same requests one at a time: same replies in the same order, same data; raft: four pipelining clients of a real leader with its director while leadership comes and goes, another leader overwrites the log, "
        "appends are held, peers vanish and clients hang up: one reply per request, in order, acknowledged increments counted once; stalled: requests waiting for a leadership marker; "
        "tcp: the real poller with clients which send in pieces, read slowly and leave midway. Non-trivial: distinct pipelines and outcomes")
TECHNIQUE = "ASan/UBSan and TSan builds with an online checker of every client's reply stream: each request carries its identity, each reply is matched with it"
NOTE = "Random pipelines and random timing; a request counts as unanswered after 20 to 60 s"


def run(c):
    exe = c.build("c12_reply", ["c12_reply.cc"], "asan")
    tsan = c.build("c12_reply", ["c12_reply.cc"], "tsan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
            [("raft", 0), ("raft", 20), ("pipeline", 0), ("pipeline-raft", 0), ("pipeline", 30), ("tcp", 0), ("tcp-raft", 0), ("stalled", 0)]]
    runs += [dict(exe=tsan, label="tsan-%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
             [("raft", 90), ("tcp-raft", 90)]]
    c.par(runs, workers=6)
