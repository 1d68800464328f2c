RULE = ("model: random transition sequences with restarts against a reference state machine, state, journal and snapshots compared after "
        "each; crash: the process is killed at sampled write calls and the restarted state must remember every completed transition; threads: "
        "concurrent histories of transitions and snapshots checked for linearizability, with a watcher asserting monotonic terms, one vote and "
        "leader per term, and persistence before publication. Non-trivial: distinct (state, transition) pairs, crash points, history shapes")
TECHNIQUE = "ASan and TSan builds, reference-model monitor, linearizability checking of recorded histories, kill-at-write injection"
NOTE = "Random sequences and schedules; histories of about 14 events over 4 threads"
ASSUMPTIONS = ["a killed process keeps what it passed to write(2)", "RocksDB itself is trusted"]


def run(c):
    exe = c.build("c16_state", ["c16_state.cc"], "asan")
    c.run(exe, "state-model", {"mode": "model"}, timeout=c.n(150, 1200))
    c.run(exe, "state-crash", {"mode": "crash"}, timeout=c.n(150, 1200))
    c.run(exe, "state-threads", {"mode": "threads"}, timeout=c.n(150, 1200))
    tsan = c.build("c16_state", ["c16_state.cc"], "tsan")
    c.run(tsan, "state-tsan", {"mode": "threads"}, timeout=c.n(150, 1200), seed=c.seed + 1)
