RULE = ("assisted: threads started, stopped, joined, moved, reused and coordinating others by several drivers, each body counted and timed; inflight: registration against closing and draining, on changing CPUs and with CPU numbers beyond the count; "
        "values: synchronized values read whole and in order, sums of statistics and requests, history; fsync: every write followed by a periodic sync; journal: appends, truncations, commits, terms, trims, membership changes, readers and waiters at once; "
        "raft: state transitions with waiters, leases, heartbeats, commit tracking, clocks, resilvering history. Non-trivial: kinds of threads and the order they are ended in, load per barrier, totals")
TECHNIQUE = "ThreadSanitizer and ASan/UBSan builds of the real components under stress; conservation totals, monotonicity and torn-value monitors; watchdog for lost wakeups and stops which do not complete"
NOTE = "A wait may end early; only ending late is judged. Concurrent use within each component's documented rules: one owner joins a thread, others may ask it to stop"


def run(c):
    exe = c.build("c27_shared", ["c27_shared.cc"], "asan")
    tsan = c.build("c27_shared", ["c27_shared.cc"], "tsan")
    pub = c.build("c14_pubsub", ["c14_pubsub.cc"], "tsan")
    t = c.n(240, 1800)
    modes = ("journal", "values", "assisted", "inflight", "raft", "fsync")
    runs = [dict(exe=tsan, label="tsan-%s#1" % m, args={"mode": m}, seed=c.seed + 50, timeout=t) for m in modes]
    runs += [dict(exe=exe, label="%s#1" % m, args={"mode": m}, seed=c.seed, timeout=t) for m in modes]
    runs += [dict(exe=pub, label="pubsub-%s#1" % m, args={"mode": m}, seed=c.seed + 70, timeout=t) for m in ("mapt",)]
    c.par(runs, workers=4)
