RULE = ("real nodes in processes of their own on loopback sockets. kill: SIGKILL and clean shutdown of one, two or all nodes, restarts; isolate: nodes or pairs cut off, links slowed down; pause: SIGSTOP and SIGCONT; mixed: all of them; members: observers added, promoted, demoted, members removed, joining nodes resilvered, with all other faults. fresh: the first moments of a leader whose log holds acknowledged entries it does not know to be committed. "
        "Six clients write unique values, read, push, count, run transactions and acquire leases, alone and in pipelines. Non-trivial: values laid out as zones, results of increments and pushes")
TECHNIQUE = "offline linearizability checker (zones of unique values) over recorded client histories; exactly-once and order checkers for pushes and increments; online monitor of terms, leaders and commit indices; comparison of all journals and databases after convergence; ASan/UBSan and TSan nodes"
NOTE = "Replies which did not come, MOVED and unavailable make a write's outcome unknown"
ASSUMPTIONS = ["reads by a leader rely on its lease: they may be as old as it takes an expired leader to notice (judged with a slack of 500 ms and four times the worst wake-up delay seen), reads by a node which was suspended for a while are not judged until a second after",
               "partitions are symmetric; followers may elect another leader before the lease of the old one has expired (it then takes at most a lease to notice)", "the lease clock may fall behind by at most five seconds across changes of leadership"]


def run(c):
    exe = c.build("c20_cluster", ["c20_cluster.cc"], "asan")
    t = c.n(400, 1500)
    runs = [dict(exe=exe, label="%s#1" % m, args={"mode": m}, seed=c.seed, timeout=t) for m in ("mixed", "members", "isolate", "kill", "pause")]
    tsan = c.build("c20_cluster", ["c20_cluster.cc"], "tsan")
    runs.append(dict(exe=tsan, label="tsan-mixed#1", args={"mode": "mixed"}, seed=c.seed + 50, timeout=t))
    fresh = c.build("c20_fresh", ["c20_fresh.cc"], "asan")
    runs += [dict(exe=fresh, label="fresh#%d" % k, args={"mode": "fresh"}, seed=c.seed + 7 * k, timeout=t) for k in range(c.n(1, 3))]
    if c.thorough:
        runs += [dict(exe=tsan, label="tsan-%s#2" % m, args={"mode": m}, seed=c.seed + 60, timeout=t) for m in ("mixed", "members")]
        for k in range(3):
            runs += [dict(exe=exe, label="%s#%d" % (m, k + 2), args={"mode": m}, seed=c.seed + 100 * (k + 1), timeout=t) for m in ("mixed", "members")]
    c.par(runs, workers=3)
