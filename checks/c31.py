RULE = ("journal: seeded sequences of appends, truncations, terms, votes, membership changes, commit index, trimming, policy changes and reopenings; threads: three threads on one journal; node: a follower fed by a fake leader, votes included; "
        "client: a node with policy changes and writes over its client interface, restarts included; periodic: the time until everything written is synced. After every operation the synced bytes of every file are taken and reopened as a journal. "
        "Non-trivial: images opened, and how many of them differ from the journal at that moment because something was not synced yet")
TECHNIQUE = "ASan/UBSan; write/fsync interposition recording what of each file is synced; crash images of the synced bytes only, reopened by the real code and compared with the recorded history"
NOTE = "Directory operations (creating and renaming files) are taken to persist when issued. Creating a journal and erasing it are not judged. The database's own recovery of a log cut short is trusted"


def run(c):
    exe = c.build("c31_power", ["c31_power.cc"], "asan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="%s#%d" % (m, k), args={"mode": m}, seed=c.seed + 100 * k, timeout=t) for k in (1, 2, 3) for m in ("journal", "node", "threads", "client", "periodic") if m in ("journal", "node") or k == 1]
    c.par(runs, workers=6)
