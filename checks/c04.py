RULE = ("walk: complete walks of every kind of scan over names that are prefixes of each other and full of separators, with changing counts, patterns and neighbouring keys, changes between the pages, at the cursor, and in the same transaction, every listed element looked up in a model; "
        "threads: walks while another thread commits; glob: patterns and derived prefixes against an independent matcher; journal: RAFT-JOURNAL-SCAN while the journal grows, is truncated and trimmed. "
        "Non-trivial: kinds, lengths and numbers of changes of walks, patterns by outcome")
TECHNIQUE = "ASan/UBSan and TSan builds of the real state machine and dispatcher; online monitor of whole walks (present throughout implies listed once, ordered, nothing else, bounded number of pages); independent glob matcher as oracle"
NOTE = "Patterns whose meaning the pattern language leaves open (unclosed brackets, trailing backslash, ranges with special ends) are not judged. Tombstone scans are left out"


def run(c):
    exe = c.build("c04_scan", ["c04_scan.cc"], "asan")
    tsan = c.build("c04_scan", ["c04_scan.cc"], "tsan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="walk#%d" % i, args={"mode": "walk"}, seed=c.seed * 10 + i, timeout=t) for i in range(c.n(3, 6))]
    runs += [dict(exe=exe, label="%s#1" % m, args={"mode": m}, seed=c.seed, timeout=t) for m in ("glob", "journal", "threads")]
    runs += [dict(exe=tsan, label="tsan-threads#1", args={"mode": "threads"}, seed=c.seed + 50, timeout=t)]
    c.par(runs, workers=6)
