RULE = ("every pair and random vectors of indicators, their text and RESP form; manifest/table time pairs and directories with chosen mtimes; "
        "injected file system sizes around every threshold; databases scanned sound and with one flipped byte; stall transitions; leaders of clusters of 2 to 5 whose peers answer, are gone or are silent. "
        "Non-trivial: distinct status vectors, time differences, directory contents, size classes, corrupted offsets")
TECHNIQUE = "ASan/UBSan build, independent recomputation of each indicator, fault injection (statfs stand-in, corrupted tables, forged mtimes)"
NOTE = "Sampled inputs; the corruption flips one bit in the first half of a table file"
ASSUMPTIONS = ["RocksDB's own block checksums"]


def run(c):
    exe = c.build("c28_health", ["c28_health.cc"], "asan")
    lead = c.build("c28_leader", ["c28_leader.cc"], "asan")
    c.par([dict(exe=exe, label="health#1", seed=c.seed, timeout=c.n(300, 1500)),
           dict(exe=lead, label="leader#1", seed=c.seed, timeout=c.n(300, 1500)),
           dict(exe=lead, label="leader#2", seed=c.seed + 50, timeout=c.n(300, 1500))])
