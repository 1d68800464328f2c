RULE = ("standalone, raft: four clients write multi-command transactions without pause while checkpoints are taken through the node, some opened as nodes of their own; log: a journal appended to, truncated, committed and applied by three threads during checkpoints and snapshots; "
        "refused: occupied, missing and foreign places, and a file system failing once at every operation on the files of a checkpoint; swap: checkpoints while resilverings replace the contents. "
        "Non-trivial: writers caught between confirmation and issue, distinct distances, operations failed")
TECHNIQUE = "ASan/UBSan and TSan builds; offline checkers comparing every checkpoint with a replay of the transactions confirmed before it and with a replay of its own journal; fault injection on the files of a checkpoint"
NOTE = "What is left behind by a failed checkpoint is not judged, only that the failure is reported and nothing else is touched. Trimming a journal between the two databases of a checkpoint is not explored (100000 entries are kept at least)"


def run(c):
    exe = c.build("c24_checkpoint", ["c24_checkpoint.cc"], "asan")
    tsan = c.build("c24_checkpoint", ["c24_checkpoint.cc"], "tsan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="%s#1" % m, args={"mode": m}, seed=c.seed, timeout=t) for m in ("raft", "standalone", "log", "refused", "swap")]
    runs += [dict(exe=tsan, label="tsan-%s#1" % m, args={"mode": m}, seed=c.seed + 50, timeout=t) for m in ("raft", "standalone", "log", "swap")]
    c.par(runs, workers=6)
