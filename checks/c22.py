RULE = ("limits: the real trimmer on a real journal and state machine with random growth, commits, applies, limits and blocks, watched by a monitor, with two readers walking "
        "entries they protect; config: random limits, overrides, unusable stored values and reopening; target: a leader with the tightest limits feeding a slow target. "
        "Non-trivial: distinct situations of log, blocks and limits")
TECHNIQUE = "ASan/UBSan and TSan builds with online monitors of log start against commit index, applied index, limits, blocks and targets"
NOTE = "Random schedules, the trimmer's waits cut short in the ASan build; targets are judged while they stay online; retention is judged against the smaller of the last two limits"


def run(c):
    exe = c.build("c22_trim", ["c22_trim.cc"], "asan")
    tsan = c.build("c22_trim", ["c22_trim.cc"], "tsan")
    t = c.n(200, 1500)
    runs = [dict(exe=exe, label="%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
            [("target", 0), ("target", 20), ("limits", 0), ("limits", 20), ("limits", 40), ("config", 0)]]
    runs += [dict(exe=tsan, label="tsan-%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
             [("limits", 90)]]
    c.par(runs, workers=6)
