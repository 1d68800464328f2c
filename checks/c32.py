RULE = ("raw: sessions of recovery commands on random databases, journals and state machines, in process and one-off, raw dumps compared with a map after every session; "
        "reconf: forced configurations on journals with pending membership changes, trimmed, truncated; reopened, truncated and changed again; "
        "refuse: every name of the command table and wrong argument counts, alone and in transactions; server: several TCP clients on the recovery server. "
        "Non-trivial: kinds of databases and commands, journal shapes, replies")
TECHNIQUE = "ASan/UBSan builds of the real recovery editor, dispatcher and server (the server also under TSan); raw dumps and the owners' own readings as monitors against a map model"
NOTE = "RECOVERY_SCAN (which shows tombstones) is not judged beyond argument checks; a crash in the middle of a forced reconfiguration is not explored"


def run(c):
    exe = c.build("c32_recovery", ["c32_recovery.cc"], "asan")
    tsan = c.build("c32_recovery", ["c32_recovery.cc"], "tsan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="%s#1" % m, args={"mode": m}, seed=c.seed, timeout=t) for m in ("raw", "reconf", "refuse", "server")]
    runs += [dict(exe=exe, label="%s#2" % m, args={"mode": m}, seed=c.seed + 10, timeout=t) for m in ("raw", "reconf")]
    runs += [dict(exe=tsan, label="tsan-server#1", args={"mode": "server"}, seed=c.seed + 50, timeout=t)]
    c.par(runs, workers=6)
