RULE = ("proto: random start, copy, finish and restart sequences on a shard directory, with hostile ids and file names, incomplete and outdated contents of five senders, against a model of what must be on disk; "
        "copy: the real sender on a leader which keeps writing, against a real shard, with refused and lost files, dropped connections, spoiled snapshots, lost confirmations; "
        "busy: a shard resilvered repeatedly while clients use it; crash: the receiver dies at every file operation of a finish; history: round trips of the event log. "
        "Non-trivial: distinct outcomes, attempts and crash points")
TECHNIQUE = "ASan/UBSan and TSan builds with monitors on the wire between sender and receiver and checkers over directory trees and raw databases; fault injection, crash at every file operation"
NOTE = "Process crashes, not power loss: files are not checked for having been synced; a copy without its CANCEL is judged (the receiver ignores CANCEL)"


def run(c):
    exe = c.build("c23_resilver", ["c23_resilver.cc"], "asan")
    tsan = c.build("c23_resilver", ["c23_resilver.cc"], "tsan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
            [("copy", 0), ("copy", 20), ("proto", 0), ("proto", 20), ("crash", 0), ("busy", 0), ("history", 0)]]
    runs += [dict(exe=tsan, label="tsan-%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
             [("busy", 90), ("copy", 90)]]
    c.par(runs, workers=6)
