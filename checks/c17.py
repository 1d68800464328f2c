RULE = ("handler: random node states (terms, votes, leaders, logs, commits, trims, restarts) and vote and pre-vote requests around every boundary, each reply and "
        "the state after it judged by the rules; race: candidates and the node itself compete for each term from five threads, at most one may get the vote; tally: "
        "random mixes of grants, refusals, vetoes, network and parse errors against a count; election: whole rounds over loopback against peers played by the "
        "harness which grant, refuse, veto, answer nonsense, are ahead, silent or gone. Non-trivial: distinct situations")
TECHNIQUE = "ASan/UBSan (handler, tally, election) and TSan (race) builds with an online rule monitor over every vote reply and state"
NOTE = "Random states and requests, not exhaustive; elections with up to six members"


def run(c):
    exe = c.build("c17_vote", ["c17_vote.cc"], "asan")
    tsan = c.build("c17_vote", ["c17_vote.cc"], "tsan")
    t = c.n(200, 1500)
    runs = [dict(exe=exe, label="%s#%d" % (m, k), args={"mode": m}, seed=c.seed + k, timeout=t) for m, k in
            [("handler", 0), ("tally", 0), ("election", 0), ("election", 50), ("handler", 50), ("race", 0)]]
    runs.append(dict(exe=tsan, label="tsan-race", args={"mode": "race"}, seed=c.seed + 90, timeout=t))
    c.par(runs)
