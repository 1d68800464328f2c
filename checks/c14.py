RULE = ("seq: up to 260 connections subscribing, publishing, disconnecting and being dropped, everything every one of them receives compared with a model after each step; threads: five clients and three publishers, an offline check of every message against the intervals of every subscription; "
        "purge: all subscriptions dropped while clients change theirs; map, mapt: the containers mutated during staged iteration, alone and from several threads; node: through nodes, pipelines with writes in flight and loss of leadership. "
        "Non-trivial: subscription states, hits, messages required and optional by overlap")
TECHNIQUE = "ASan/UBSan and TSan builds on real connections; online model monitor of every delivered byte; offline checker over recorded histories of parallel subscribe, publish and disconnect; watchdog for iterations that do not end"
NOTE = "Patterns which the pattern language leaves undefined are not used. A message may precede the confirmation of the subscription it is delivered for. A disconnected client is forgotten at the latest when something it would have received is published"


def run(c):
    exe = c.build("c14_pubsub", ["c14_pubsub.cc"], "asan")
    tsan = c.build("c14_pubsub", ["c14_pubsub.cc"], "tsan")
    t = c.n(240, 1800)
    runs = [dict(exe=exe, label="%s#1" % m, args={"mode": m}, seed=c.seed, timeout=t) for m in ("threads", "seq", "map", "node", "purge", "mapt")]
    runs += [dict(exe=tsan, label="tsan-%s#1" % m, args={"mode": m}, seed=c.seed + 50, timeout=t) for m in ("threads", "purge", "mapt", "node")]
    c.par(runs, workers=6)
