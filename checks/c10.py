RULE = ("streams: random requests, intact or damaged (sizes, signs, terminators), fed to the parser in random pieces; an independent decoder says which "
        "requests are complete after each piece and whether the bytes are malformed; reader: buffered reads of random sizes against the bytes sent, "
        "pinned buffers re-checked later; connections: the same bytes in other pieces to a node give the same replies and data; bounds: memory held "
        "for endless and oversized input. Non-trivial: distinct (streams, kinds of pieces)")
TECHNIQUE = "ASan/UBSan build of parser, reader, connection and node under a reference decoder, a split-invariance monitor and an allocation meter"
NOTE = "Random streams and splits; the bounds are judged on the allocator's own count of live bytes"


def run(c):
    exe = c.build("c10_parse", ["c10_parse.cc"], "asan")
    t = c.n(200, 1500)
    c.par([dict(exe=exe, label="parse-" + m, args={"mode": m}, timeout=t) for m in ("reader", "bounds", "connections")]
          + [dict(exe=exe, label="parse-streams#%d" % i, args={"mode": "streams"}, seed=c.seed * 10 + i, timeout=t) for i in range(3)], workers=6)
