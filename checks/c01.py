RULE = ("Random sequences of every data command (all seven types, wrong types, wrong argument counts and texts, hostile bytes), sent as "
        "single requests, batches and MULTI blocks, with reopening, against an in-memory reference model: every reply compared, everything "
        "read back, the raw database compared with the records the model implies. Non-trivial: distinct (command, outcome) sequences")
TECHNIQUE = "ASan/UBSan build of the real state machine under a reference-model monitor comparing every reply and the stored records"
NOTE = "Random sequences over small hostile key and value pools; trusts RocksDB and the harness's model of each command"
ASSUMPTIONS = ["RocksDB itself is trusted", "keys and hints ending in '|' are left out (see K01)"]


def run(c):
    exe = c.build("sm_seq", ["sm_seq.cc"], "asan")
    for i in range(c.n(2, 8)):
        c.run(exe, "model#%d" % i, {"n": c.n(70, 1200), "len": 150}, seed=c.seed * 100 + i, timeout=c.n(200, 1500))
