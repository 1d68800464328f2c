RULE = ("model: random sequences of journal operations (appends with valid and invalid positions and terms, term/vote, commit, "
        "truncate, trim, membership, policy, compare, reopen) against a list model, full state compared; crash: a child running such a "
        "sequence is killed before, during or after the k-th write system call, and the reopened journal must equal the model "
        "after the completed operations or with the one in flight; threads: one writer with concurrent readers. "
        "Non-trivial: distinct operation/outcome strings, distinct (sequence, crash point, mode)")
TECHNIQUE = "ASan/UBSan build driven by a reference-model monitor, kill-at-every-write crash injection, concurrent readers with online invariant checks"
NOTE = "Random operation sequences against a list model of the log, with reopen; sampled crash points at system-call granularity; trusts RocksDB and the harness's model"
ASSUMPTIONS = ["a killed process keeps what it passed to write(2)", "RocksDB itself is trusted"]


def run(c):
    exe = c.build("c15_journal", ["c15_journal.cc"], "asan")
    c.run(exe, "journal-model", {"mode": "model"}, timeout=c.n(200, 1500))
    c.run(exe, "journal-crash", {"mode": "crash"}, timeout=c.n(200, 1500))
    c.run(exe, "journal-threads", {"mode": "threads"}, timeout=c.n(200, 1500))
