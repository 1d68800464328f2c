RULE = ("clock: random sleeps, synchronizations, resets and refused backward synchronizations, every reading bounded by steady-clock brackets "
        "while the process's wall clock jumps; timeouts: draws must stay in and cover the closed range, differ between objects and processes; "
        "text round trips and malformed texts; heartbeat tracker and fake clocks against models; all again with threads under TSan. "
        "Non-trivial: distinct operation traces, ranges and texts")
TECHNIQUE = "ASan/UBSan and TSan builds, bracketed-reading monitor, injected wall-clock jumps"
NOTE = "Sampled; coverage of a range is judged after 60 draws per value; the persisted clock of a state machine is judged in C06"
ASSUMPTIONS = ["std::chrono::steady_clock of the host is steady"]


def run(c):
    exe = c.build("c29_clock", ["c29_clock.cc"], "asan")
    c.run(exe, "clock", timeout=c.n(150, 1500))
    tsan = c.build("c29_clock", ["c29_clock.cc"], "tsan")
    c.run(tsan, "clock-tsan", {"mode": "threads"}, timeout=c.n(150, 1500))
