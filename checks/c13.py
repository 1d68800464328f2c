RULE = ("authenticator: random scripts of challenges, clock jumps, resets and right, wrong or repeated answers, judged by a model (fresh, single use, one "
        "minute) with an independent HMAC-SHA256; files: all permission bits, password lengths at startup; sessions: random requests (every command, "
        "MULTI, wrong answers, prefixes of the password) from a client which never proves anything: every reply must be an error, and neither replies "
        "nor published messages nor the data may show an effect; then the proof works, for this connection only. Non-trivial: distinct scripts")
TECHNIQUE = "ASan/UBSan build of authenticator and node under an authorization-state monitor with an independent HMAC and a controlled clock"
NOTE = "Random scripts; statistical freshness only; timing side channels are not judged"


def run(c):
    exe = c.build("c13_auth", ["c13_auth.cc"], "asan")
    t = c.n(200, 1500)
    c.par([dict(exe=exe, label="auth-authenticator", args={"mode": "authenticator"}, timeout=t)]
          + [dict(exe=exe, label="auth-session#%d" % i, args={"mode": "session"}, seed=c.seed * 10 + i, timeout=t) for i in range(3)])
