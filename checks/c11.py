RULE = ("every Formatter function on random and hostile payloads (binary, CR/LF, protocol look-alikes, 40 kB), with and without push types, composites of transactions "
        "and raft entries, ArrayResponseBuilder at, below and above its announced size, BufferedWriter with sizes around its buffer; output decoded by a strict RESP "
        "reader and compared with the values given. Non-trivial: distinct formatted outputs")
TECHNIQUE = "ASan/UBSan build; independent strict RESP decoder as oracle over generated payloads"
NOTE = "Sampled payloads; error and status texts containing newlines only have to stay one value, their text is not compared"


def run(c):
    exe = c.build("c11_format", ["c11_format.cc"], "asan")
    c.run(exe, "format", timeout=c.n(200, 1500))
