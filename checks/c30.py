RULE = ("random and edge-case values through every conversion and string helper, compared with independent definitions in the harness; "
        "views are exact heap copies so that ASan sees any over-read. Non-trivial: distinct generator states per part")
TECHNIQUE = "ASan/UBSan build with reference-definition oracles over generated inputs (round trip, rejection, ordering, glob matcher)"
NOTE = "Sampled inputs, hundreds of thousands per run; leniencies of strtoll (leading blanks, '+') and unterminated glob classes are left open"


def run(c):
    exe = c.build("c30_conv", ["c30_conv.cc"], "asan")
    c.run(exe, "conv", timeout=c.n(200, 1500))
