RULE = ("configurations composed of right, wrong, missing, repeated and misspelled options in random order, spacing and noise, plus mutated "
        "and random text, parsed and compared value by value with an independent line/word reading; the word reader walked at random. "
        "Non-trivial: distinct texts and reader walks")
TECHNIQUE = "ASan/UBSan build, grammar-based generation, reference-parser oracle"
NOTE = "Random texts; odd port spellings (signs, leading zeros, very long) and empty host names are left to C30"
ASSUMPTIONS = ["a later occurrence of an option replaces an earlier one"]


def run(c):
    exe = c.build("c25_config", ["c25_config.cc"], "asan")
    c.run(exe, "config", timeout=c.n(200, 1500))
