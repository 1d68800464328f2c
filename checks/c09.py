RULE = ("every record of (key, hint, field) combinations, exhaustive over {a,#,|} for short strings and random beyond, through the real "
        "locators: encodings collected in one map to find collisions and foreign prefixes, decoded again, compared for order and "
        "against locators reused through their reset functions; malformed stored keys as exact heap copies under ASan. "
        "Non-trivial: distinct (key, hint, field) triples and distinct malformed strings")
TECHNIQUE = "ASan/UBSan build with collision-map, inverse and order monitors over generated keys"
NOTE = "Exhaustive for keys up to 3 characters of the critical alphabet, sampled beyond; the known ambiguity of the stored format is listed as a finding"


def run(c):
    exe = c.build("c09_keys", ["c09_keys.cc"], "asan")
    c.run(exe, "keys", timeout=c.n(200, 1500))
