RULE = ("files of boundary and random sizes written under injected size limits and compared with what open/read shows; all 512 permission "
        "modes; password files with random modes and trailing whitespace; mkpath, rename, listing and counting on random trees against "
        "the tree before and after. Non-trivial: distinct (size class, limit, outcome), modes, tree shapes, path pairs")
TECHNIQUE = "ASan/UBSan build, whole-tree before/after monitor, RLIMIT_FSIZE fault injection"
NOTE = "Random workload against an independent reading of the file system; runs as root, so unreadable directories are not produced"
ASSUMPTIONS = ["the kernel's own view through open/read/lstat is the oracle"]


def run(c):
    exe = c.build("c35_files", ["c35_files.cc"], "asan")
    c.run(exe, "files", timeout=c.n(200, 1200))
