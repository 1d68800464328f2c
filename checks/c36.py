import os
import build as B

RULE = ("create: random invocations of quarkdb-create on free paths, existing directories and files, with every combination of identity, members and state machine to take over; shard: the same through ShardDirectory, with obliterate over nodes in use; "
        "validate: checkpoints of random shape and damage; server: quarkdb-server processes under load, signalled, killed, restarted, two on one directory or port; restore and bulkload: the documented procedures from beginning to end. "
        "Non-trivial: kinds of invocation, shapes of checkpoints, lifecycles")
TECHNIQUE = "ASan/UBSan builds of the real executables run as processes; what they leave on disk is read back through the owners and compared with the invocation, the previous files, and the acknowledged writes"
NOTE = "Paths containing an apostrophe and relative paths are not explored; a crash in the middle of creating a node is not explored"


def run(c):
    tools = {n: c.build("tool-" + n, [os.path.join(B.REPO, "tools/quarkdb-%s.cc" % f)], "asan")
             for n, f in (("create", "create"), ("validate", "validate-checkpoint"), ("recovery", "recovery"), ("server", "server"))}
    exe = c.build("c36_node", ["c36_node.cc"], "asan")
    t = c.n(400, 1800)
    runs = [dict(exe=exe, label="%s#1" % m, args=dict(tools, mode=m), seed=c.seed, timeout=t) for m in ("create", "shard", "validate", "server", "restore", "bulkload")]
    if c.thorough:
        runs += [dict(exe=exe, label="%s#2" % m, args=dict(tools, mode=m), seed=c.seed + 100, timeout=t) for m in ("create", "shard", "validate", "server", "restore", "bulkload")]
    c.par(runs, workers=4)
