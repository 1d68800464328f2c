"""Development helper: turns a planted-bug description into /verif/seeded/<id>/, and tries it.

usage: seedtool.py make SPEC.py     (SPEC defines SEEDS, a list of dicts)
       seedtool.py try ID...        apply to /repo, build, test, demo, check; then undo
       seedtool.py check ID...      apply to /repo, check only; then undo
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"

DEMO = r'''#!/bin/bash
# exit 0: the property holds on this tree; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "${T:?}"' EXIT
g++ -std=c++17 -g1 -O1 %(flags)s -w -include string -include cctype -include cstdint -include cmath -include mutex \
  -Diter_start_seqnum=total_order_seek -DASIO_STANDALONE %(inc)s -Isrc -Ideps "$D/demo.cc" %(srcs)s _build/libquarkdb-core.a -o "$T/demo" \
  -lrocksdb -lssl -lcrypto -luuid -lz -lbz2 -llz4 -lzstd -ldw -lpthread -ldl || exit 99
cd "$T" && timeout 120 ./demo "$T" > "$T/out" 2> "$T/err"
rc=$?
cat "$T/out"
[ $rc -ne 0 ] && tail -5 "$T/err"
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    sh("git -C /repo checkout -- .")


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    for s in ns["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        if sh("git -C /repo status --porcelain -uno").stdout.strip():
            sys.exit("repo not clean")
        for f, old, new in s["edits"]:
            p = os.path.join(R, f)
            t = open(p).read()
            if t.count(old) != 1:
                undo()
                sys.exit("%s: %s has %d x %r" % (s["id"], f, t.count(old), old))
            open(p, "w").write(t.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
        undo()
        open(os.path.join(d, "demo.cc"), "w").write(s["demo"])
        inc = '-I"$D/shim"' if s.get("shim") else ""
        srcs = " ".join(s.get("srcs", []))
        if s.get("shim"):
            shutil.copytree(os.path.join(V, "shim"), os.path.join(d, "shim"), dirs_exist_ok=True)
            srcs += ' "$D/shim/qclient.cc"'
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % {"flags": s.get("flags", ""), "inc": inc, "srcs": srcs})
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        print("made", s["id"])


def tryout(ids, full):
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        d = os.path.join(V, "seeded", i)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        res = []
        if sh("git -C /repo status --porcelain -uno").stdout.strip():
            sys.exit("repo not clean")
        try:
            if full:
                sh("bash /opt/vp/build.sh")
                p = sh("bash %s/demo.sh" % d, cwd=R)
                res.append("demo clean: %d" % p.returncode)
                if p.returncode:
                    print(p.stdout[-1500:])
            a = sh("git -C /repo apply %s/patch.diff" % d)
            if a.returncode:
                print(i, "DOES NOT APPLY", a.stdout)
                continue
            if full:
                p = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
                passed = set(json.load(open("/tmp/seedtest.json"))["passed"])
                res.append("stable tests ok" if base <= passed else "STABLE TESTS BROKEN %s" % sorted(base - passed)[:3])
                p = sh("bash %s/demo.sh" % d, cwd=R)
                res.append("demo patched: %d (%s)" % (p.returncode, p.stdout.strip()[-200:].replace("\n", " | ")))
            if os.path.exists(os.path.join(V, "checks", prop.lower() + ".py")):
                p = sh("VERIF_SEED=1 VERIF_TIER=quick VERIF_EVIDENCE=/tmp/seed-evidence python3 check.py %s" % prop, cwd=V)
                v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION") or l.startswith("  key:")]
                res.append(("CAUGHT " if p.returncode == 1 and v else "MISSED rc=%d " % p.returncode) + " ".join(x for x in v if "key" in x)[:300])
        finally:
            undo()
        print(i, prop, "; ".join(res), flush=True)
    if full:
        sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2])
    else:
        tryout(sys.argv[2:], sys.argv[1] == "try")
