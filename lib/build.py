"""Builds harnesses against /repo's current working tree.

Objects are cached by content: the key of an object is a hash of the compiler flags,
the source path and the contents of every /repo and /verif file it includes, so a
stale object can never be used and file times do not matter.

The set of /repo sources a harness is linked with is the closure, over #include, of
the headers it includes: a header Foo.hh pulls in Foo.cc next to it.
"""
import hashlib
import os
import re
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

HOOKS = "-DQDB_VERIF_HOOKS"

COMMON = ("-std=c++17 -g1 -O1 -fPIC -fno-omit-frame-pointer -w -include string -include cctype "
          "-include cstdint -include cmath -include mutex -DASIO_STANDALONE "
          "-Diter_start_seqnum=total_order_seek " + HOOKS).split()

VARIANTS = {
    "plain": ["g++"],
    "asan": ["g++", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    "tsan": ["g++", "-fsanitize=thread"],
    "fuzz": ["clang++", "-fsanitize=address,undefined,fuzzer", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all"],
}
LIBS = "-lrocksdb -lssl -lcrypto -luuid -lz -lbz2 -llz4 -lzstd -ldw -lpthread -ldl".split()

INCDIRS = [os.path.join(VERIF, "shim"), os.path.join(VERIF, "harness"),
           os.path.join(REPO, "src"), os.path.join(REPO, "deps"), os.path.join(REPO, "tools")]

_inc_re = re.compile(rb'^[ \t]*#[ \t]*include[ \t]*[<"]([^">]+)[">]', re.M)
_cache = {}
_lock = threading.Lock()


class BuildError(Exception):
    pass


def _read(path):
    with _lock:
        if path in _cache:
            return _cache[path]
    with open(path, "rb") as f:
        data = f.read()
    ent = (hashlib.sha256(data).hexdigest(), [m.decode() for m in _inc_re.findall(data)])
    with _lock:
        _cache[path] = ent
    return ent


def _resolve(inc, frm):
    cand = os.path.normpath(os.path.join(os.path.dirname(frm), inc))
    if os.path.isfile(cand):
        return cand
    for d in INCDIRS:
        cand = os.path.normpath(os.path.join(d, inc))
        if os.path.isfile(cand):
            return cand
    return None


def deps(path):
    """Every /repo or /verif file reachable by #include from path, itself included."""
    seen = set()
    todo = [path]
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for inc in _read(p)[1]:
            r = _resolve(inc, p)
            if r and r not in seen:
                todo.append(r)
    return seen


EXCLUDE = {"XrdPlugin.cc", "XrdQuarkDB.cc"}


def closure(roots):
    """All /repo sources needed, following header -> sibling source."""
    srcs = set()
    todo = list(roots)
    seen = set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        for h in deps(s):
            base, ext = os.path.splitext(h)
            cc = base + ".cc"
            if h.startswith(REPO + "/") and ext in (".hh", ".h") and os.path.isfile(cc) \
                    and os.path.basename(cc) not in EXCLUDE:
                if cc not in srcs:
                    srcs.add(cc)
                    todo.append(cc)
    return srcs


def all_sources():
    out = set()
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith(".cc") and f not in EXCLUDE:
                out.add(os.path.join(root, f))
    out.add(os.path.join(REPO, "deps/xxhash/xxhash.cc"))
    return out


def _flags(variant, extra):
    cc = VARIANTS[variant]
    return cc + COMMON + list(extra) + ["-I" + d for d in INCDIRS[:4]]


def compile_one(src, variant, extra=()):
    flags = _flags(variant, extra)
    h = hashlib.sha256()
    h.update(" ".join(flags).encode())
    h.update(src.encode())
    for d in sorted(deps(src)):
        h.update(d.encode() + b"\0" + _read(d)[0].encode())
    key = h.hexdigest()[:32]
    objdir = os.path.join(BUILD, "obj")
    os.makedirs(objdir, exist_ok=True)
    obj = os.path.join(objdir, os.path.basename(src) + "." + variant + "." + key + ".o")
    if os.path.isfile(obj):
        return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    # -fno-sanitize=... of a fuzzer build must not add main() to library objects
    cmd = [c.replace(",fuzzer", ",fuzzer-no-link") for c in flags] + ["-c", src, "-o", tmp]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s\n%s" % (src, " ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
    os.rename(tmp, obj)
    return obj


def build(name, sources, variant="asan", extra=(), everything=False, shim=None, link_extra=(), jobs=8,
          repo_sources=None):
    """Compiles harness `sources` (relative to /verif/harness, or absolute) and the /repo
    sources they need; returns the path of the executable."""
    _cache.clear()
    roots = [s if s.startswith("/") else os.path.join(VERIF, "harness", s) for s in sources]
    if repo_sources is not None:
        need = set(os.path.join(REPO, s) for s in repo_sources)
    else:
        need = all_sources() if everything else closure(roots)
    use_shim = shim
    if use_shim is None:
        use_shim = any(os.path.join(VERIF, "shim/qclient/QClient.hh") in deps(s) for s in list(need) + roots)
    files = sorted(roots) + sorted(need)
    if use_shim:
        files.append(os.path.join(VERIF, "shim/qclient.cc"))
    # longest first
    big = ("StateMachine.cc", "Poller.cc", "quarkdb-server.cc", "Dispatcher.cc", "RaftJournal.cc")
    files.sort(key=lambda f: (not f.startswith(VERIF), not f.endswith(big), f))
    seen = set()
    files = [f for f in files if not (f in seen or seen.add(f))]
    with ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda f: compile_one(f, variant, extra), files))
    h = hashlib.sha256((" ".join(objs) + variant + "s" + " ".join(link_extra) + " ".join(LIBS)).encode()).hexdigest()[:24]
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, name + "." + variant + "." + h)
    if os.path.isfile(exe):
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    # A libstdc++ of its own lets TSan tell RocksDB's uses of it (invisible synchronisation, suppressed) from ours
    own = ["-static-libstdc++", "-Wl,--exclude-libs,libstdc++.a"] if variant == "tsan" else []
    cmd = VARIANTS[variant] + ["-rdynamic"] + own + objs + ["-o", tmp] + list(link_extra) + LIBS
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        if not everything and repo_sources is None:
            return build(name, sources, variant, extra, True, shim, link_extra, jobs)
        raise BuildError("linking %s failed:\n%s" % (name, p.stdout.decode(errors="replace")[-6000:]))
    os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    try:
        print(build(sys.argv[1], sys.argv[3:], sys.argv[2]))
    except BuildError as e:
        print(str(e)[-5000:])
        sys.exit(2)
