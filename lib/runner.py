"""Runs the check of one property: builds its harnesses from /repo's working tree, runs
them, collects what their monitors observed, and gives the verdict.

exit 0: held on everything explored; exit 1 + VIOLATION line: broken;
exit 2: the check itself could not work (build failure, nothing observed, ...).
"""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B  # noqa: E402

VERIF = B.VERIF
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
REPLAYS = os.path.join(B.BUILD, "replays")

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=0:handle_abort=0:allocator_may_return_null=0:max_allocation_size_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:second_deadlock_stack=1:suppressions=%s"
                    % os.path.join(VERIF, "lib", "tsan.supp"),
}


class HarnessError(Exception):
    pass


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


class Check:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.level = level
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = 0
        self.samples = []
        self.counters = {}
        self.violations = []   # (key, msg, extra)
        self.inconclusive = []
        self.runs = []
        self.rule = ""
        self.assumptions = []
        self.extra_cov = {}
        self.scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop, dir=os.environ.get("VERIF_SCRATCH", "/tmp"))

    @property
    def thorough(self):
        return self.tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # ------------------------------------------------------------------
    def build(self, name, sources, variant="asan", **kw):
        t = time.time()
        exe = B.build(name, sources, variant, **kw)
        self.extra_cov.setdefault("build_s", {})[name + "." + variant] = round(time.time() - t, 1)
        return exe

    def fail(self, key, msg, extra=None):
        if key not in [v[0] for v in self.violations]:
            self.violations.append((key, msg, extra or {}))

    def absorb(self, res):
        self.evaluations += res.get("evaluations", 0)
        self.distinct += res.get("distinct", 0)
        for s in res.get("samples", []):
            if len(self.samples) < 12:
                self.samples.append(s)
        for k, v in res.get("counters", {}).items():
            self.counters[k] = self.counters.get(k, 0) + v

    def run(self, exe, label, args=None, timeout=300, env=None, seed=None, cpus=None, retries=1,
            expect_observed=True, crash_prefix=None, allow_crash=False):
        """Runs one harness process, turns its report / crash / hang into violations."""
        args = dict(args or {})
        seed = self.seed if seed is None else seed
        attempt = 0
        while True:
            attempt += 1
            tag = re.sub(r"[^A-Za-z0-9_.-]", "_", label)
            out = os.path.join(self.scratch, tag + ".json")
            sdir = os.path.join(self.scratch, "vf-" + tag)
            shutil.rmtree(sdir, ignore_errors=True)
            os.makedirs(sdir)
            for p in (out, out + ".cur"):
                if os.path.exists(p):
                    os.unlink(p)
            cmd = [exe, "--out", out, "--seed", str(seed), "--tier", self.tier, "--scratch", sdir]
            for k, v in args.items():
                cmd += ["--" + k, str(v)]
            if cpus:
                cmd = ["taskset", "-c", cpus] + cmd
            e = dict(os.environ)
            e.update(SAN_ENV)
            e.update(env or {})
            log = os.path.join(self.scratch, tag + ".log")
            t = time.time()
            with open(log, "wb") as lf:
                p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=e, cwd=sdir,
                                     start_new_session=True)
                hang = False
                try:
                    rc = p.wait(timeout=timeout)
                except subprocess.TimeoutExpired:
                    hang = True
                    stacks = self._stacks(p.pid)
                    try:
                        os.killpg(p.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    rc = -9
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    pass
            wall = time.time() - t
            if hang and attempt <= retries:
                self.inconclusive.append("%s timed out after %ds (attempt %d)" % (label, timeout, attempt))
                continue
            break
        with open(log, "rb") as lf:
            lf.seek(0, 2)
            size = lf.tell()
            lf.seek(max(0, size - 400000))
            text = lf.read().decode(errors="replace")
            if size > 400000:
                lf.seek(0)
                text = lf.read(100000).decode(errors="replace") + "\n...\n" + text
        cur = ""
        if os.path.exists(out + ".cur"):
            with open(out + ".cur", "rb") as f:
                cur = f.read().split(b"\0")[0].decode(errors="replace")
        res = {}
        if os.path.exists(out):
            try:
                with open(out) as f:
                    res = json.load(f)
            except ValueError:
                res = {}
        self.absorb(res)
        self.runs.append({"label": label, "seed": seed, "rc": rc, "wall_s": round(wall, 1),
                          "evaluations": res.get("evaluations", 0), "distinct": res.get("distinct", 0)})
        extra = {"cmd": cmd, "log_tail": text[-6000:], "current": cur}
        for v in res.get("violations", []):
            self.fail(v["key"], v["msg"], extra)
        prefix = crash_prefix or label.split("#")[0]
        tsan = parse_tsan(text)
        for key, block in tsan:
            self.fail("tsan:%s" % key, block, extra)
        if hang:
            extra["stacks"] = stacks[-20000:]
            self.fail("hang:%s" % prefix, "%s did not finish within %d s, twice; last case: %s" % (label, timeout, cur[:3000]), extra)
        elif rc not in (0, 3):
            if rc == 2 and "VF-HARNESS-ERROR" in text:
                raise HarnessError("%s: %s" % (label, text[-3000:]))
            if not allow_crash:
                sig = crash_signature(text, rc)
                self.fail("crash:%s:%s" % (prefix, sig), "%s ended with code %s; %s; last case: %s\n%s" % (
                    label, rc, sig, cur[:3000], text[-4000:]), extra)
        elif rc == 3 and not res.get("violations"):
            raise HarnessError("%s: exit 3 without violations" % label)
        if expect_observed and rc == 0 and not hang and res.get("evaluations", 0) == 0:
            raise HarnessError("%s observed nothing: %s" % (label, text[-2000:]))
        shutil.rmtree(sdir, ignore_errors=True)
        res["_rc"] = rc
        res["_text"] = text
        return res

    def par(self, calls, workers=4):
        """Several run() calls at once; each a dict of its arguments."""
        only = os.environ.get("VERIF_ONLY")        # for development
        if only:
            calls = [k for k in calls if re.search(only, k["label"])]
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(workers) as ex:
            fs = [ex.submit(self.run, **k) for k in calls]
            return [f.result() for f in fs]

    def _stacks(self, pid):
        try:
            p = subprocess.run(["gdb", "-p", str(pid), "-batch", "-ex", "thread apply all bt 12"],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            return p.stdout.decode(errors="replace")
        except Exception:
            return ""

    # ------------------------------------------------------------------
    def finish(self):
        known = [k for k in known_findings() if k.get("status") == "known" and k["property"] == self.prop]
        shutil.rmtree(self.scratch, ignore_errors=True)
        bad = []
        seen_known = set()
        for key, msg, extra in self.violations:
            hit = None
            for k in known:
                if re.fullmatch(k["key"], key):
                    hit = k
                    break
            if hit:
                seen_known.add(hit["id"])
            else:
                bad.append((key, msg, extra))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations, "distinct_nontrivial": self.distinct,
                "rule": self.rule, "samples": self.samples[:12],
                "observed": self.counters, "runs": self.runs,
                "inconclusive": self.inconclusive,
                "known_findings_seen": sorted(seen_known),
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(bad),
        }
        ev["coverage"].update(self.extra_cov)
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, self.prop + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(path + ".tmp", path)
        for k in known:
            print("KNOWN-FINDING: property=%s %s%s" % (self.prop, k["what"], "" if k["id"] in seen_known else " (not exercised in this run)"))
        if bad:
            os.makedirs(REPLAYS, exist_ok=True)
            for i, (key, msg, extra) in enumerate(bad):
                rp = os.path.join(REPLAYS, "%s-%d.json" % (self.prop, i))
                with open(rp, "w") as f:
                    json.dump({"property": self.prop, "key": key, "message": msg, "seed": self.seed,
                               "tier": self.tier, "extra": extra}, f, indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
                print("  key: %s" % key)
                print("  " + msg[:1500].replace("\n", "\n  "))
            sys.stdout.flush()
            return 1
        print("OK property=%s evaluations=%d distinct=%d wall=%.1fs" % (
            self.prop, self.evaluations, self.distinct, time.time() - self.t0))
        if self.evaluations == 0:
            print("nothing was observed")
            return 2
        return 0


def crash_signature(text, rc):
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", text)
    frames = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", text)]
    where = ""
    for f in frames:
        if "/repo/" in f or "quarkdb::" in f:
            where = re.sub(r"\(.*", "", f).strip().split(" ")[0]
            break
    if m:
        return "asan:%s:%s" % (m.group(1), where)
    m = re.search(r"(\S+?):(\d+):\d+: runtime error: ([^\n]+)", text)
    if m:
        return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"-?\d+", "N", m.group(3))[:60].strip())
    m = re.search(r"terminate called after throwing[^\n]*\n\s*what\(\):\s*([^\n]*)", text)
    if m:
        return "exception:" + re.sub(r"-?\d+", "N", m.group(1))[:80]
    m = re.search(r"assertion violation[^\n]*", text)
    if m:
        return "assert:" + re.sub(r"\d+", "N", m.group(0))[:100]
    if rc is not None and rc < 0:
        return "signal:%d" % -rc
    return "exit:%s" % rc


def parse_tsan(text):
    """(key, block) of each ThreadSanitizer report, keyed by kind and the two accesses' functions."""
    out = {}
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]+)[^\n]*\n(.*?)\n={10,}", text, re.S):
        kind, body = m.group(1).strip(), m.group(2)
        fns = []
        for stack in re.split(r"\n\s*\n", body):
            for f in re.findall(r"#\d+ (.+?) (?:/|<null>)\S*", stack):
                name = re.sub(r"\(.*", "", f)
                if "quarkdb" in name:
                    fns.append(name)
                    break
        key = kind + ":" + "+".join(sorted(set(fns[:2])))
        out.setdefault(key, m.group(0)[:5000])
    return sorted(out.items())
