"""Check framework: cases in parallel, verdicts, known findings, evidence, replay files."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
FINDINGS = os.path.join(VERIF, "known_findings.txt")

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_odr_violation=0:handle_abort=0:symbolize=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:abort_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:exitcode=66"
ENV["LC_ALL"] = "C"


class Out:
    """Outcome of one process."""
    __slots__ = ("rc", "out", "err", "timeout", "cmd")

    def crashed(self):
        return (not self.timeout) and (self.rc < 0 or self.rc in (134, 139, 136, 66))

    def crash_key(self):
        e = self.err
        m = re.search(r"Assertion `(.*?)' failed", e)
        if m:
            f = re.search(r"([\w./+-]+\.(?:cpp|h|hpp)):(\d+): (.*?): Assertion", e)
            return "assert:%s:%s" % (os.path.basename(f.group(1)) if f else "?", m.group(1)[:80])
        m = re.search(r"(AddressSanitizer|ThreadSanitizer): ([\w -]+?)(?: on | \(|:|$)", e)
        if m:
            fr = [os.path.basename(x) for x in re.findall(r"/repo/(?:src|include)/(\S+?):\d+", e)][:2]
            return "%s:%s:%s" % (m.group(1), m.group(2).strip(), ",".join(fr))
        m = re.search(r"/repo/(\S+?):(\d+):\d+: runtime error: (.*)", e)
        if m:
            return "ubsan:%s:%s" % (os.path.basename(m.group(1)), re.sub(r"[-0-9]+|0x[0-9a-f]+", "N", m.group(3))[:80])
        m = re.search(r"runtime error: (.*)", e)
        if m:
            return "ubsan:%s" % re.sub(r"[-0-9]+|0x[0-9a-f]+", "N", m.group(1))[:80]
        m = re.search(r"what\(\):\s*(.*)", e)
        if m:
            return "terminate:%s" % m.group(1)[:80]
        return "signal:%d" % (-self.rc if self.rc < 0 else self.rc)


def execute(cmd, timeout=20, cwd=None, stdin=None, env=None, mem_gb=6, limit_out=8 << 20):
    o = Out()
    o.cmd = cmd
    o.timeout = False

    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env or ENV,
                         stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, start_new_session=True)
    try:
        a, b = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        o.timeout = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        a, b = p.communicate()
    o.rc = p.returncode
    o.out = a.decode(errors="replace")
    o.err = b.decode(errors="replace")
    return o


def verdicts(out):
    """{query name: [verdict strings]} from the FORMULA lines"""
    r = {}
    for m in re.finditer(r"^FORMULA (\S+) (\S+)", out, re.M):
        r.setdefault(m.group(1), []).append(m.group(2))
    return r


class R:
    """What a case observed."""

    def __init__(self):
        self.c = collections.Counter()
        self.viol = []      # (key, what, {file: text})
        self.sig = set()
        self.samples = []
        self.inconclusive = collections.Counter()

    def count(self, k, n=1):
        self.c[k] += n

    def distinct(self, *parts):
        self.sig.add(hashlib.sha1("\0".join(map(str, parts)).encode()).hexdigest()[:12])

    def violation(self, key, what, files=None):
        self.viol.append((key, what, files or {}))

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


class Skip(Exception):
    pass


_ctx = {}


def _work(args):
    fn, i, seed = args
    r = R()
    d = tempfile.mkdtemp(prefix="vp-case-", dir=_ctx["scratch"])
    rng = random.Random("%s/%s/%d/%d" % (_ctx["prop"], fn, seed, i))
    t0 = time.time()
    try:
        _ctx["fns"][fn](i, rng, r, d)
    except Skip:
        r.count("skipped")
    except Exception:
        r.inconclusive["harness error: " + traceback.format_exc()[-1500:]] += 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    for j, (k, w, f) in enumerate(r.viol):
        f["case.txt"] = "property %s part %s case %d seed %d\n" % (_ctx["prop"], fn, i, seed)
    r.c["_cpu_ms"] += int((time.time() - t0) * 1000)
    return fn, i, r


class Check:
    def __init__(self, prop, level="exploration", rule="", assumptions=()):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.assumptions = list(assumptions)
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.total = R()
        self.parts = {}
        self.extra = {}
        self.notes = []
        self.fns = {}
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % prop)
        self.failed_parts = []
        self.scale = float(os.environ.get("VERIF_SCALE", "1"))
        self.only = os.environ.get("VERIF_ONLY")          # part:index, to replay one case

    # -- building
    def exe(self, flavour="plain", name="verifypn", harness=(), with_main=True, optional=False):
        try:
            return B.build(name, flavour, list(harness), with_main=with_main)
        except B.BuildError as e:
            if optional:
                self.notes.append("not built: %s: %s" % (name, str(e)[-600:]))
                print("note: %s could not be built, its part is left out:\n%s" % (name, str(e)[-1500:]))
                self.failed_parts.append(name)
                return None
            print(str(e)[-4000:])
            print("error: the code under test does not build")
            self.cleanup()
            sys.exit(3)

    def n(self, quick, thorough=None):
        k = quick if self.tier == "quick" else (thorough if thorough is not None else quick * 20)
        return max(1, int(k * self.scale))

    def part(self, name, fn, quick, thorough=None, jobs=None):
        """Runs fn(i, rng, r, scratch) for i in range(n) in parallel."""
        n = self.n(quick, thorough)
        self.fns[name] = fn
        _ctx.update(prop=self.prop, fns=self.fns, scratch=self.scratch)
        todo = [(name, i, self.seed) for i in range(n)]
        if self.only:
            pn, ix = self.only.split(":")
            if pn != name:
                return
            todo = [(name, int(x), self.seed) for x in ix.split(",")]
        t0 = time.time()
        agg = R()
        keys = collections.Counter()
        with mp.get_context("fork").Pool(jobs or int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))) as pool:
            for fnn, i, r in pool.imap_unordered(_work, todo, chunksize=max(1, min(16, n // 64))):
                agg.c.update(r.c)
                agg.sig |= r.sig
                agg.inconclusive.update(r.inconclusive)
                if len(agg.samples) < 2:
                    agg.samples += r.samples[:1]
                for v in r.viol:
                    keys[v[0]] += 1
                    if keys[v[0]] <= 2:
                        agg.viol.append(v)
                    else:
                        agg.c["further violations with a key already reported"] += 1
                    if os.environ.get("VERIF_VERBOSE"):
                        print("V", name, i, v[0], v[1][:300], flush=True)
                if sum(keys.values()) > 200 and not self._all_known(keys):
                    pool.terminate()
                    self.notes.append("part %s stopped early: many violations" % name)
                    break
        self.total.c.update({k: v for k, v in agg.c.items()})
        self.total.sig |= agg.sig
        self.total.inconclusive.update(agg.inconclusive)
        self.total.samples += [{"part": name, "case": s} for s in agg.samples]
        self.total.viol += agg.viol
        self.parts[name] = {"cases": len(todo), "wall_s": round(time.time() - t0, 1), "distinct": len(agg.sig),
                            "events": {k: v for k, v in sorted(agg.c.items()) if not k.startswith("_")},
                            "inconclusive": sum(agg.inconclusive.values())}
        print("part %-22s %6d cases %6.1fs %s" % (name, len(todo), time.time() - t0,
              " ".join("%s=%d" % (k, v) for k, v in sorted(agg.c.items()) if not k.startswith("_"))), flush=True)
        return agg

    def _known(self):
        r = []
        try:
            for l in open(FINDINGS):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == self.prop:
                    r.append((m.group(2), m.group(3).strip()))
        except OSError:
            pass
        return r

    def _all_known(self, keys):
        kn = {k for k, _ in self._known()}
        return all(keymatch(k, kn) for k in keys)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def finish(self):
        known = self._known()
        kn = {k for k, _ in known}
        unlisted = [v for v in self.total.viol if not keymatch(v[0], kn)]
        listed = {keymatch(v[0], kn) for v in self.total.viol if keymatch(v[0], kn)}
        for k, what in known:
            if k in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        rdir = os.path.join(VERIF, "evidence", "replay", self.prop)
        shutil.rmtree(rdir, ignore_errors=True)
        seen = set()
        for n, (key, what, files) in enumerate(unlisted[:20]):
            d = os.path.join(rdir, "%02d" % n)
            os.makedirs(d, exist_ok=True)
            for fn, txt in files.items():
                with open(os.path.join(d, fn), "wb" if isinstance(txt, bytes) else "w") as f:
                    f.write(txt)
            with open(os.path.join(d, "what.txt"), "w") as f:
                f.write("key: %s\n%s\n" % (key, what))
            print("violation [%s]: %s" % (key, what[:600]))
            print("VIOLATION property=%s replay=%s" % (self.prop, d))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {
                  "evaluations": int(sum(p["cases"] for p in self.parts.values())),
                  "distinct_nontrivial": len(self.total.sig),
                  "rule": self.rule,
                  "samples": self.total.samples[:8],
                  "parts": self.parts,
                  "inconclusive": {k[:400]: v for k, v in self.total.inconclusive.most_common(10)},
                  "known_findings_seen": sorted(listed),
                  "notes": self.notes},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(unlisted)}
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k, v in self.total.inconclusive.most_common(3):
            print("inconclusive x%d: %s" % (v, k[-1200:]))
        self.cleanup()
        if unlisted:
            sys.exit(1)
        nerr = sum(v for k, v in self.total.inconclusive.items() if k.startswith("harness error"))
        if nerr > 0:
            print("error: the check itself failed on %d cases" % nerr)
            sys.exit(3)
        if not self.only and not self.failed_parts and len(self.total.sig) < 2:
            print("error: nothing was observed")
            sys.exit(3)
        print("%s: held on everything explored (%d cases, %d distinct non-trivial, %.1fs)" %
              (self.prop, ev["coverage"]["evaluations"], len(self.total.sig), time.time() - self.t0))
        sys.exit(0)


def keymatch(k, kn):
    return k if k in kn else None


def put(d, name, text):
    p = os.path.join(d, name)
    with open(p, "wb" if isinstance(text, bytes) else "w") as f:
        f.write(text)
    return p


def read(p):
    try:
        with open(p, errors="replace") as f:
            return f.read()
    except OSError:
        return None
