"""Runner, verdicts, evidence. See DESIGN.md."""
import glob, hashlib, json, multiprocessing as mp, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

from . import build as B

VERIF = B.VERIF
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:allocator_may_return_null=1:hard_rss_limit_mb=3000:"
                    "detect_stack_use_after_return=0:symbolize=1:print_legend=0:alloc_dealloc_mismatch=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "LC_ALL": "C", "LANG": "C", "PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
    "HOME": "/nonexistent",
}
if os.environ.get("LLVM_PROFILE_FILE"):
    SAN_ENV["LLVM_PROFILE_FILE"] = os.environ["LLVM_PROFILE_FILE"]
SYMB = "/usr/bin/llvm-symbolizer-18"
if os.path.exists(SYMB):
    SAN_ENV["ASAN_SYMBOLIZER_PATH"] = SYMB


class Inconclusive(Exception):
    pass


class Res:
    """One execution of a LattE program: exit status, output, files it left."""
    __slots__ = ("rc", "out", "err", "timeout", "dir", "cmd", "limit")

    def files_text(self):
        """The input files named on the command line, for the witness."""
        t = ""
        for a in self.cmd[1:]:
            for n in (a.split("=")[-1],):
                try:
                    p = os.path.join(self.dir, n)
                    if n and os.path.isfile(p) and os.path.getsize(p) < 4000:
                        t += "--- %s\n%s" % (n, open(p, errors="replace").read())
                except (ValueError, OSError):
                    pass
        return t

    def crash(self):
        """Description of an abnormal end (sanitizer report, signal, assertion), else None."""
        if self.timeout:
            return None
        m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*: runtime error: [^\n]*)", self.err)
        if m:
            return m.group(1).strip()
        if self.rc < 0:
            m = re.search(r"[^\n]*(Assertion|terminate called|what\(\)|vec range|index out|error)[^\n]*", self.err)
            return "killed by signal %d%s" % (-self.rc, (": " + m.group(0).strip()[:200]) if m else "")
        if self.rc == 99:
            return "sanitizer exit"
        if self.rc in (134, 136, 139):
            return "exit %d (signal in child)" % self.rc
        return None

    def site(self):
        """First stack frame inside the code under test (file:function, no line numbers)."""
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (/[^\s:]+):\d+", self.err):
            if "/code/" in m.group(2):
                fn = re.sub(r"\(.*", "", m.group(1))
                return os.path.basename(m.group(2)) + ":" + fn
        m = re.search(r"([\w./+-]+\.(?:cpp|h|hpp)):\d+:[^\n]*Assertion `([^\n']*)'", self.err)
        if m:
            return os.path.basename(m.group(1)) + ":assert:" + m.group(2)[:80]
        m = re.search(r"/(\w+\.(?:cpp|h|hpp)):\d+:\d+: runtime error: (\w+ \w+)", self.err)
        if m:
            return m.group(1) + ":" + m.group(2)
        return ""

    def file(self, name):
        p = os.path.join(self.dir, name)
        try:
            return open(p, errors="replace").read()
        except FileNotFoundError:
            return None


_scratch = None


def scratch_root():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="latte-verif-")
    return _scratch


class Lab:
    """Scratch directory of one worker + the binaries under test."""

    def __init__(self, bindir, root):
        self.bindir = bindir
        self.dir = os.path.join(root, "w%d" % os.getpid())
        os.makedirs(self.dir, exist_ok=True)
        self.execs = 0
        self.timeouts = 0

    def fresh(self):
        for n in os.listdir(self.dir):
            p = os.path.join(self.dir, n)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)
        # latte-maximize bbs / latte-minimize bbs run INSTALLPREFIX/bin/count
        os.mkdir(os.path.join(self.dir, ".inst"))
        os.symlink(self.bindir, os.path.join(self.dir, ".inst", "bin"))
        # the Maple scripts of the source tree, for a stand-in of Maple
        os.mkdir(os.path.join(self.dir, ".inst", "share"))
        for n in ("simplify.add", "simplify2.add", "simplify3.add"):
            os.symlink("/repo/code/latte/" + n, os.path.join(self.dir, ".inst", "share", n))

    def put(self, name, text):
        with open(os.path.join(self.dir, name), "w") as f:
            f.write(text)

    def run(self, prog, *args, stdin="", timeout=30, retry=True, env=None, prefix=(), bindir=None):
        r = self._run(prog, args, stdin, timeout, env, prefix, bindir)
        r.limit = timeout
        if r.timeout and retry:  # re-run once before calling it inconclusive
            r = self._run(prog, args, stdin, timeout * 2, env, prefix, bindir)
            r.limit = timeout * 2
        return r

    def _run(self, prog, args, stdin, timeout, env, prefix, bindir):
        self.execs += 1
        e = dict(SAN_ENV)
        e["TMPDIR"] = self.dir
        if env:
            e.update(env)
        exe = os.path.join(bindir or self.bindir, prog)
        r = Res()
        r.cmd = [prog] + list(args)
        r.dir = self.dir
        p = subprocess.Popen(list(prefix) + [exe] + list(args), cwd=self.dir, env=e, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, er = p.communicate(stdin.encode(), timeout=timeout)
            r.timeout = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, er = p.communicate()
            r.timeout = True
            self.timeouts += 1
        r.rc = p.returncode
        r.out = o.decode(errors="replace")
        r.err = er.decode(errors="replace")
        # cddlib's floating-point LP reads out of bounds when coefficients exceed its precision: not LattE's doing
        if "AddressSanitizer" in r.err and re.search(r"#0 0x[0-9a-f]+ in d?ddf_\w+[^\n]*libcdd|#[1-4] 0x[0-9a-f]+ in ddf_\w+[^\n]*libcdd", r.err):
            raise Inconclusive("floating-point LP of cddlib: " + " ".join(r.cmd))
        return r


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def case_key(desc):
    return hashlib.sha256(json.dumps(desc, sort_keys=True).encode()).hexdigest()[:16]


# ---- parallel case execution -----------------------------------------------------------------
_G = {}


def _init(bindirs, root, fn):
    _G["labs"] = {k: Lab(v, root) for k, v in bindirs.items()}
    _G["fn"] = fn
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _work(case):
    lab = _G["labs"]["asan"] if "asan" in _G["labs"] else next(iter(_G["labs"].values()))
    e0, t0 = lab.execs, time.time()
    try:
        lab.fresh()
        out = _G["fn"](lab, case, _G["labs"])
        if isinstance(out, Out):
            out = out.d
        # out: dict(viol=[{what, key?}], obs={counter: n}, sets={name: [values]}, sample=..., nontrivial=bool, inconclusive=str)
    except Inconclusive as ex:
        out = {"inconclusive": str(ex) or "inconclusive"}
    except Exception:
        out = {"error": traceback.format_exc()}
    out["execs"] = lab.execs - e0
    out["case"] = case
    out["wall"] = time.time() - t0
    return out


class Out:
    """What one case observed."""

    def __init__(self):
        self.d = {"viol": [], "obs": {}, "sets": {}, "nontrivial": False, "evals": 1}

    def viol(self, what, sig=None, **kw):
        v = {"what": what}
        if sig:
            v["sig"] = sig
        v.update(kw)
        self.d["viol"].append(v)

    def obs(self, k, n=1):
        self.d["obs"][k] = self.d["obs"].get(k, 0) + n

    def see(self, k, *vals):
        self.d["sets"].setdefault(k, []).extend(vals)

    def nontrivial(self, key=None):
        self.d["nontrivial"] = True
        if key is not None:
            self.d["nkey"] = key

    def sample(self, s):
        self.d["sample"] = s

    def inconclusive(self, why):
        self.d["inconclusive"] = why

    def ended(self, res, light=False, ok=(0,)):
        """True if the program ended normally with an exit status in ok; otherwise records the
        abnormal end (or, for a program cut off on an input that is not certainly light, that
        the case decided nothing)."""
        if res.timeout:
            if light:
                self.viol("no answer within %d s of a second attempt on a small input: %s"
                          % (res.limit, " ".join(res.cmd)), sig="hang:" + res.cmd[0], hang=True)
            else:
                self.inconclusive("timeout " + " ".join(res.cmd))
            return False
        c = res.crash()
        if c:
            self.viol("%s: abnormal end: %s at %s\n%s" % (" ".join(res.cmd), c, res.site(), res.files_text()),
                      sig="crash:%s:%s" % (res.cmd[0], res.site() or c[:60]))
            return False
        if ok is not None and res.rc not in ok:
            self.viol("%s: exit status %d: %s\n%s" % (" ".join(res.cmd), res.rc, res.err.strip()[-300:], res.files_text()))
            return False
        return True


class Check:
    def __init__(self, prop, title, rule, level="exploration"):
        self.prop, self.title, self.rule, self.level = prop, title, rule, level
        self.t0 = time.time()
        self.viol = []
        self.known_hits = []
        self.obs = {}
        self.sets = {}
        self.samples = []
        self.evals = 0
        self.nontrivial = set()
        self.execs = 0
        self.incon = []
        self.errors = []
        self.assumptions = []
        self.known = [k for k in load_known() if k.get("property") == prop and not k.get("fixed")]
        self.min_nontrivial = 1
        self.cut = None
        self.deadline = 780 if TIER != "thorough" else 6 * 3600

    def rng(self, *tags):
        return random.Random("%d|%s|%s" % (SEED, self.prop, "|".join(map(str, tags))))

    def n(self, quick, thorough):
        m = float(os.environ.get("VERIF_SCALE", "1"))
        return int((thorough if TIER == "thorough" else quick) * m)

    def absorb(self, out):
        self.execs += out.get("execs", 0)
        if os.environ.get("VERIF_SLOW") and out["wall"] > float(os.environ["VERIF_SLOW"]):
            print("SLOW %.1f" % out["wall"], out["case"], str(out.get("sample"))[:200], out.get("inconclusive"), flush=True)
        if "error" in out:
            self.errors.append((out["case"], out["error"]))
            return
        if out.get("inconclusive"):
            self.incon.append((out["case"], out["inconclusive"]))
        self.evals += out.get("evals", 1)
        if out.get("nontrivial"):
            self.nontrivial.add(out.get("nkey") or case_key(out["case"]))
        for k, v in (out.get("obs") or {}).items():
            self.obs[k] = self.obs.get(k, 0) + v
        for k, v in (out.get("sets") or {}).items():
            self.sets.setdefault(k, set()).update(v)
        if out.get("sample") is not None and len(self.samples) < 8:
            self.samples.append(out["sample"])
        for v in out.get("viol") or []:
            self.violation(v["what"], dict(case=out["case"], detail=v), v.get("sig"))

    def violation(self, what, replay, sig=None):
        """sig: stable identification of the failing input or call site."""
        sig = sig or case_key(replay.get("case"))
        for k in self.known:
            if k["sig"] == sig:
                self.known_hits.append(k)
                return
        self.viol.append((what, replay, sig))

    def run_cases(self, fn, cases, bindirs, procs=None, chunk=1):
        procs = procs or min(16, (os.cpu_count() or 4))
        root = scratch_root()
        with mp.get_context("fork").Pool(procs, _init, (bindirs, root, fn)) as pool:
            hangs = 0
            for out in pool.imap_unordered(_work, cases, chunk):
                self.absorb(out)
                hangs += sum(1 for v in out.get("viol") or [] if v.get("hang"))
                if len(self.viol) >= 40 or hangs >= 3 or time.time() - self.t0 > self.deadline:
                    self.cut = "stopped early: %d violations, %d s" % (len(self.viol), time.time() - self.t0)
                    pool.terminate()
                    break
        for w in glob.glob(os.path.join(root, "w*")):
            shutil.rmtree(w, ignore_errors=True)

    def finish(self):
        wall = time.time() - self.t0
        global _scratch
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
            _scratch = None
        cov = {
            "evaluations": self.evals,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule,
            "samples": self.samples or ["none"],
            "program_executions": self.execs,
            "observed": {k: self.obs[k] for k in sorted(self.obs)},
            "distinct": {k: len(v) for k, v in sorted(self.sets.items())},
            "distinct_values": {k: sorted(map(str, v))[:40] for k, v in sorted(self.sets.items()) if len(v) <= 40},
            "inconclusive": len(self.incon),
            "cut_short": self.cut,
            "inconclusive_examples": [str(x)[:300] for x in self.incon[:3]],
        }
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(wall, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(EVID), exist_ok=True)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        seen = set()
        for k in self.known_hits:
            if k["sig"] not in seen:
                seen.add(k["sig"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        print("%s: %d evaluations, %d distinct non-trivial, %d program executions, %d inconclusive, %d violations, %.1fs"
              % (self.prop, self.evals, len(self.nontrivial), self.execs, len(self.incon), len(self.viol), wall))
        if self.viol:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            bysig = {}
            for what, rep, sig in self.viol:
                bysig.setdefault(sig, (what, rep))
            for i, (sig, (what, rep)) in enumerate(bysig.items()):
                if i >= int(os.environ.get("VERIF_MAXV", "10")):
                    print("... %d more" % (len(bysig) - i))
                    break
                p = os.path.join(rd, "%s-%s.json" % (self.prop, re.sub(r"\W+", "_", sig)[:60]))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "what": what, "sig": sig, "seed": SEED, **rep}, f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (self.prop, p))
                print("   " + what[:600].replace("\n", "\n   "))
            return 1
        if self.errors:
            print("HARNESS ERROR (%d):" % len(self.errors), self.errors[0][0], "\n", self.errors[0][1])
            return 3
        if len(self.nontrivial) < (self.min_nontrivial if not self.cut else 1):
            print("INCONCLUSIVE: only %d non-trivial cases observed (need %d)" % (len(self.nontrivial), self.min_nontrivial))
            return 4
        if len(self.incon) > max(3, 0.2 * max(1, self.evals)):
            print("INCONCLUSIVE: %d of %d cases" % (len(self.incon), self.evals), self.incon[:2])
            return 4
        return 0


_collected = None


def collect(names):
    """The workloads of other checks: {name: dict(prop, programs, fn, cases)}."""
    global _collected
    import runpy
    out = {}
    for n in names:
        _collected = []
        runpy.run_path(os.path.join(VERIF, "checks", n + ".py"), run_name="workload")
        out[n] = _collected[0]
    _collected = None
    return out


def drive(prop, title, rule, programs, fn, cases, assumptions=(), flavors=("asan",), level="exploration",
          min_nontrivial=1, harnesses=(), post=None):
    if _collected is not None:      # being read by collect()
        _collected.append(dict(prop=prop, programs=programs, fn=fn, cases=cases, harnesses=harnesses, flavors=flavors))
        return
    # Body of a check script. cases: function(check) -> list of JSON-able case descriptions, each
    # re-executable on its own; `check.py --replay FILE` re-executes one recorded case.
    rc = 2
    try:
        ck = Check(prop, title, rule, level)
        ck.assumptions = list(assumptions)
        ck.min_nontrivial = int(min_nontrivial * min(1, float(os.environ.get("VERIF_SCALE", "1"))))
        # VERIF_FLAVOR=cov: measure what the workload reaches (no verdict)
        dirs = {f: B.build(os.environ.get("VERIF_FLAVOR", f), programs, harnesses) for f in flavors}
        if len(sys.argv) > 2 and sys.argv[1] == "--replay":
            cs = [json.load(open(sys.argv[2]))["case"]]
            ck.min_nontrivial = 0
        else:
            cs = cases(ck)
        ck.run_cases(fn, cs, dirs)
        if post:
            post(ck)
        rc = ck.finish()
    except B.BuildError as e:
        # the tree does not build: an error of the check's input, not a verdict
        print("BUILD FAILED\n" + str(e))
    finally:
        if _scratch:
            shutil.rmtree(_scratch, ignore_errors=True)
    sys.exit(rc)
