import sys, os, re, shutil, types, hashlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core

# the workloads of other checks, (share of the cases)
WORK = {"count-exact": 3, "count-algorithms": 5, "dilation": 2, "ehrhart-polynomial": 2, "ehrhart-series": 3, "generating-function": 3,
        "volume": 3, "integrate": 3, "optimize": 4, "knapsack": 2, "format-conversion": 2, "triangulation": 3, "cone-pipeline": 3,
        "hilbert-basis": 2, "invalid-input": 3, "top-ehrhart": 2}
LOAD = core.collect(WORK)
# files of earlier runs, of the programs themselves and of the programs they start
STALE = """Check_emp.lp Check_emp.lps Check_emp.out Check_red Check_red.out Check_red.latte LP.ine LP.out LP.lps latte_cdd.ine latte_cdd.ext
latte_cdd.ead latte_cdd.adj latte_cdd.out latte_cdd.jnk latte_lrs.ine latte_lrs.ext latte_BS.latte latte_BS latte_nonredundant_input numOfLatticePoints
numOfUnimodularCones latte_stats totalTime decomposed_cones tri.ext tri.ead tri.icd tri.out IH.ext IH.ine func.rat simplify.sum simplify.term p.rat p.gen
q out hc vc dual.ext compute-top-ehrhart.mpl redcheck.lat p.ext p.cdd p.ead inner.dat p.triang k.triang c.triang Gro.latte""".split()
JUNK = ["3 4\n1 1 0 0\n1 0 1 0\n5 -1 -1 0\n", "", "* Optimal Solution:\n 17\nbegin\n 1 3 rational\n 1 0 0\nend\n", "8\n", "junk junk\n", "0\n" * 50]
# lines of standard output and files which report times and process numbers
TIMES = re.compile(r"(?i)\btime|\bsec\b|seconds|Invocation|^\s*\d+\.\d+\s*$")
# written by the programs about their own performance
IGNORE = re.compile(r"(latte_stats|totalTime|\.inst|.*\.stats|(Check_|LP\.|latte_cdd|latte_lrs|latte_BS|IH\.|tri\.).*)$")


def snap(d):
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if IGNORE.match(n) or not os.path.isfile(p) or os.path.islink(p):
            continue
        out[n] = open(p, "rb").read()
    return out


class TwoLab(core.Lab):
    """Every program runs a second time: in another directory which earlier runs have littered, with a hostile environment,
    other memory contents, a long working-directory path and a newly written copy of the input files."""

    def __init__(self, lab, o, r):
        self.__dict__.update(lab.__dict__)
        self.o, self.base, self.r = o, lab, r
        self.n = 0

    def run(self, prog, *args, stdin="", timeout=30, retry=True, env=None, prefix=(), bindir=None):
        r = self.r
        before = snap(self.dir)
        a = core.Lab.run(self, prog, *args, stdin=stdin, timeout=timeout, retry=retry, env=env, prefix=prefix, bindir=bindir)
        self.base.execs += 1
        if a.timeout or a.rc < 0 and a.crash():
            return a
        after = snap(self.dir)
        what = "%s %s" % (prog, " ".join(args))
        # what was asked to be written: named on the command line, or by the documentation
        named = {re.sub(r"^.*=", "", x) for x in args} | {"out"}
        touched = [n for n in before if after.get(n) != before[n]]
        inputs = [x for x in touched if x in ("p", "f", "p.cost", "k", "k.rays", "c.ext", "maple") and x != args[-1] or x == "p" and prog in ("count", "integrate", "ehrhart", "latte-maximize", "latte-minimize")]
        if inputs:
            self.o.viol("%s: the input file %s was changed or removed\n%s" % (what, inputs, a.files_text()))
        # second directory
        self.n += 1
        sub = os.path.join(self.dir, "." + r.choice(["x" * 200, "a b", "d"]))
        os.makedirs(sub)
        for n in STALE:
            if n not in before and n not in named and r.random() < .7:
                with open(os.path.join(sub, n), "w") as f:
                    f.write(r.choice(JUNK))
        for n, b in before.items():
            with open(os.path.join(sub, n), "wb") as f:
                f.write(b)
            shutil.copymode(os.path.join(self.dir, n), os.path.join(sub, n)) if os.path.exists(os.path.join(self.dir, n)) else None
        shutil.copytree(os.path.join(self.dir, ".inst"), os.path.join(sub, ".inst"), symlinks=True)
        stale = snap(sub)
        b = core.Lab(self.bindir, self.dir)
        b.dir = sub
        e = dict(env or {})
        if "PATH" in e:
            e["PATH"] = e["PATH"].replace(self.dir, sub)
        e.update(LC_ALL=r.choice(["C", "C.UTF-8", "de_DE.UTF-8"]), LANG="de_DE.UTF-8", HOME=sub, COLUMNS="7", JUNK="z" * r.randint(0, 3000),
                 ASAN_OPTIONS=core.SAN_ENV["ASAN_OPTIONS"] + ":max_malloc_fill_size=100000:malloc_fill_byte=%d:max_free_fill_size=1000:free_fill_byte=%d"
                 % (r.randrange(256), r.randrange(256)))
        args2 = list(args)
        if before.get(args[-1] if args else "") is not None and r.random() < .5:
            args2[-1] = os.path.join(sub, args[-1])
            self.o.obs("second run: absolute path to the input")

        def norm(s):
            return "\n".join(l for l in s.replace(sub + "/", "").split("\n") if not TIMES.search(l))
        res = core.Lab.run(b, prog, *args2, stdin=stdin, timeout=timeout * 2, retry=retry, env=e, prefix=prefix, bindir=bindir)
        self.base.execs += 1
        self.o.obs("pairs of runs")
        self.o.see("programs", prog)
        if res.timeout:
            self.o.obs("second run cut off")
        else:
            after2 = snap(sub)
            diff = []
            if res.rc != a.rc:
                diff.append("exit status %s, then %s: %s" % (a.rc, res.rc, res.err.strip()[-200:]))
            elif norm(a.out) != norm(res.out):
                diff.append("standard output %r, then %r" % (norm(a.out)[-200:], norm(res.out)[-200:]))
            else:
                for n, x in after.items():
                    if after2.get(n) != x and norm(x.decode(errors="replace")) != norm((after2.get(n) or b"").decode(errors="replace")):
                        diff.append("file %s: %r, then %r" % (n, x[-200:], (after2.get(n) or b"missing")[-200:]))
                # nothing else changes: what the first run did not write or remove stays as it was
                for n, x in stale.items():
                    if n in before and n not in touched and after2.get(n) != x:
                        diff.append("file %s changed" % n)
            self.o.obs("files compared", len(after))
            if diff:
                self.o.viol("%s: a second run in a directory with files of other runs differs: %s\n%s" % (what, "; ".join(diff)[:1500], a.files_text()))
        shutil.rmtree(sub)
        return a


def case(lab, c, labs):
    o = core.Out()
    import random
    v = TwoLab(lab, o, random.Random(c["id"] + str(c["case"].get("seed"))))
    w = LOAD[c["w"]]
    try:
        d = w["fn"](v, c["case"], {"asan": v})
        d = d.d if isinstance(d, core.Out) else d
        o.d["nontrivial"] = d.get("nontrivial", False) or c["w"] == "invalid-input"
        o.see("families", *[str(x) for x in d.get("sets", {}).get("families", [])])
        if d.get("sample"):
            o.sample(d["sample"])
    except core.Inconclusive as ex:
        o.inconclusive(str(ex))
    o.see("workloads", c["w"])
    return o


def cases(ck):
    out = []
    for n in sorted(WORK):
        w = LOAD[n]
        cs = list(w["cases"](types.SimpleNamespace(prop=w["prop"], n=lambda q, t: q, rng=ck.rng)))
        ck.rng(n).shuffle(cs)
        out += [dict(id="C19-" + x["id"], w=n, case=x) for x in cs[:ck.n(20 * WORK[n], 200 * WORK[n])]]
    ck.rng("order").shuffle(out)
    return out


core.drive("C19", "answers depend on the input alone",
           "seeded samples of the workloads of the other checks; every program execution is repeated in a directory littered with files of "
           "other runs, under another locale, environment, working-directory path and memory fill; exit status, standard output and files written must be the same "
           "apart from times, and input files untouched. Non-trivial: as in the check the workload comes from",
           sorted({p for w in LOAD.values() for p in w["programs"]}), case, cases, min_nontrivial=200)
