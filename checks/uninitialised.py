import sys, os, re, glob, random, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core

# the workloads of the other checks, (share of the cases)
WORK = {"count-exact": 3, "count-algorithms": 4, "dilation": 2, "ehrhart-polynomial": 2, "ehrhart-series": 2, "generating-function": 3,
        "volume": 3, "integrate": 4, "optimize": 3, "knapsack": 2, "format-conversion": 2, "triangulation": 2, "cone-pipeline": 3,
        "hilbert-basis": 2, "invalid-input": 3, "top-ehrhart": 2, "count-large": 2,
        "aggregation": 1, "todd": 1}
LOAD = core.collect(WORK)
VG = ["valgrind", "-q", "--tool=memcheck", "--leak-check=no", "--error-exitcode=77", "--num-callers=12", "--fullpath-after=",
      "--expensive-definedness-checks=yes", "--log-file=.vg.%p"]


class VgLab(core.Lab):
    """Every program runs under memcheck."""

    def __init__(self, lab, o):
        self.__dict__.update(lab.__dict__)
        self.o = o
        self.base = lab

    def run(self, prog, *args, stdin="", timeout=30, retry=True, env=None, prefix=(), bindir=None):
        r = self._run(prog, args, stdin, 25, env, VG, bindir)
        r.limit = 25
        self.base.execs += 1
        log = ""
        for f in glob.glob(os.path.join(self.dir, ".vg.*")):
            log += open(f, errors="replace").read()
            os.unlink(f)
        if r.timeout:
            self.o.obs("cut off")
        else:
            self.o.obs("executions under memcheck")
            self.o.see("programs", prog)
        # allocations refused for their size and handled are not errors of memory use
        log = "\n".join(re.sub(r"^==\d+== ?", "", l) for l in log.split("\n"))
        for b in re.split(r"\n\s*\n", log):
            top = next((l for l in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*)", b) if not re.search(r"lib(c|m|gmp|gmpxx|ntl|stdc\+\+)[.-]|vgpreload|/usr/include/|\((?!in )(?!/)", l)), "")
            if re.search(r"\(in .*/lib(cdd|4ti2|lrs|glpk)", top):
                self.o.obs("reports inside other libraries, not judged")
            elif re.search(r"uninitialised|Invalid (read|write|free)|Mismatched free|overlap in|points to unaddressable", b):
                site = [m for m in re.findall(r"(?:at|by) 0x[0-9A-F]+: (.*)", b)]
                self.o.viol("%s %s: %s\n%s" % (prog, " ".join(args), b.strip()[:1500], r.files_text()))
                self.o.see("reports", " < ".join(site[:3]))
                break
        return r


def case(lab, c, labs):
    o = core.Out()
    v = VgLab(lab, o)
    w = LOAD[c["w"]]
    try:
        d = w["fn"](v, c["case"], {"asan": v})
        d = d.d if isinstance(d, core.Out) else d
        o.d["nontrivial"] = d.get("nontrivial", False) or c["w"] == "invalid-input"
        o.see("families", *[str(x) for x in d.get("sets", {}).get("families", [])])
        if d.get("sample"):
            o.sample(d["sample"])
    except core.Inconclusive as ex:
        o.inconclusive(str(ex))
    o.see("workloads", c["w"])
    return o


def cases(ck):
    out = []
    for n in sorted(WORK):
        w = LOAD[n]
        cs = list(w["cases"](types.SimpleNamespace(prop=w["prop"], n=lambda q, t: q, rng=ck.rng)))
        ck.rng(n).shuffle(cs)
        out += [dict(id="C18-" + x["id"], w=n, case=x) for x in cs[:ck.n(14 * WORK[n], 200 * WORK[n])]]
    ck.rng("order").shuffle(out)
    return out


core.drive("C18", "no uninitialised or freed memory is used",
           "seeded samples of the workloads of all other checks, every program execution under valgrind memcheck; a report of an "
           "uninitialised value or an invalid access is a violation. Non-trivial: as in the check the workload comes from",
           sorted({p for w in LOAD.values() for p in w["programs"]}), case, cases, flavors=("plain",), min_nontrivial=200)
