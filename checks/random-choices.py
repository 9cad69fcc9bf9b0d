import sys, os, re, types
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core

# the workloads of the other checks, (share of the cases)
WORK = {"count-exact": 4, "count-algorithms": 4, "dilation": 2, "ehrhart-polynomial": 3, "ehrhart-series": 3, "generating-function": 1,
        "volume": 3, "integrate": 4, "optimize": 3, "knapsack": 1, "triangulation": 3, "cone-pipeline": 3,
        "hilbert-basis": 2, "top-ehrhart": 1, "count-large": 3}
LOAD = core.collect(WORK)
KNOWN = [k for k in core.load_known() if "sig" in k]


class RandLab(core.Lab):
    """Every program draws the chosen random numbers."""

    def __init__(self, lab, o, mode):
        self.__dict__.update(lab.__dict__)
        self.o, self.mode, self.base, self.cut = o, mode, lab, False

    def run(self, prog, *args, stdin="", timeout=30, retry=True, env=None, prefix=(), bindir=None):
        e = dict(env or {}, VERIF_RAND=self.mode)
        if prog == "count" and "--nonsimplicial-subdivision" in args:
            e = env             # needs lifting heights which are generic
        r = self._run(prog, args, stdin, 20, e, prefix, bindir)
        r.limit = 20
        self.base.execs += 1
        if r.timeout:
            # unlucky numbers may cost time; only answers are judged
            self.cut = True
            raise core.Inconclusive("cut off")
        self.o.obs("executions")
        self.o.see("programs", prog)
        n = len(re.findall(r"Generic vector chosen unsuccessfully|New generic vector", r.err))
        if n:
            self.o.obs("executions in which a generic vector had to be chosen again")
        return r


def case(lab, c, labs):
    o = core.Out()
    v = RandLab(lab, o, c["mode"])
    w = LOAD[c["w"]]
    try:
        d = w["fn"](v, c["case"], {"asan": v})
        d = d.d if isinstance(d, core.Out) else d
        for x in d.get("viol", []):
            if any(k["sig"] == x.get("sig") and k["property"] == w["prop"] for k in KNOWN):
                o.obs("findings of other checks")
                continue
            x = dict(x)
            x["what"] = "random numbers %s: %s" % (c["mode"], x["what"])
            o.d["viol"].append(x)
        o.d["nontrivial"] = d.get("nontrivial", False)
        o.see("families", *[str(x) for x in d.get("sets", {}).get("families", [])])
        if d.get("sample"):
            o.sample("%s: %s" % (c["mode"], d["sample"]))
        if d.get("inconclusive"):
            o.inconclusive(d["inconclusive"])
    except core.Inconclusive as ex:
        if v.cut:
            o.obs("cut off after 20 s")
        else:
            o.inconclusive(str(ex))
    o.see("workloads", c["w"])
    o.see("random numbers", c["mode"].split(":")[0])
    return o


def cases(ck):
    out = []
    r = ck.rng("modes")
    for n in sorted(WORK):
        w = LOAD[n]
        cs = list(w["cases"](types.SimpleNamespace(prop=w["prop"], n=lambda q, t: q, rng=ck.rng)))
        ck.rng(n).shuffle(cs)
        for x in cs[:ck.n(45 * WORK[n], 600 * WORK[n])]:
            k = r.choice(["zero", "bits", "bits", "small", "small", "same", "max", "mix", "other"])
            out.append(dict(id="C22-" + x["id"], w=n, case=x, mode="%s:%d:%d" % (k, r.choice([1, 2, 4, 6, 10, 16, 30, 60]), r.randint(1, 10 ** 6))))
    ck.rng("order").shuffle(out)
    return out


core.drive("C22", "answers hold whatever random numbers are drawn",
           "seeded samples of the workloads of the other checks, every program execution with the first 1-60 values of rand() replaced by zeros, bits, "
           "small, equal, largest or other values; judged by the oracle of the check the workload comes from. Non-trivial: as there",
           sorted({p for w in LOAD.values() for p in w["programs"]}), case, cases, min_nontrivial=600)
