import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D

ALGO = [["--homog"], ["--dual"], ["--irrational-primal"], ["--irrational-all-primal"], ["--exponential"], ["--polynomial"],
        ["--maxdet=7"], ["--maxdet=7", "--exponential"], ["--maxdet=1000", "--exponential"],
        ["--irrational-primal", "--maxdet=5"], ["--irrational-primal", "--maxdet=3", "--exponential"],
        ["--irrational-primal", "--exponential"], ["--irrational-all-primal", "--maxdet=10"],
        ["--irrational-all-primal", "--maxdet=100", "--exponential"], ["--irrational-all-primal", "--exponential"],
        ["--irrational-all-primal", "--no-decomposition", "--exponential"],
        ["--irrational-primal", "--no-decomposition", "--exponential"], ["--irrational-primal", "--no-decomposition"],
        ["--nonsimplicial-subdivision", "--irrational-primal"]]
ENGINE = [[], [], ["--compute-vertex-cones=cdd"], ["--compute-vertex-cones=4ti2"], ["--compute-vertex-cones=lrs"],
          ["--dualization=cdd"], ["--dualization=4ti2"], ["--triangulation=cddlib"], ["--triangulation=cdd"],
          ["--triangulation=4ti2"], ["--triangulation=delone"], ["--redundancy-check=full-cddlib"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"],
          ["--triangulation=4ti2", "--triangulation-max-height=50"], ["--triangulation=cddlib", "--triangulation-max-height=2"], ["--triangulation=delaunay"],
          ["--triangulation=4ti2", "--triangulation-max-height=3"], ["--triangulation=cddlib", "--triangulation-bias=3"],
          ["--smith-form=ilio"], ["--dualization=4ti2", "--triangulation=4ti2"],
          ["--dualization=cdd", "--triangulation=cddlib", "--compute-vertex-cones=cdd"]]
HEAVY = ("--homog", "--no-decomposition", "--maxdet=1000", "--irrational-all-primal", "--exponential")


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    algos = [r.choice(ALGO) for _ in range(2)] + [[]]
    heavy = any(h in a for a in algos for h in HEAVY)
    for _ in range(100):
        p = gen.any_poly(r, dmax=3 if heavy and r.random() < .6 else 4)
        if heavy and p.d > 3 and ("hull" in p.kind or "pyramid" in p.kind or p.cost() > 400):
            continue
        break
    if not heavy and r.random() < .15:
        p = gen.wide_poly(r)
    form = r.choice(D.FORMS if "wide" not in p.kind else ["latte", "nonneg", "cdd"])
    args = D.put(lab, p, r, form)
    text = open(os.path.join(lab.dir, "p")).read()
    exp = p.count()
    o.see("families", p.kind.split("+")[0])
    o.see("dims", (p.d, p.dim()))
    answers = {}
    for a in algos:
        opt = a + D.given(r.choice(ENGINE), p)
        if "--homog" in opt and r.random() < .5:
            opt = a
        if "--nonsimplicial-subdivision" in opt:
            opt = a
        full = opt + args
        lab.put("p", text)
        if r.random() < .12:
            full = D.old_style(r, full, p, lab)
            o.obs("options of the older versions")
        res = lab.run("count", *full, "p", timeout=15, retry=D.light(p))
        if not o.ended(res, light=D.light(p) and p.cost() < 500):
            if res.timeout:
                o.obs("timeouts")
                o.d.pop("inconclusive", None)
            continue
        got = D.count_file(res)
        answers[" ".join(opt)] = got
        o.obs("runs")
        o.see("option sets", " ".join(opt))
        if got != exp:
            o.viol("count %s: answer %s, the polytope has %d lattice points (%s)\n%s"
                   % (" ".join(full), got, exp, D.describe(p), res.files_text()))
        elif exp > 0 and p.dim() > 0 and res.out.split()[-1:] != [str(exp)]:
            o.viol("count %s: standard output ends with %r, the polytope has %d lattice points (%s)\n%s"
                   % (" ".join(full), res.out[-80:], exp, D.describe(p), res.files_text()))
    o.d["evals"] = len(answers)
    if exp > 1 and len(answers) > 1 and p.dim() > 1:
        o.nontrivial()
    o.sample("%s %s: %s" % (D.describe(p), form, answers))
    if not answers and not o.d["viol"]:
        o.inconclusive("no run finished")
    return o


core.drive("C02", "all documented algorithms and engines give the same exact count",
           "seeded random polytopes (as in count-exact, d<=4), each counted with three sets of documented algorithm and "
           "engine options, every answer compared with a lattice enumeration. Non-trivial: dimension >= 2, at least 2 "
           "lattice points and at least two answers", ["count"], case,
           lambda ck: D.cases(ck.prop, ck.n(1100, 15000)), min_nontrivial=300)
