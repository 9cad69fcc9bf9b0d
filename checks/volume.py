import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from math import factorial, comb
from vlib import core, gen, geom as G, drive as D, closed

OPTS = [[], [], ["--dualization=cdd"], ["--triangulation=cddlib"], ["--compute-vertex-cones=4ti2"],
        ["--dualization=4ti2", "--triangulation=4ti2"], ["--compute-vertex-cones=cdd"], ["--redundancy-check=none"],
        ["--redundancy-check=cddlib"]]
ALGS = [[], ["--triangulate"], ["--cone-decompose"], ["--triangulate", "--cone-decompose"], ["--all"]]


def known(r):
    m = r.choice([1, 5, 1000, 2 ** 31 + 11, 10 ** 15])
    k = r.randrange(5)
    if k == 0:
        p = closed.box(r, m)[0]
        w = [p.ineqs[2 * i][0] + p.ineqs[2 * i + 1][0] for i in range(p.d)]
        if p.d > 6 or 0 in w:
            return known(r)
        v = F(1)
        for x in w:
            v *= x
    elif k == 1:
        d, n = r.randint(1, 7), r.randint(1, m)
        p, v = gen.std_simplex(r, d, n), F(n ** d, factorial(d))
    elif k == 2:
        d, n = r.randint(2, 4), r.randint(1, m)
        p, v = gen.crosspoly(r, d, n), F((2 * n) ** d, factorial(d))
    elif k == 3:
        p = closed.chain(r, m)[0]
        v = F(p.ineqs[-1][0] ** p.d, factorial(p.d))
    else:
        d = r.randint(1, 5)
        a = [r.randint(1, 50) for _ in range(d)]
        b = r.randint(1, m)
        p = gen.Poly("knap", d, [[0] + [int(i == j) for j in range(d)] for i in range(d)] + [[b] + [-x for x in a]])
        v = F(b ** d, factorial(d))
        for x in a:
            v /= x
    if p.d < 5 and r.random() < .5:
        p = gen.affine(p, gen.unimodular(r, p.d, steps=3), [r.randint(-m, m) for _ in range(p.d)])
    return p, v


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    opt, alg = r.choice(OPTS), r.choice(ALGS)
    if r.random() < .3:
        p, v = known(r)
        o.obs("closed forms")
        if p.d > 4:
            opt = []
    else:
        p = gen.wide_poly(r, full=True, maxtri=400) if r.random() < .15 else gen.any_poly(r, dmax=5 if r.random() < .2 else 4, full=True)
        v = G.volume(p.verts)
    form = r.choice(D.FORMS + ["latte"])
    if form == "vrep" and (p.d > 5 or len(p.verts) > 12):
        form = "latte"
    args = D.put(lab, p, r, form)
    if form != "vrep" and r.random() < .12:
        t = r.choice([1, 2, 3, 10, 12345])
        args.append("--dilation=%d" % t)
        v *= F(t) ** p.d
        o.obs("dilated")
    res = lab.run("integrate", "--valuation=volume", *alg, *opt, *args, "p", timeout=20)
    o.see("families", p.kind.split("+")[0])
    o.see("dims", p.d)
    o.see("algorithms", " ".join(alg))
    if not o.ended(res, light=D.light(p)):
        return o
    ans = re.findall(r"Answer:\s*(\S+)", res.out)
    o.obs("answers", len(ans))
    what = "integrate --valuation=volume %s (%s)" % (" ".join(alg + opt + args), D.describe(p))
    try:
        vals = [F(x) for x in ans]
    except ValueError:
        vals = []
    if not vals or any(x != v for x in vals):
        o.viol("%s: answers %s, the volume is %s\n%s" % (what, ans, v, res.files_text()))
    elif not D.decimals(res.out, v):
        o.viol("%s: the decimal expansion printed is not that of %s: %s\n%s" % (what, v, res.out[-300:], res.files_text()))
    if p.d > 1:
        o.nontrivial()
    o.sample("%s: %s" % (what, v))
    return o


core.drive("C08", "integrate --valuation=volume is the exact volume",
           "seeded random full-dimensional rational polytopes of dimension 1-5 in every input format, against an "
           "independent pulling triangulation; closed forms with sizes up to 10^15 and dimension up to 7; triangulation "
           "and cone decomposition methods. Non-trivial: dimension >= 2", ["integrate"], case,
           lambda ck: D.cases(ck.prop, ck.n(1300, 12000)), min_nontrivial=300)
