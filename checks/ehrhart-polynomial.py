import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from math import comb
from vlib import core, gen, geom as G, drive as D

OPTS = [[], [], [], ["--dualization=cdd"], ["--triangulation=cddlib"], ["--compute-vertex-cones=4ti2"],
        ["--dualization=4ti2", "--triangulation=4ti2"], ["--irrational-primal"], ["--irrational-all-primal"],
        ["--irrational-primal", "--maxdet=5"], ["--maxdet=6"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"]]


def known(r):
    """(polytope, L(t)) with closed-form Ehrhart polynomial, larger sizes and dimensions."""
    k = r.randrange(4)
    if k == 0:
        d, m = r.randint(1, 6), r.choice([1, 2, 9, 1000, 10 ** 6, 2 ** 33])
        return gen.std_simplex(r, d, m), lambda t: comb(m * t + d, d)
    if k == 1:
        d, m = r.randint(2, 4), r.choice([1, 3, 50, 10 ** 5])
        return gen.crosspoly(r, d, m), lambda t: sum(2 ** j * comb(d, j) * comb(m * t, j) for j in range(d + 1))
    if k == 2:
        p = gen.box(r, r.randint(1, 6), r.choice([3, 1000, 10 ** 12]))
        w = [p.ineqs[2 * i][0] + p.ineqs[2 * i + 1][0] for i in range(p.d)]

        def L(t):
            n = 1
            for x in w:
                n *= x * t + 1
            return n
        return p, L
    ine = [[0] + [int(i == j) for j in range(9)] for i in range(9)]
    m = r.choice([1, 2, 7])
    eqs = [[m] + [-int(q // 3 == i) for q in range(9)] for i in range(3)]
    eqs += [[m] + [-int(q % 3 == i) for q in range(9)] for i in range(3)]
    return gen.Poly("magic3", 9, ine, eqs), lambda t: comb(m * t + 2, 4) + comb(m * t + 3, 4) + comb(m * t + 4, 4)


def parse(out):
    co = None
    for line in out.split("\n"):
        if re.fullmatch(r"( [+-] -?\d+(/\d+)? \* t\^\d+)+\s*", line):
            co = {}
            for s, c, k in re.findall(r"([+-]) (\S+) \* t\^(\d+)", line):
                co[int(k)] = co.get(int(k), 0) + F(c) * (1 if s == "+" else -1)
    return co


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    opt = r.choice(OPTS)
    rational = False
    if r.random() < .25:
        p, L = known(r)
        while p.dim() < 1:
            p, L = known(r)
        if p.d > 3:
            opt = [] if "--irr" in str(opt) else opt
    else:
        for _ in range(200):
            p = gen.wide_poly(r, integral=True) if r.random() < .3 else gen.any_poly(r, dmax=4, maxbox=8000)
            rational = not p.integral()
            if rational and r.random() < .9:
                continue
            if p.dim() < 1 or p.cost(p.d + 1) * (p.d + 1) > 100000 or (p.d > 3 and "hull" in p.kind and opt):
                continue
            break
        L = p.count
    form = r.choice(D.FORMS)
    if form == "vrep" and (p.d > 4 or len(p.verts) > 12):
        form = "latte"
    args = D.put(lab, p, r, form)
    opt = D.given(opt, p)
    res = lab.run("count", "--ehrhart-polynomial", *opt, *args, "p", timeout=20)
    o.see("families", p.kind.split("+")[0])
    o.see("dims", (p.d, p.dim()))
    if not o.ended(res, light=D.light(p), ok=None if rational else (0,)):
        return o
    co = parse(res.out)
    what = "count --ehrhart-polynomial %s (%s)" % (" ".join(opt + args), D.describe(p))
    if rational:
        o.obs("rational inputs")
        if co:
            o.viol("%s: printed a polynomial %s for a polytope with non-integral vertices\n%s" % (what, co, res.files_text()))
        return o
    if not co:
        o.viol("%s: no polynomial printed: %r\n%s" % (what, res.out[-200:], res.files_text()))
        return o
    if max(co) > p.dim():
        o.viol("%s: degree %d, dimension %d\n%s" % (what, max(co), p.dim(), res.files_text()))
        return o
    for t in range(0, p.dim() + 2):
        exp = L(t) if t else 1
        got = sum(x * t ** k for k, x in co.items())
        if got != exp:
            o.viol("%s: the polynomial has the value %s at %d, the dilate has %d lattice points\n%s"
                   % (what, got, t, exp, res.files_text()))
            break
        o.obs("values compared")
    if p.dim() > 1:
        o.nontrivial()
    o.sample("%s %s %s: %s" % (D.describe(p), form, opt, {k: str(v) for k, v in co.items()}))
    return o


core.drive("C05", "count --ehrhart-polynomial prints the Ehrhart polynomial",
           "seeded random lattice polytopes of dimension 1-4 against lattice enumeration of the dilates 0..dim+1 (which "
           "determine the polynomial), closed forms up to dimension 6; 10% rational polytopes, for which nothing may be "
           "printed. Non-trivial: dimension at least 2", ["count"], case,
           lambda ck: D.cases(ck.prop, ck.n(1100, 12000)), min_nontrivial=300)
