import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from math import comb
from vlib import core, gen, geom as G, drive as D, closed

OPTS = [[], [], ["--irrational-primal"], ["--exponential"], ["--triangulation=cddlib"], ["--dualization=4ti2"],
        ["--compute-vertex-cones=4ti2"], ["--homog"], ["--redundancy-check=full-cddlib"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"]]


def big(r):
    """(polytope, t, count of t*P) with large t."""
    t = r.choice([7, 100, 4099, 65537, 10 ** 6, 2 ** 30 + 3])
    k = r.randrange(6)
    if k == 0:
        p = gen.box(r, r.randint(1, 5))
        n = 1
        for i in range(p.d):
            n *= (p.ineqs[2 * i][0] + p.ineqs[2 * i + 1][0]) * t + 1
    elif k == 1:
        d, m = r.randint(1, 6), r.randint(1, 5)
        p, n = gen.std_simplex(r, d, m), comb(m * t + d, d)
    elif k == 2:
        d, m = r.randint(2, 4), r.randint(1, 3)
        p, n = gen.crosspoly(r, d, m), sum(2 ** j * comb(d, j) * comb(m * t, j) for j in range(d + 1))
    elif k == 3:
        a, b, c = r.randint(1, 30), r.randint(1, 30), r.randint(1, 200)
        p = gen.Poly("triangle", 2, [[0, 1, 0], [0, 0, 1], [c, -a, -b]])
        n = closed.triangle_count(a, b, c * t)
    elif k == 4:
        m = r.randint(1, 3)
        ine = [[0] + [int(i == j) for j in range(9)] for i in range(9)]
        eqs = [[m] + [-int(q // 3 == i) for q in range(9)] for i in range(3)]
        eqs += [[m] + [-int(q % 3 == i) for q in range(9)] for i in range(3)]
        p = gen.Poly("magic3", 9, ine, eqs)
        s = m * t
        n = comb(s + 2, 4) + comb(s + 3, 4) + comb(s + 4, 4)
    else:
        # half-open affine hull: 2x + 2y = 1 has points in even dilates only
        q = r.choice([2, 3])
        t = t if r.random() < .5 or t * q >= 2 ** 31 else t * q
        p = gen.Poly("fractionalhull", 2, [[0, 1, 0], [0, 0, 1]], [[1, -q, -q]])
        n = t // q + 1 if t % q == 0 else 0
    if p.d < 6 and r.random() < .5:
        p = gen.affine(p, gen.unimodular(r, p.d, steps=2), [r.randint(-50, 50) for _ in range(p.d)])
    return p, t, n


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    opt = r.choice(OPTS)
    if r.random() < .35:
        p, t, exp = big(r)
        if opt == ["--homog"] or p.d > 3:
            opt = []
        o.obs("large dilates")
    else:
        for _ in range(200):
            p = gen.wide_poly(r) if r.random() < .15 else gen.any_poly(r, dmax=4)
            t = r.randint(1, 7)
            if p.cost(t) * t > 60000 or ("hull" in p.kind and p.d > 3) or (opt == ["--homog"] and p.d > 3):
                continue
            break
        exp = p.count(t)
    form = r.choice(["latte", "latte", "nonneg", "cdd"])
    args = D.put(lab, p, r, form)
    a = ["--dilation=%d" % t] + opt + args
    if r.random() < .15:
        a = D.old_style(r, a, p, lab)
        o.obs("options of the older versions")
    opt = D.given(opt, p)
    res = lab.run("count", *a, "p", timeout=15)
    o.see("families", p.kind.split("+")[0])
    o.see("factors", t)
    if not o.ended(res, light=D.light(p)):
        return o
    got = D.count_file(res)
    o.obs("answers")
    if got != exp:
        o.viol("count --dilation=%d %s: answer %s, the dilate has %d lattice points (%s)\n%s"
               % (t, " ".join(opt + args), got, exp, D.describe(p), res.files_text()))
    if exp > 1 and t > 1:
        o.nontrivial()
    o.sample("%s %s t=%d %s: %d" % (D.describe(p), form, t, opt, exp))
    return o


core.drive("C04", "count --dilation=t counts the lattice points of the dilate",
           "seeded random rational polytopes (full- and lower-dimensional, H-representations) and factors 1..7 against "
           "lattice enumeration of the dilate; closed forms for factors up to 2^31. Non-trivial: factor > 1 and at "
           "least 2 points", ["count"], case, lambda ck: D.cases(ck.prop, ck.n(1500, 15000)), min_nontrivial=300)
