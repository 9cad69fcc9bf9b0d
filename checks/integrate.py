import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from math import factorial
from vlib import core, gen, geom as G, drive as D

OPTS = [[], [], ["--dualization=cdd"], ["--triangulation=cddlib"], ["--compute-vertex-cones=4ti2"],
        ["--dualization=4ti2", "--triangulation=4ti2"], ["--compute-vertex-cones=cdd"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"]]
ALGS = [[], ["--triangulate"], ["--cone-decompose"], ["--triangulate", "--cone-decompose"], ["--all"]]


def simplex_integral(f, d, n):
    s = F(0)
    for e, c in f.items():
        t = sum(e) + d
        k = F(n) ** t / factorial(t)
        for x in e:
            k *= factorial(x)
        s += c * k
    return s


def box_integral(f, lo, hi):
    s = F(0)
    for e, c in f.items():
        k = F(c)
        for x, a, b in zip(e, lo, hi):
            k *= F(b ** (x + 1) - a ** (x + 1), x + 1)
        s += k
    return s


def mirror(r, mode):
    """A simplex symmetric under x_1 -> -x_1 and an odd integrand (plus, sometimes, a constant): integrals which vanish."""
    while True:
        d = r.choice([1, 2, 2, 3, 3])
        a, u = r.randint(1, 3), [r.randint(-2, 2) for _ in range(d - 1)]
        vs = [tuple(map(F, [a] + u)), tuple(map(F, [-a] + u))] + [tuple(map(F, [0] + [r.randint(-3, 3) for _ in range(d - 1)])) for _ in range(d - 1)]
        if G.dim_of(vs) == d:
            break
    fac, eqs = G.facets_of(vs)
    p = gen.Poly("mirror", d, fac, eqs, sorted(vs))
    rest = lambda: [0] + [r.randint(-2, 2) for _ in range(d - 1)]
    k = r.choice([1, 1, 3, 5])
    n = r.randint(1, 3)
    if mode == "mono":
        l = {tuple([r.choice([1, 3, 5])] + [r.randint(0, 2) for _ in range(d - 1)]): D.rand_coef(r) for _ in range(n)}
        if r.random() < .3:
            l[(0,) * d] = D.rand_coef(r)
    elif mode == "lf":
        l = []
        for _ in range(n):
            c, m, v = D.rand_coef(r), r.choice([1, 2, 3, 4]), [r.randint(1, 3)] + rest()[1:]
            l += [(c, m, v), (-c, m, [-v[0]] + v[1:])]
        if r.random() < .3:
            l.append((D.rand_coef(r), 0, [0] * d))
    else:
        l = [(D.rand_coef(r), [(k, [r.randint(1, 2)] + [0] * (d - 1))] + [(r.randint(0, 2), rest()) for _ in range(r.randint(0, 2))]) for _ in range(n)]
        if r.random() < .3:
            l.append((D.rand_coef(r), [(0, [1] * d)]))
        for _, fs in l:
            r.shuffle(fs)
    return p, l


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    mode = c["mode"]
    opt, alg = r.choice(OPTS), r.choice(ALGS)
    big = r.random() < .25
    wide = r.random() < .25
    odd = not wide and r.random() < .1
    if wide:                     # many terms or high degree on a polytope with a product formula
        d = r.randint(1, 4)
        n = r.randint(1, 3)
        terms, deg = r.choice([(60, 6), (200, 4), (5, 18), (25, 9)]) if mode == "mono" else r.choice([(30, 4), (4, 14)])
        if d > 2:
            terms, deg = min(terms, 60 if mode == "mono" else 12), min(deg, 7)
        elif r.random() < (.8 if mode == "plf" else .4):
            terms, deg = r.choice([(1, 40), (1, 66)] if mode == "plf" else [(1, 40), (2, 75), (1, 110)])
            if d > 1:
                deg = min(deg, 80)
        if r.random() < .5:
            p = gen.std_simplex(r, d, n)
            integ = lambda f: simplex_integral(f, d, n)
        else:
            p = gen.box(r, d)
            lo = [-p.ineqs[2 * i][0] for i in range(d)]
            hi = [p.ineqs[2 * i + 1][0] for i in range(d)]
            if any(a == b for a, b in zip(lo, hi)):
                lo[:] = [0] * d
                hi[:] = [2] * d
                p = gen.Poly("box", d, [q for i in range(d) for q in
                                        ([0] + [int(i == j) for j in range(d)], [2] + [-int(i == j) for j in range(d)])])
            integ = lambda f: box_integral(f, lo, hi)
        opt = []
    elif odd:
        p, l = mirror(r, mode)
        d, deg, terms = p.d, 5, 3
        integ = lambda f: G.integrate(f, G.triangulate(p.verts))
    else:
        p = gen.wide_poly(r, full=True, maxtri=60) if r.random() < .1 else gen.any_poly(r, dmax=4, full=True)
        d = p.d
        terms, deg = r.choice([(4, 5), (1, 8), (8, 3)])
        if d > 3:
            deg = min(deg, 4 if d == 4 else 2)
            terms = min(terms, 4 if d == 4 else 2)
        integ = lambda f: G.integrate(f, G.triangulate(p.verts))
    if mode == "mono":
        f = l if odd else D.rand_poly(r, d, deg, terms, big)
        text = D.mono_text(f)
        a = ["--monomials=f"]
        if r.random() < .15 and len(f) < 20 and deg < 40:
            a.append("--polynomial-as-plf")
            alg = []
    elif mode == "lf":
        l = l if odd else D.rand_lf(r, d, deg, terms, big)
        text, f, a = D.lf_text(l), D.lf_poly(l, d), ["--linear-forms=f"]
    else:
        if odd:
            pass
        elif deg >= 40:
            l = [(D.rand_coef(r, big), [(r.randint(deg // 3, deg // 2), [r.randint(-3, 3) for _ in range(d)]) for _ in range(2)])
                 for _ in range(min(terms, 2))]
        else:
            l = D.rand_plf(r, d, min(deg, 3 if d < 4 else 2), min(terms, 4 if d < 4 else 2), big)
        text, f, a = D.plf_text(l), D.plf_poly(l, d), ["--product-linear-forms=f"]
        alg = []
    if alg == ["--all"] and deg > 60:
        alg = []
    stdin = ""
    if r.random() < .12:         # the integrand comes from standard input
        stdin = {"mono": "p", "lf": "l"}.get(mode, "d") + "\n" + text.rstrip("\n") + "\n"
        a = a[1:]
        o.obs("interactive")
    else:
        lab.put("f", text)
    form = r.choice(D.FORMS + ["latte"])
    args = D.put(lab, p, r, form)
    if form != "vrep" and not wide and r.random() < .1:
        t = r.choice([1, 2, 3, 10])
        args.append("--dilation=%d" % t)
        integ = lambda f: G.integrate(f, G.triangulate([[t * x for x in v] for v in p.verts]))
        o.obs("dilated")
    res = lab.run("integrate", "--valuation=integrate", *a, *alg, *opt, *args, "p", timeout=20, stdin=stdin)
    o.see("families", p.kind.split("+")[0])
    o.see("dims", d)
    o.see("degrees", max([sum(e) for e in f] or [0]))
    o.see("terms", len(f))
    o.see("methods", " ".join((a or [mode])[-1:] + alg))
    if not o.ended(res, light=D.light(p) and not wide):
        return o
    exp = integ(f)
    ans = re.findall(r"Answer:\s*(\S+)", res.out)
    o.obs("answers", len(ans))
    what = "integrate %s (%s, %d terms)" % (" ".join(a + alg + opt + args), D.describe(p), len(f))
    try:
        vals = [F(x) for x in ans]
    except (ValueError, ZeroDivisionError):
        vals = []
    if not vals or any(x != exp for x in vals):
        o.viol("%s: answers %s, the integral is %s\n%s" % (what, [x[:80] for x in ans], str(exp)[:200], res.files_text()))
    elif not D.decimals(res.out, exp):
        o.viol("%s: the decimal expansion printed is not that of %s: %s\n%s" % (what, exp, res.out[-300:], res.files_text()))
    if exp == 0 and odd:
        o.obs("integrals which vanish")
    if exp != 0 and d > 1:
        o.nontrivial()
    o.sample("%s: %s" % (what, str(exp)[:100]))
    return o


def cases(ck):
    n = ck.n(500, 5000)
    return [x for m, k in (("mono", n), ("lf", n), ("plf", n * 3 // 5)) for x in D.cases(ck.prop + "-" + m, k, mode=m)]


core.drive("C09", "integrate --valuation=integrate is the exact integral",
           "seeded polynomials, powers of linear forms and products of powers of linear forms (rational coefficients up to "
           "100 bits, degree up to 110, up to 200 terms) over random full-dimensional rational polytopes of dimension 1-4 "
           "in every input format, against an independent triangulation with barycentric integration, or product formulas "
           "over boxes and simplices; all methods. Non-trivial: non-zero integral in dimension >= 2", ["integrate"], case,
           cases, min_nontrivial=300)
