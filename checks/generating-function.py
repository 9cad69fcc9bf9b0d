import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from vlib import core, gen, geom as G, drive as D, series as S

OPTS = [[], [], ["--irrational-primal"], ["--irrational-all-primal"], ["--dualization=4ti2"], ["--triangulation=cddlib"],
        ["--compute-vertex-cones=4ti2"], ["--compute-vertex-cones=cdd"], ["--irrational-primal", "--maxdet=5"],
        ["--irrational-all-primal", "--maxdet=20"], ["--triangulation=4ti2"], ["--maxdet=6"],
        ["--redundancy-check=full-cddlib"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"]]


def unbounded(r):
    """A pointed unbounded polyhedron with vertices, and a linear form positive on its recession cone."""
    for _ in range(400):
        d = r.randint(1, 3)
        p = r.choice([gen.cut_box, gen.rational_box, gen.knap_simplex, gen.box, gen.std_simplex])(r, d)
        if r.random() < .5:
            p = gen.affine(p, gen.unimodular(r, d, steps=2), [r.randint(-4, 4) for _ in range(d)])
        ine = list(p.ineqs)
        for _ in range(r.randint(1, max(1, len(ine) - d))):
            ine.pop(r.randrange(len(ine)))
        if len(ine) < d:
            continue
        rays = G.extreme_rays([q[1:] for q in ine], [], d)
        if not rays:
            continue
        q = gen.Poly("unbounded-" + p.kind, d, ine)
        if q.empty():
            continue
        v0 = q.verts[0]
        if G.dim_of(list(q.verts) + [tuple(a + b for a, b in zip(v0, x)) for x in rays]) < d:
            continue
        lam = [0] * d
        for row in ine:
            w = r.randint(1, 4)
            lam = [a + w * b for a, b in zip(lam, row[1:])]
        if any(sum(a * b for a, b in zip(lam, x)) <= 0 for x in rays):
            continue
        return q, lam
    raise core.Inconclusive("generator")


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    opt = r.choice(OPTS)
    unb = r.random() < .25
    if unb:
        if opt == ["--compute-vertex-cones=cdd"]:       # refuses unbounded polyhedra, with a message
            opt = []
        p, lam = unbounded(r)
        form = r.choice(["latte", "nonneg", "cdd"])
        dim = p.d
    else:
        for _ in range(200):
            p = gen.wide_poly(r) if r.random() < .15 and opt in ([], ["--irrational-primal"]) else gen.any_poly(r, dmax=4, maxbox=8000)
            if p.dim() < 1 or p.cost() > 20000 or (p.d > 3 and ("hull" in p.kind or "all" in str(opt) and p.cost() > 300)):
                continue
            break
        form = r.choice(D.FORMS if "wide" not in p.kind else ["latte", "nonneg", "cdd"])
        dim = p.dim()
    if form == "cdd":
        lab.put("p", p.cdd())
        args = ["--cdd"]
    elif form == "vrep" and p.fulldim():
        lab.put("p", p.vrep())
        args = ["--vrep"]
    else:
        lab.put("p", p.latte(r, "nonneg" if form == "nonneg" else None))
        args = []
    if unb and r.random() < .3:
        # not asked for a generating function: there is no number to report
        opt = D.given(opt, p)
        res = lab.run("count", *args, "p", timeout=20)
        o.obs("unbounded counts")
        if o.ended(res, light=True, ok=None):
            got = D.count_file(res)
            if res.rc == 0 or got is not None or not res.err.strip():
                o.viol("count %s: exit status %d, answer %r / %r for an unbounded polyhedron\n%s"
                       % (" ".join(args), res.rc, got, res.out[-60:], res.files_text()))
        return o
    res = lab.run("count", "--multivariate-generating-function", *opt, *args, "p", timeout=20)
    o.see("families", p.kind.split("+")[0])
    o.see("dims", (p.d, dim))
    if not o.ended(res, light=D.light(p)):
        return o
    what = "count --multivariate-generating-function %s (%s)" % (" ".join(opt + args), p.kind)
    f = res.file("p.rat")
    pts = None if unb else p.points()
    if f is None and pts == [] and "Integrally empty polytope" in res.err + res.out:
        o.obs("empty sets")
        return o
    try:
        tm = S.parse_mgf(f, p.d) if f is not None else None
    except ValueError:
        tm = None
    if tm is None:
        o.viol("%s: no generating function in p.rat: %r\n%s" % (what, f and f[:300], res.files_text()))
        return o
    o.obs("terms", len(tm))
    try:
        if not unb:
            for _ in range(2):
                x = [r.randrange(2, S.P) for _ in range(p.d)]
                if S.mgf_value(tm, x) != S.points_value(pts, x):
                    o.viol("%s: p.rat does not sum to the %d lattice points: %s\n%s" % (what, len(pts), f[:500], res.files_text()))
                    break
            n = len(pts)
        else:
            lo_v = min(sum(F(a) * b for a, b in zip(lam, v)) for v in p.verts)
            lo = -((-lo_v.numerator) // lo_v.denominator)
            # at most a few thousand points with lam.x <= hi
            hi = lo + 4
            pts = []
            for k in (8, 16, 32):
                q = gen.Poly("cap", p.d, p.ineqs + [tuple([lo + k] + [-a for a in lam])])
                if q.cost() > 4000:
                    break
                hi, pts = lo + k, q.points()
            else:
                q = None
            if not pts:
                q = gen.Poly("cap", p.d, p.ineqs + [tuple([hi] + [-a for a in lam])])
                pts = q.points()
            y = [r.randrange(2, S.P) for _ in range(p.d)]
            # start well below lo so that spurious negative powers are seen too
            got = S.mgf_laurent(tm, y, lam, lo - 6, hi)
            exp = [0] * (hi - lo + 7)
            yi = [S.inv(a) for a in y]
            for v in pts:
                k = sum(a * b for a, b in zip(lam, v))
                exp[k - lo + 6] = (exp[k - lo + 6] + S.mono_val(v, y, yi)) % S.P
            if got != exp:
                o.viol("%s: p.rat does not expand to the lattice points of the polyhedron (%d with %s.x <= %d): %s\n%s"
                       % (what, len(pts), lam, hi, f[:500], res.files_text()))
            o.obs("unbounded generating functions")
            n = len(pts)
    except S.Pole:
        o.inconclusive("pole")
        return o
    if n > 1 and dim > 1:
        o.nontrivial()
    o.sample("%s: %d points, %s" % (what, n, f[:120]))
    return o


core.drive("C07", "count --multivariate-generating-function",
           "seeded random rational polytopes of dimension 1-4 and pointed unbounded polyhedra of dimension 1-3: the "
           "rational function in FILE.rat evaluated at random points of a 61-bit prime field against the sum over the "
           "enumerated lattice points; for unbounded polyhedra its Laurent expansion along a form positive on the "
           "recession cone. Non-trivial: dimension >= 2 and at least 2 lattice points", ["count"], case,
           lambda ck: D.cases(ck.prop, ck.n(1400, 14000)), min_nontrivial=300,
           assumptions=["identity of rational functions is tested at random points modulo 2^61-1"])
