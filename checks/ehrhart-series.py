import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from math import comb
from vlib import core, gen, geom as G, drive as D, series as S

OPTS = [[], [], [], ["--dualization=cdd"], ["--triangulation=cddlib"], ["--compute-vertex-cones=4ti2"],
        ["--dualization=4ti2", "--triangulation=4ti2"], ["--compute-vertex-cones=cdd"], ["--redundancy-check=full-cddlib"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"]]


# stands in for Maple: keeps the terms it is given
MAPLE = "#!/bin/sh\nn=0\n[ -f term.n ] && read n < term.n\ncp simplify.term term.$n\necho $((n+1)) > term.n\n"


def hull_has_point(p):
    """The affine hull contains a lattice point (equations incl. implied ones)."""
    rows = list(p.eqs) + [r for r in p.ineqs if all(G.ev(r, v) == 0 for v in p.verts)]
    return G.lattice_solvable([r[1:] for r in rows], [-r[0] for r in rows], p.d)


def known(r):
    k = r.randrange(3)
    if k == 0:
        d, m = r.randint(1, 5), r.choice([1, 2, 9, 1000, 2 ** 40])
        return gen.std_simplex(r, d, m), lambda t: comb(m * t + d, d)
    if k == 1:
        d, m = r.randint(2, 3), r.choice([1, 3, 50])
        return gen.crosspoly(r, d, m), lambda t: sum(2 ** j * comb(d, j) * comb(m * t, j) for j in range(d + 1))
    p = gen.box(r, r.randint(1, 4), r.choice([3, 1000, 10 ** 12]))
    w = [p.ineqs[2 * i][0] + p.ineqs[2 * i + 1][0] for i in range(p.d)]

    def L(t):
        n = 1
        for x in w:
            n *= x * t + 1
        return n
    return p, L


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    mode = r.choice(["taylor", "series", "taylor", "series", "simplified"])
    prog = "ehrhart" if r.random() < .2 else "count"
    opt = r.choice(OPTS)
    if c.get("fixed"):
        p = gen.Poly("halfline", 2, [[0, 1, 0], [0, 0, 1]], [[1, -2, -2]])
        mode, opt, L, N, prog = c["fixed"], [], p.count, 6, "count"
    elif r.random() < .15:
        p, L = known(r)
        while p.dim() < 1:
            p, L = known(r)
        N = r.randint(2, 30)
        opt = []
    else:
        for _ in range(200):
            p = gen.wide_poly(r) if r.random() < .2 else gen.any_poly(r, dmax=4, maxbox=8000)
            N = r.randint(2, 12)
            top = N if mode == "taylor" else p.period() * (p.dim() + 1)
            if p.dim() < 1 or p.cost(top) * top > 150000 or (p.d > 3 and "hull" in p.kind):
                continue
            break
        L = p.count
    if mode == "simplified" and (p.dim() < 1 or not D.light(p) or p.d > 3 or "rathull" in p.kind):
        mode = "series"             # one run of Maple for every cone
    form = r.choice(D.FORMS) if not c.get("fixed") else "latte"
    if form == "vrep" and (p.d > 4 or len(p.verts) > 12):
        form = "latte"
    args = D.put(lab, p, r, form)
    a = ["--ehrhart-taylor=%d" % N] if mode == "taylor" else ["--simplified-ehrhart-series" if mode == "simplified" else "--ehrhart-series"]
    if prog == "ehrhart":                  # the old program
        opt, form = [], r.choice(["latte", "nonneg"])
        args = D.put(lab, p, r, form)
        a = {"taylor": [str(N)], "series": [], "simplified": ["simplify"]}[mode]
    lab.put("maple", MAPLE)
    os.chmod(os.path.join(lab.dir, "maple"), 0o755)
    opt = D.given(opt, p)
    res = lab.run(prog, *a, *opt, *args, "p", timeout=20, retry=mode != "simplified", env={"PATH": lab.dir + ":" + core.SAN_ENV["PATH"]})
    o.obs("runs: %s %s" % (prog, mode))
    o.see("families", p.kind.split("+")[0])
    o.see("dims", (p.d, p.dim()))
    if not o.ended(res, light=D.light(p) and mode != "simplified"):
        return o
    what = "%s %s (%s)" % (prog, " ".join(a + opt + args), D.describe(p))
    if "Integrally empty polytope" in res.err + res.out and not hull_has_point(p):
        # known finding: dilates of the polytope do have points
        if any(L(t) for t in range(1, 7)):
            o.viol("%s: exits without a result although dilates have lattice points\n%s" % (what, res.files_text()),
                   sig="integrally-empty-exit")
        return o
    if mode == "taylor":
        got = {}
        for line in reversed(res.out.rstrip().split("\n")):
            m = re.fullmatch(r"(-?\d+)(t(?:\^(\d+))?)?", line.strip())
            if not m or 0 in got:
                break
            k = int(m.group(3) or 1) if m.group(2) else 0
            got[k] = got.get(k, 0) + int(m.group(1))
        if not got:
            o.viol("%s: no Taylor expansion printed: %r\n%s" % (what, res.out[-200:], res.files_text()))
            return o
        bad = [(n, got.get(n, 0), L(n) if n else 1) for n in range(N + 1) if got.get(n, 0) != (L(n) if n else 1)]
        extra = [k for k in got if k > N]
        if bad or extra:
            o.viol("%s: coefficients (n, printed, points in nP): %s, extra terms %s\n%s" % (what, bad[:5], extra, res.files_text()))
        o.obs("taylor coefficients compared", N + 1)
        o.sample("%s: %s" % (what, [got.get(n, 0) for n in range(N + 1)]))
    elif mode == "simplified":
        n = int(res.file("term.n") or 0)
        q, dim = p.period(), p.dim()
        cs = [1] + [L(t) for t in range(1, q * (dim + 1))]
        t = r.randrange(2, S.P)
        got = 0
        for i in range(n):
            m = re.fullmatch(r"\s*d\s*:=\s*(\d+)\s*:\s*x\s*:=(.*):\s*", res.file("term.%d" % i), re.S)
            if not m:
                o.viol("%s: malformed term for Maple: %s\n%s" % (what, res.file("term.%d" % i)[:300], res.files_text()))
                return o
            k = int(m.group(1))
            v = S.eval_expr(m.group(2), {"t": t, "s": S.Ser([0, 1] + [0] * (k - 1)) if k else S.Ser([0])})
            got = (got + (v.c[k] if isinstance(v, S.Ser) else v if k == 0 else 0)) % S.P
        exp = S.ehrhart_value(cs, q, dim, t)
        if got != exp or not n:
            o.viol("%s: the %d terms handed to Maple do not sum to the Ehrhart series (first counts %s)\n%s" % (what, n, cs[:8], res.files_text()))
        if not re.match(r"HS *:= *0:", res.file("p.rat") or ""):
            o.viol("%s: what Maple saved did not become p.rat\n%s" % (what, res.files_text()))
        o.obs("terms handed to Maple", n)
        o.sample("%s: %d terms" % (what, n))
    else:
        f = res.file("p.rat")
        m = f and re.match(r"x\s*:=(.*):\s*$", f, re.S)
        if not m:
            o.viol("%s: no rational function in p.rat: %r\n%s" % (what, f and f[:200], res.files_text()))
            return o
        q, dim = p.period(), p.dim()
        cs = [1] + [L(n) for n in range(1, q * (dim + 1))]
        for _ in range(2):
            t = r.randrange(2, S.P)
            got, exp = S.eval_expr(m.group(1), {"t": t}), S.ehrhart_value(cs, q, dim, t)
            if got != exp:
                o.viol("%s: p.rat is not the Ehrhart series (first counts %s): %s\n%s" % (what, cs[:8], f[:600], res.files_text()))
                break
        o.obs("series compared")
        o.see("periods", q)
        o.sample("%s: %s" % (what, f[:150]))
    if p.dim() > 1:
        o.nontrivial()
    return o


def cases(ck):
    return ([dict(id="fixed-taylor", seed=0, fixed="taylor"), dict(id="fixed-series", seed=0, fixed="series")]
            + D.cases(ck.prop, ck.n(1100, 12000)))


core.drive("C06", "Ehrhart series and its Taylor coefficients",
           "seeded random rational polytopes of dimension 1-4: every printed Taylor coefficient against lattice "
           "enumeration of that dilate; the rational function of --ehrhart-series evaluated at random points of a 61-bit "
           "prime field against the value determined by the counts of period*(dim+1) dilates. Non-trivial: dimension >= 2",
           ["count", "ehrhart"], case, cases, min_nontrivial=300,
           assumptions=["identity of rational functions is tested at two random points modulo 2^61-1 (one-sided error below 1e-12)"])
