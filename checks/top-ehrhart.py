import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from math import factorial
from vlib import core, gen, geom as G, drive as D

OPTS = [[], [], ["--dualization=cdd"], ["--triangulation=cddlib"], ["--compute-vertex-cones=4ti2"], ["--triangulation=4ti2"],
        ["--compute-vertex-cones=cdd"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"]]
# stands in for Maple: keeps the program it is given
MAPLE = "#!/bin/sh\nprintf '%s ' \"$@\" > maple.args\nfor f; do last=$f; done\ncp \"$last\" maple.input\n"


def parse_list(s):
    """Nested Maple list of rationals -> nested Python lists."""
    toks = re.findall(r"[\[\],]|-?\d+(?:/\d+)?|\S", s)
    pos = 0

    def val():
        nonlocal pos
        t = toks[pos]
        pos += 1
        if t != "[":
            if not re.fullmatch(r"-?\d+(/\d+)?", t):
                raise ValueError("unexpected %r" % t)
            return F(t)
        l = []
        if toks[pos] == "]":
            pos += 1
            return l
        while True:
            l.append(val())
            t = toks[pos]
            pos += 1
            if t == "]":
                return l
            if t != ",":
                raise ValueError("unexpected %r in a list" % t)
    v = val()
    if pos != len(toks):
        raise ValueError("text after the list: %r" % toks[pos:pos + 4])
    return v


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    p = gen.wide_poly(r, full=True, maxtri=60) if r.random() < .1 else gen.any_poly(r, dmax=4, full=True)
    d = p.d
    kind = r.choice(["mono", "mono", "lf", "lf", "none", "none-option"])
    a = []
    terms, deg = r.choice([(4, 5), (1, 8), (8, 3), (2, 2)])
    if d <= 2 and r.random() < .5:
        terms, deg = 2, r.randint(15, 40)
        o.obs("weights of high degree")
    big = r.random() < .25
    f = {(0,) * d: F(1)}
    if kind == "mono":
        f = D.rand_poly(r, d, min(deg, 4) if d > 3 else deg, terms, big)
        lab.put("f", D.mono_text(f))
        a.append("--monomials=f")
    elif kind == "lf":
        l = D.rand_lf(r, d, deg, terms, big)
        lab.put("f", D.lf_text(l))
        f = D.lf_poly(l, d)
        a.append("--linear-forms=f")
    elif kind == "none-option":
        a.append("--top-ehrhart-unweighted")
    stdin = ""
    if kind in ("mono", "lf") and r.random() < .2:       # the weight comes from standard input
        with open(os.path.join(lab.dir, "f")) as h:
            stdin = {"mono": "p", "lf": "l"}[kind] + "\n" + h.read().rstrip("\n") + "\n"
        os.unlink(os.path.join(lab.dir, "f"))
        a = ["--interactive-mode"]
        o.obs("interactive")
    k, real, save = -1, False, "-1"
    if r.random() < .6:
        k = r.randint(1, d + 9)
        a.append("--num-coefficients=%d" % k)
    if r.random() < .4:
        real = True
        a.append("--real-dilations")
    if r.random() < .4:
        save = r.choice(["ep.txt", "out", "a-b.mpl"])
        a.append("--top-ehrhart-save=" + save)
    r.shuffle(a)
    opt = r.choice(OPTS)
    args = D.put(lab, p, r, r.choice(D.FORMS))
    lab.put("maple", MAPLE)
    os.chmod(os.path.join(lab.dir, "maple"), 0o755)
    res = lab.run("integrate", "--valuation=top-ehrhart", *a, *opt, *args, "p", timeout=20, stdin=stdin,
                  env={"PATH": lab.dir + ":" + core.SAN_ENV["PATH"]})
    what = "integrate --valuation=top-ehrhart %s (%s)" % (" ".join(a + opt + args), D.describe(p))
    o.see("families", p.kind.split("+")[0])
    o.see("dims", d)
    o.see("weights", kind)
    if not o.ended(res, light=D.light(p)):
        return o
    t = res.file("maple.input")
    o.obs("scripts", 1 if t else 0)

    def bad(why):
        o.viol("%s: %s\n%s\n--- script\n%s" % (what, why, res.files_text(), (t or "none")[:1500]))
        return o
    if t is None or res.file("maple.args").split()[:1] != ["-q"]:
        return bad("no Maple program was handed over")
    t1 = re.sub(r"#[^\n]*", "", t)
    try:
        cones = parse_list(re.search(r"simpleCones\s*:=(.*?):\s*\n", t1, re.S).group(1))
        forms = parse_list(re.search(r"linearForms\s*:=(.*?):\s*\n", t1, re.S).group(1))
    except (ValueError, AttributeError, IndexError) as ex:
        return bad("unreadable lists (%s)" % ex)
    for cone in cones:
        if len(cone) != 2 or len(cone[0]) != d or len(cone[1]) != d or any(len(u) != d or any(x.denominator != 1 for x in u) for u in cone[1]):
            return bad("a cone is not a vertex and %d integral rays: %s" % (d, cone))
    vs = {tuple(map(F, v)) for v in p.verts}
    got = {tuple(cone[0]) for cone in cones}
    if vs != got:
        return bad("the apices are not the vertices: missing %s, extra %s" % (sorted(vs - got)[:3], sorted(got - vs)[:3]))
    # the cones sum to the polytope modulo cones with lines: exponential integrals agree, degree by degree
    tri = G.triangulate(p.verts)
    dets = [abs(G.det([list(map(int, u)) for u in cone[1]])) for cone in cones]
    if not all(dets):
        return bad("a cone is not simplicial")
    for _ in range(2):
        while True:
            ell = [r.randint(-997, 997) for _ in range(d)]
            den = []
            for cone in cones:
                q = F(1)
                for u in cone[1]:
                    q *= -sum(x * y for x, y in zip(u, ell))
                den.append(q)
            if all(den):
                break
        lv = [sum(x * y for x, y in zip(cone[0], ell)) for cone in cones]
        for m in range(d + 3):
            s = sum(dt * x ** m / q for dt, x, q in zip(dets, lv, den)) / factorial(m)
            e = F(0) if m < d else G.integrate(G.ppow(G.plinear(ell), m - d, d), tri) / factorial(m - d)
            if s != e:
                return bad("the cones do not sum to the polytope: exponential integral of %s, degree %d: %s, must be %s" % (ell, m - d, s, e))
            o.obs("exponential integrals compared")
    w = {}
    for cf, (dg, l) in forms:
        if dg.denominator != 1 or dg < 0 or len(l) != d:
            return bad("malformed linear form %s" % [dg, l])
        w = G.padd(w, {e: cf * x for e, x in G.ppow(G.plinear(l), int(dg), d).items()})
    diff = {e: x for e, x in G.padd(w, {e: -x for e, x in f.items()}).items() if x}
    if diff:
        return bad("the linear forms do not sum to the weight, difference %s" % list(diff.items())[:4])
    call = "epoly:=%s(t,T,simpleCones,linearForms,%d,%s,%d,%s):" % (
        "findEhrhartPolynomial" if k >= 0 else "printIncrementalEhrhartPolynomial", d, "true" if real else "false", k,
        '"%s"' % save if save != "-1" else "-1")
    if call not in re.sub(r"\s", "", t1):
        return bad("the call %s is missing" % call)
    if d > 1:
        o.nontrivial()
    o.sample("%s: %d cones, %d linear forms" % (what, len(cones), len(forms)))
    return o


core.drive("C17", "top-ehrhart hands the exact problem to Maple",
           "seeded full-dimensional rational polytopes of dimension 1-4 in every input format with polynomial, linear-form and trivial "
           "weights and every option; a stand-in records the Maple program, whose cones are compared with the polytope through exact "
           "exponential integrals and whose linear forms with the weight. Non-trivial: dimension >= 2",
           ["integrate"], case, lambda ck: D.cases(ck.prop, ck.n(700, 7000)), min_nontrivial=300)
