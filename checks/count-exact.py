import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D
from fractions import Fraction as F


def far(rng, p, vrep):
    """Translate by large integers: coordinates and right-hand sides beyond 32 and 64 bits."""
    m = rng.choice([10 ** 6 + 3, 2 ** 31 + 5, 2 ** 33, 2 ** 33 if vrep else 10 ** 20 + 7])
    return gen.affine(p, gen.unimodular(rng, p.d, steps=rng.randint(0, 2)),
                      [rng.randint(-m, m) for _ in range(p.d)], p.kind + "+far")


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    big = r.random()
    p = gen.wide_poly(r) if r.random() < .22 else gen.any_poly(r, dmax=5 if big < .15 else 4, allow_empty=False)
    form = r.choice(D.FORMS + ["cddrat", "latterat", "vrepx"])
    if form[:4] == "vrep" and len(p.verts) > 12:
        form = "latte"
    if r.random() < .12 and p.d < 6:
        p = far(r, p, form[:4] == "vrep")
    args = []
    if form == "cddrat":
        # the same polyhedron with rows scaled by rationals
        rows = [(e, 1) for e in p.eqs] + [(i, 0) for i in p.ineqs]
        s = "H-representation\n"
        if p.eqs:
            s += "linearity %d %s\n" % (len(p.eqs), " ".join(str(i + 1) for i in range(len(p.eqs))))
        s += "begin\n%d %d rational\n" % (len(rows), p.d + 1)
        for row, _ in rows:
            k = F(r.randint(1, 9), r.randint(1, 9))
            s += " ".join(str(x * k) for x in row) + "\n"
        lab.put("p", s + "end\n")
        args = ["--cdd"]
    elif form == "latterat":
        rows = list(p.eqs) + list(p.ineqs)
        s = "%d %d\n" % (len(rows), p.d + 1)
        for row in rows:
            k = F(r.randint(1, 9), r.randint(1, 9))
            s += " ".join(str(x * k) for x in row) + "\n"
        if p.eqs:
            s += "linearity %d %s\n" % (len(p.eqs), " ".join(str(i + 1) for i in range(len(p.eqs))))
        lab.put("p", s)
    elif form == "vrepx" and p.fulldim():
        vs = list(p.verts)
        r.shuffle(vs)
        lab.put("p", p.vrep(vs))
        args = ["--vrep"]
    else:
        if form == "vrepx":
            form = "latte"
        args = D.put(lab, p, r, form)
    opt = r.choice([[], [], [], ["--count-lattice-points"], ["--redundancy-check=full-cddlib"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"]]) if form[:4] != "vrep" else []
    opt = D.given(opt, p)
    exp = p.count()
    res = lab.run("count", *opt, *args, "p", timeout=20)
    o.obs("runs:" + form)
    o.see("families", p.kind.split("+")[0])
    o.see("dims", (p.d, p.dim()))
    if not o.ended(res, light=D.light(p)):
        return o
    got = D.count_file(res)
    if got != exp:
        o.viol("count %s: numOfLatticePoints is %s, the polytope has %d lattice points (%s)\n%s"
               % (" ".join(opt + args), got, exp, D.describe(p), res.files_text()))
    elif exp > 0 and p.dim() > 0 and res.out.split()[-1:] != [str(exp)]:
        o.viol("count %s: standard output ends with %r, the polytope has %d lattice points (%s)\n%s"
               % (" ".join(opt + args), res.out[-80:], exp, D.describe(p), res.files_text()))
    o.see("counts", exp)
    if exp > 1:
        o.nontrivial()
    o.sample("%s %s %s: %d" % (D.describe(p), form, opt, exp))
    return o


core.drive("C01", "count answers the exact number of lattice points", 
           "seeded random rational polytopes of dimension 1-5 (boxes, simplices, knapsacks, hulls, cross-polytopes, "
           "pyramids, order and transportation polytopes, thin and lower-dimensional ones, unimodular images, far "
           "translates, redundant rows, implied equations) written in one of the input formats; compared with a "
           "depth-first lattice enumeration. Non-trivial: at least 2 lattice points",
           ["count"], case, lambda ck: D.cases(ck.prop, ck.n(3200, 40000)), min_nontrivial=500)
