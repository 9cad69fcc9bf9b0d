import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D, closed

OPTS = [[], [], [], ["--irrational-primal"], ["--exponential"], ["--polynomial"], ["--compute-vertex-cones=4ti2"],
        ["--dualization=4ti2"], ["--triangulation=cddlib"], ["--redundancy-check=full-cddlib"], ["--redundancy-check=none"], ["--redundancy-check=cddlib"], ["--maxdet=20"]]


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    p, n, m = closed.any_closed(r)
    form = r.choice(D.FORMS)
    if form == "vrep" and p.d > 5:
        form = "latte"
    args = D.put(lab, p, r, form)
    opt = D.given(r.choice(OPTS), p)
    if "--irrational-primal" in opt and p.d > 3:
        opt = []
    res = lab.run("count", *opt, *args, "p", timeout=25, retry=not opt)
    o.see("families", p.kind.split("+")[0])
    o.see("dims", p.d)
    o.see("bits of the count", n.bit_length())
    if not o.ended(res):
        return o
    got = D.count_file(res)
    if got != n:
        o.viol("count %s: answer %s, the polytope has %d lattice points (%s)\n%s" % (" ".join(opt + args), got, n, p.kind, res.files_text()))
    elif p.cost() >= 0 and res.out.split()[-1:] != [str(n)] and p.dim() > 0:
        o.viol("count %s: standard output ends with %r, the polytope has %d lattice points (%s)\n%s"
               % (" ".join(opt + args), res.out[-80:], n, p.kind, res.files_text()))
    o.obs("answers")
    if n > 10 ** 6:
        o.nontrivial()
    o.sample("%s d=%d %s %s: %d" % (p.kind, p.d, form, opt, n))
    return o


core.drive("C03", "counts of polytopes with large coefficients and large counts are exact",
           "seeded polytopes with sizes up to 10^21 whose number of lattice points is known in closed form (boxes, "
           "simplices, chains, cross-polytopes, products, magic squares, transportation polytopes, lattice polygons by "
           "Pick's theorem, rational triangles and tetrahedra by floor sums, Reeve tetrahedra, denumerants). "
           "Non-trivial: the count exceeds 10^6", ["count"], case,
           lambda ck: D.cases(ck.prop, ck.n(1200, 15000)), min_nontrivial=200)
