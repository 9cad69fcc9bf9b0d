import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D, cones as C
from fractions import Fraction as F

VC = [[], ["--compute-vertex-cones=cdd"], ["--compute-vertex-cones=4ti2"], ["--compute-vertex-cones=lrs"]]


def edges(p, v):
    """Primitive extreme rays of the vertex cone at v (full-dimensional polytope)."""
    act = [list(r[1:]) for r in p.ineqs if G.ev(r, v) == 0]
    return sorted(tuple(x) for x in G.extreme_rays(act, [], p.d))


def vertex_cones(lab, c, labs, o, r):
    p = gen.wide_poly(r) if r.random() < .15 else gen.any_poly(r, dmax=4, allow_empty=False, dmin=1)
    form = r.choice(D.FORMS if "wide" not in p.kind else ["latte", "nonneg", "cdd"])
    args = D.put(lab, p, r, form)
    eng = r.choice(VC)
    if form == "vrep":
        eng = []
    res = lab.run("polyhedron-to-cones", *eng, "--output-cones=vc", *args, "p")
    o.obs("vertex cones " + " ".join(eng))
    if not o.ended(res, light=D.light(p)):
        return
    text = res.file("vc")
    if text is None and (p.dim() == 0 or p.count() == 0):
        o.obs("single point or no lattice point: answered at once")
        return
    cs = C.parse_cones(text or "")
    what = "polyhedron-to-cones %s p (%s)" % (" ".join(eng + args), D.describe(p))
    if p.fulldim() and "homogenized: false, dualized: false" in res.err:
        want = sorted(tuple(map(F, v)) for v in p.verts)
        if cs is None or sorted(q["vertex"] for q in cs) != want:
            o.viol("%s: vertices of the cones written %s, the vertices are %s\n%s"
                   % (what, cs and [tuple(map(str, q["vertex"])) for q in cs], [tuple(map(str, v)) for v in want], res.files_text()))
            return
        for q in cs:
            e = edges(p, q["vertex"])
            if q["coef"] != 1:
                o.viol("%s: coefficient %d\n%s" % (what, q["coef"], res.files_text()))
                return
            if q["rays"] and sorted(G.primitive(x) for x in q["rays"]) != e:
                o.viol("%s: at vertex %s the edge directions written are %s, they are %s\n%s"
                       % (what, list(map(str, q["vertex"])), q["rays"], e, res.files_text()))
                return
            if q["facets"]:
                got = G.extreme_rays([[-x for x in G.primitive(f)] for f in q["facets"]], [], p.d)
                if got is None or sorted(map(tuple, got)) != e:
                    o.viol("%s: at vertex %s the facets written %s do not define the vertex cone, edges %s\n%s"
                           % (what, list(map(str, q["vertex"])), q["facets"], e, res.files_text()))
                    return
        o.obs("vertex cones checked", len(cs))
    alg = r.choice([[], ["--irrational-primal"], ["--irrational-all-primal"], ["--maxdet=5"], ["--irrational-primal", "--exponential"],
                    ["--triangulation=4ti2"]])
    res = lab.run("count", *alg, "--input-vertex-cones=vc", timeout=20)
    if not o.ended(res, light=D.light(p) and p.cost() < 500):
        return
    exp = p.count()
    if D.count_file(res) != exp:
        o.viol("%s, then count %s --input-vertex-cones: %s, the polytope has %d lattice points\n%s--- cones\n%s"
               % (what, " ".join(alg), D.count_file(res), exp, "", (text or "")[:3000]))
    return p, exp, what + " | count " + " ".join(alg)


def ext_text(rays):
    return "V-representation\nbegin\n%d %d integer\n%s\nend\n" % (
        len(rays), len(rays[0]) + 1, "\n".join("0 " + " ".join(map(str, x)) for x in rays))


def homog(lab, c, labs, o, r):
    for _ in range(50):
        p = gen.any_poly(r, dmax=3, allow_empty=False, full=True)
        if p.cost() < 800 and "thin" not in p.kind:
            break
    exp = p.count()
    how = r.choice(["dual-cones", "primal-ext", "dual-ext", "dual-tri", "dual-subcones"])
    hom = [G.primitive(list(map(F, v)) + [F(1)]) for v in p.verts]
    r.shuffle(hom)
    d = p.d + 1
    args, alg = [], []
    pre = ""
    if how == "dual-cones":
        form = r.choice(["latte", "nonneg"])
        a = D.put(lab, p, r, form)
        res = lab.run("polyhedron-to-cones", "--homog", "--output-cones=hc", *a, "p")
        if not o.ended(res, light=True):
            return
        if "homogenized: true, dualized: true" not in res.err:
            o.obs("not dual")
            return
        pre = "polyhedron-to-cones --homog p; "
        args = ["--input-dual-homog-cones=hc"]
    elif how == "primal-ext":
        lab.put("cone.ext", ext_text(hom))
        args = ["--input-primal-homog-cone=cone.ext"]
    else:
        fac = [tuple(-x for x in f) for f in C.dual_rays(hom)]
        r.shuffle(fac)
        lab.put("dual.ext", ext_text(fac))
        args = ["--input-dual-homog-cone=dual.ext"]
        if how == "dual-tri":
            eng = r.choice([[], ["--triangulation=4ti2"], ["--triangulation=topcom"], ["--triangulation=delone"]])
            res = lab.run("triangulate", *eng, "dual.ext")
            if not o.ended(res, light=True):
                return
            pre = "triangulate %s dual.ext; " % " ".join(eng)
            args = ["--input-dual-homog-cones=triangulation"]
        elif how == "dual-subcones":
            tri = C.triangulate(fac)[0]
            lab.put("sub", "%d %d\n%s\n" % (len(tri), len(fac), "\n".join(" ".join(str(int(h in s)) for h in fac) for s in tri)))
            args.append("--subcones=sub")
    alg = r.choice([[], [], ["--dualization=4ti2"], ["--triangulation=4ti2"], ["--dualization=cdd"]])
    res = lab.run("count", *alg, *args, timeout=20)
    o.obs("homogenized " + how)
    what = "%scount %s" % (pre, " ".join(alg + args))
    if not o.ended(res, light=True):
        return
    if D.count_file(res) != exp:
        o.viol("%s: answer %s, the polytope with vertices %s has %d lattice points\n%s"
               % (what, D.count_file(res), [tuple(map(str, v)) for v in p.verts], exp, res.files_text()))
    return p, exp, what


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    x = (vertex_cones if r.random() < .6 else homog)(lab, c, labs, o, r)
    if x:
        p, exp, what = x
        o.see("families", p.kind.split("+")[0])
        o.see("dims", (p.d, p.dim()))
        if exp > 1 and p.dim() > 1:
            o.nontrivial()
        o.sample("%s: %d" % (what, exp))
    return o


core.drive("C14", "vertex cones and intermediate cone inputs describe the polytope",
           "seeded random polytopes; polyhedron-to-cones with every vertex-cone engine: vertices, edge directions and facets compared with "
           "exact ones, then counted again through --input-vertex-cones; homogenised primal/dual cones as .ext or cone files, "
           "dual ones also triangulated or with a subcones file, counted. Non-trivial: dimension >= 2 and at least 2 lattice points",
           ["polyhedron-to-cones", "triangulate", "count"], case, lambda ck: D.cases(ck.prop, ck.n(1500, 15000)), min_nontrivial=300)
