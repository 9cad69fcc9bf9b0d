import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D, cones as C
from fractions import Fraction as F

ENGINES = [["--triangulation=cddlib"], ["--triangulation=cdd"], ["--triangulation=4ti2"], ["--triangulation=delone"],
           ["--triangulation=delaunay"], ["--triangulation=topcom"], [], ["--triangulation=cddlib", "--triangulation-max-height=2"],
           ["--triangulation=4ti2", "--triangulation-max-height=2"], ["--triangulation=4ti2", "--triangulation-max-height=40"], ["--triangulation=cddlib", "--triangulation-bias=30"],
           ["--triangulation=4ti2", "--triangulation-bias=60"], ["--triangulation=cdd", "--triangulation-max-height=9"],
           ["--triangulation=4ti2", "--nonsimplicial-subdivision", "--triangulation-max-height=2"],
           ["--triangulation=cddlib", "--nonsimplicial-subdivision", "--triangulation-max-height=2"]]


def rand_rays(r):
    d = r.choice([1, 2, 3, 3, 3, 4, 4, 5])
    while True:
        k = r.choice(["rand", "rand", "cube", "homog", "simp", "cyclic"])
        m = r.choice([1, 2, 3, 5])
        if r.random() < .06:
            d, k = r.choice([6, 7]), "high"
            rays = [[r.randint(-1, 1) for _ in range(d - 1)] + [1] for _ in range(d + r.randint(0, 2))]
        elif r.random() < .08:
            d, k = r.choice([3, 3, 4]), "many"
            ts = r.sample(range(-15, 16), r.randint(13, 24) if d == 3 else 13)
            rays = [[t ** (j + 1) for j in range(d - 1)] + [1] for t in ts]
            if r.random() < .5 and d == 3:
                rays = [[r.randint(-3, 3), r.randint(-3, 3), 1] for _ in range(24)]
        elif k == "rand":
            rays = [[r.randint(-m, m) for _ in range(d - 1)] + [r.randint(1, 3)] for _ in range(r.randint(d, d + 4))]
        elif k == "homog":
            rays = [[r.randint(-m, m) for _ in range(d - 1)] + [1] for _ in range(r.randint(d, d + 5))]
        elif k == "cube":
            rays = [[(i >> j) & 1 for j in range(d - 1)] + [1] for i in range(2 ** (d - 1))]
        elif k == "cyclic":
            ts = r.sample(range(-4, 5), min(9, d + r.randint(0, 3)))
            rays = [[t ** (j + 1) for j in range(d - 1)] + [1] for t in ts]
        else:
            rays = [[r.randint(-4, 4) for _ in range(d)] for _ in range(d)]
        if r.random() < .4 and d > 1:
            U = gen.unimodular(r, d)
            rays = [[sum(U[i][j] * x[j] for j in range(d)) for i in range(d)] for x in rays]
        if r.random() < .12 and d > 1:     # shears with long multipliers: long coordinates, the same determinants
            for _ in range(r.randint(1, 3)):
                i, j = r.sample(range(d), 2)
                m = r.choice([-1, 1]) * r.randint(1, 10 ** r.choice([3, 5, 10, 14]))
                for x in rays:
                    x[i] += m * x[j]
            k += "-long"
        r.shuffle(rays)
        rays = [tuple(x) for x in rays if any(x)]
        seen, out = set(), []
        for x in rays:
            if G.primitive(x) not in seen:
                seen.add(G.primitive(x))
                out.append(x)
        if len(out) < d or len(out) > (24 if k.startswith("many") else 12) or G.rank([list(x) for x in out]) < d:
            continue
        return d, out, k


def boundary(lab, r, o):
    """triangulate-boundary: the facets of the cone, each triangulated."""
    while True:
        d, rays, kind = rand_rays(r)
        prim = [G.primitive(x) for x in rays]
        if d < 2:
            continue
        ref, fac, ell, ext = C.triangulate(prim)
        if len(ext) == len(prim) or r.random() < .3:
            break
    lab.put("c.ext", "V-representation\nbegin\n%d %d integer\n%s\nend\n"
            % (len(rays), d + 1, "\n".join("0 " + " ".join(map(str, x)) for x in rays)))
    res = lab.run("triangulate-boundary", "--input-primal-homog-cone=c.ext", "--output-cones=b", timeout=20)
    o.obs("boundaries")
    if not o.ended(res, light=True):
        return
    what = "triangulate-boundary --input-primal-homog-cone=c.ext"
    text = res.file("b") or ""
    cs = C.parse_cones(text)
    bad = lambda why: o.viol("%s: %s\n%s--- cones\n%s" % (what, why, res.files_text(), text[:3000]))
    if not cs:
        return bad("no cones written")
    on = {f: [] for f in fac}
    for q in cs:
        ps = [G.primitive(tuple(map(int, x))) for x in q["rays"]]
        fs = [f for f in fac if all(C.dot(f, x) == 0 for x in ps)]
        if q["coef"] != 1 or len(ps) != d - 1 or not set(ps) <= set(prim) or G.rank([list(x) for x in ps]) < d - 1:
            return bad("%s is not a simplicial cone on given rays with coefficient 1" % ps)
        if len(fs) != 1:
            return bad("%s is not on a facet" % ps)
        on[fs[0]].append(ps)
    for f, part in on.items():
        j = next(i for i in range(d) if f[i])
        proj = lambda x: tuple(x[i] for i in range(d) if i != j)
        if d == 2:
            if len(part) != 1:
                return bad("facet %s: %d cones" % (f, len(part)))
            continue
        frays = [proj(x) for x in ext if C.dot(f, x) == 0]
        fref = C.triangulate(frays)[0]
        # the functional which is positive on the cone, on the facet's hyperplane
        el = [F(ell[i]) - F(ell[j]) * f[i] / f[j] for i in range(d) if i != j]
        ps = [[proj(x) for x in s] for s in part]
        if C.slice_volume(fref, el) != C.slice_volume(ps, el):
            return bad("facet %s is not covered exactly once: volume %s, must be %s" % (f, C.slice_volume(ps, el), C.slice_volume(fref, el)))
        fs = [C.simp_facets(s) for s in ps]
        for i, s in enumerate(ps):
            w = [r.randint(1, 40) for _ in s]
            x = [sum(a * b[k] for a, b in zip(w, s)) for k in range(d - 1)]
            if any(k != i and all(C.dot(g, x) > 0 for g in fs[k]) for k in range(len(ps))):
                return bad("facet %s: two cones overlap" % (f,))
    o.obs("cones in boundaries", len(cs))
    if len(cs) > 2:
        o.nontrivial()
    o.sample("%s: %s -> %d cones" % (what, rays, len(cs)))


def subdivision(o, r, d, parts, ref, ell, bad):
    """parts: for every cone its simplices; they must cover the cone of ref with disjoint interiors."""
    tot, got = C.slice_volume(ref, ell), C.slice_volume([s for p in parts for s in p], ell)
    if tot != got:
        bad("the cones have total normalised volume %s, the given cone has %s" % (got, tot))
        return False
    # interiors are disjoint: interior points of each part are in no other part
    facs = [[C.simp_facets(s) for s in p] for p in parts]
    for i, p in enumerate(parts):
        for s in p:
            for _ in range(2):
                w = [r.randint(1, 40) for _ in s]
                x = [sum(a * b[j] for a, b in zip(w, s)) for j in range(d)]
                for k in range(len(parts)):
                    if k != i and any(all(C.dot(f, x) > 0 for f in fs) for fs in facs[k]):
                        bad("two cones overlap at %s" % x)
                        return False
    return True


def initial(lab, r, o):
    """hilbert-from-rays --only-triangulate: the subdivision, as cones or as ray indicators; regular for given heights."""
    while True:
        d, rays, kind = rand_rays(r)
        if d == 1 or len(rays) > 12:
            continue
        prim = [G.primitive(x) for x in rays]
        ref, fac, ell, ext = C.triangulate(prim)
        if all(C.dot(ell, x) > 0 for x in prim):
            break
    lab.put("c.rays", "%d %d\n%s\n" % (len(rays), d, "\n".join(" ".join(map(str, x)) for x in rays)))
    n = len(rays)
    heights = None
    mode = r.choice(["", "heights", "heights", "pull", "pull"])
    opt = r.choice([[], ["--triangulation=cddlib"], ["--triangulation=4ti2"], ["--triangulation=cddlib", "--nonsimplicial-subdivision"],
                    ["--nonsimplicial-subdivision"]])
    opt = list(opt)
    if not mode:
        opt = r.choice([[], ["--triangulation=delone"], ["--triangulation=cdd"], ["--triangulation=cddlib"], ["--triangulation=4ti2"]])[:]
    if mode == "heights":
        heights = [r.randint(0, r.choice([1, 3, 1000, 10 ** 20])) for _ in range(n)]
        lab.put("h", "1 %d\n%s\n" % (n, " ".join(map(str, heights))))
        opt.append("--triangulation-height-vector=h")
    elif mode == "pull":
        # a ray to be pulled gets height 1, the others 0
        pull = r.sample(range(n), min(n, r.choice([1, 1, 2, 3])))
        heights = [0] * n
        for i, x in enumerate(pull):
            heights[x] = 1000 ** i
        opt.append("--triangulation-pull-rays=" + ",".join(str(x + 1) for x in pull))
    given = None
    how = r.choice(["triang", "subcones", "subcones", "trivial"])
    if how == "trivial":
        given = r.choice([[list(range(n))], [[prim.index(x) for x in s] for s in ref]])
        lab.put("in", "%d %d\n%s\n" % (len(given), n, "\n".join(" ".join(str(int(i in g)) for i in range(n)) for g in given)))
        opt += ["--subcones=in", "--output-subcones=sub", "--output-trivial-subcones=triv"]
    elif how == "subcones":
        opt.append("--output-subcones=sub")
    o.obs("initial triangulations, %s, %s" % (how, mode or "default heights"))
    res = lab.run("hilbert-from-rays", "--only-triangulate", *opt, "c.rays", timeout=20)
    if not o.ended(res, light=True):
        return
    what = " ".join(res.cmd)
    texts = {}
    bad = lambda why: o.viol("%s: %s\n%s%s" % (what, why, res.files_text(), "".join("--- %s\n%s" % (k, v[:3000]) for k, v in texts.items())))
    cones = []
    if how == "triang":
        texts["c.rays.triang"] = text = res.file("c.rays.triang") or ""
        cones = [[tuple(map(int, x)) for x in q["rays"]] for q in C.parse_cones(text)]
        if not all(x in rays for c in cones for x in c):
            return bad("a cone has a ray which is not among the given ones")
        cones = [[rays.index(x) for x in c] for c in cones]
    else:
        for name in ["sub", "triv"][:1 + (how == "trivial")]:
            texts[name] = text = res.file(name) or ""
            w = text.split()
            try:
                k, m = int(w[0]), int(w[1])
                rows = [w[2 + i * n:2 + i * n + n] for i in range(k)]
                assert m == n and len(w) == 2 + k * n and all(x in "01" for x in w[2:])
            except (IndexError, ValueError, AssertionError):
                return bad("the file %s is not a list of subcones" % name)
            rows = [[i for i in range(n) if x[i] == "1"] for x in rows]
            if name == "triv" and any(x not in map(sorted, given) for x in rows):
                return bad("triv lists a cone which is no subcone of the input")
            cones += rows
    if not cones:
        return bad("no cones written")
    parts = []
    for c in cones:
        ps = [prim[i] for i in c]
        if len(set(c)) != len(c) or G.rank([list(x) for x in ps]) < d:
            return bad("cone over rays %s is not full-dimensional" % c)
        parts.append([ps] if len(c) == d else C.triangulate(ps)[0])
    if not subdivision(o, r, d, parts, ref, ell, bad):
        return
    if heights and how != "trivial" and not any("cddlib" in x for x in opt):      # cddlib uses random heights
        # every cone lies in a cell of the regular subdivision: a linear function bounds the heights of all rays from
        # below and is attained on the cone's rays
        for c in cones:
            basis = []
            for i in c:
                if G.rank([list(rays[j]) for j in basis + [i]]) > len(basis):
                    basis.append(i)
            fs = C.simp_facets([rays[i] for i in basis])
            lin = [sum(F(heights[i]) * f[k] for i, f in zip(basis, fs)) for k in range(d)]
            low = [i for i in range(n) if C.dot(lin, rays[i]) > heights[i] or (i in c and C.dot(lin, rays[i]) != heights[i])]
            if low:
                return bad("the cone over rays %s is not in a cell of the subdivision given by the heights (ray %d)" % (c, low[0]))
        o.obs("regular subdivisions checked")
    if len(cones) > 1:
        o.nontrivial()
    o.obs("cones in initial triangulations", len(cones))
    o.sample("%s: %s -> %d cones" % (what, rays, len(cones)))


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    if r.random() < .15:
        boundary(lab, r, o)
        return o
    if r.random() < .2:
        initial(lab, r, o)
        return o
    d, rays, kind = rand_rays(r)
    eng = r.choice(ENGINES)
    if d == 1 and eng and "topcom" in eng[0]:
        eng = []
    ext = r.random() < .5
    prim = [G.primitive(x) for x in rays]
    if ext:
        name = "c.ext"
        lab.put(name, "V-representation\nbegin\n%d %d integer\n%s\nend\n"
                % (len(rays), d + 1, "\n".join("0 " + " ".join(map(str, x)) for x in rays)))
    else:
        name = "cone"
        lab.put(name, C.cone_text(rays))
    res = lab.run("triangulate", *eng, name, timeout=20)
    o.obs("engine " + (" ".join(eng) or "default"))
    o.see("dims", d)
    o.see("cones", kind)
    if not o.ended(res, light=True):
        return o
    what = "triangulate %s %s" % (" ".join(eng), name)
    text = res.file("triangulation")
    cs = C.parse_cones(text or "")
    if not cs:
        o.viol("%s: no cones written\n%s" % (what, res.files_text()))
        return o
    ref, fac, ell, ext_rays = C.triangulate(prim)
    nonsimp = "--nonsimplicial-subdivision" in eng
    parts = []
    for q in cs:
        rs = [tuple(map(int, x)) for x in q["rays"]]
        ps = [G.primitive(x) for x in rs]
        if q["coef"] != 1:
            o.viol("%s: coefficient %s\n%s" % (what, q["coef"], res.files_text()))
            return o
        if len(set(ps)) != len(ps) or not set(ps) <= set(prim):
            o.viol("%s: a cone has rays %s, not among the given ones\n%s" % (what, rs, res.files_text()))
            return o
        if G.rank([list(x) for x in ps]) < d or (len(ps) != d and not nonsimp):
            o.viol("%s: cone with rays %s is not a full-dimensional simplicial cone\n%s" % (what, rs, res.files_text()))
            return o
        if len(ps) == d:
            det = abs(G.det([list(x) for x in rs]))
            if abs(q["det"]) != det:
                o.viol("%s: cone %s is printed with determinant %d, it is %d\n%s" % (what, rs, q["det"], det, res.files_text()))
            want = sorted(tuple(-x for x in G.primitive(f)) for f in C.simp_facets(ps))
            if sorted(tuple(map(int, f)) for f in q["facets"]) != want and \
               sorted(G.primitive(f) for f in q["facets"]) != want:
                o.viol("%s: cone %s is printed with facets %s, they are %s\n%s" % (what, rs, q["facets"], want, res.files_text()))
            parts.append([ps])
        else:
            parts.append(C.triangulate(ps)[0])
    if o.d["viol"]:
        return o
    bad = lambda why: o.viol("%s: %s\n%s--- triangulation\n%s" % (what, why, res.files_text(), text[:3000]))
    if not subdivision(o, r, d, parts, ref, ell, bad):
        return o
    o.obs("cones in triangulations", len(cs))
    o.see("sizes", len(cs))
    if len(cs) > 1:
        o.nontrivial()
    o.sample("%s: %s -> %d cones" % (what, rays, len(cs)))
    return o


core.drive("C13", "triangulations cover the cone without overlap",
           "seeded random pointed full-dimensional cones of dimension 1-5 with up to 12 rays, also redundant ones, as cone or .ext files; all "
           "engines and lifting options; the cones written are parsed: rays, independence, determinants, facets, exact total volume "
           "of a section, disjointness at sampled interior points. Non-trivial: more than one cone",
           ["triangulate", "triangulate-boundary", "normalize/hilbert-from-rays"], case, lambda ck: D.cases(ck.prop, ck.n(2500, 25000)), min_nontrivial=500)
