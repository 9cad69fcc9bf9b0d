import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D, cones as C
from fractions import Fraction as F
from itertools import product


def ppiped(s):
    """Lattice points of the half-open parallelepiped of independent integer vectors s (d of them)."""
    d = len(s)
    det = abs(G.det([list(x) for x in s]))
    out = {(0,) * d}
    # group Z^d / <s>, generated by unit vectors: fractional coordinates
    fac = C.simp_facets(s)                # fac[i] . x = coordinate i of x
    seen = {}
    def frac(x):
        lam = [C.dot(f, x) for f in fac]
        lam = tuple(l - (l.numerator // l.denominator) for l in map(F, lam))
        return lam
    zero = frac((0,) * d)
    seen = {zero}
    queue = [zero]
    gens = [frac(tuple(int(i == j) for j in range(d))) for i in range(d)]
    while queue:
        a = queue.pop()
        for g in gens:
            b = tuple((x + y) % 1 for x, y in zip(a, g))
            if b not in seen:
                seen.add(b)
                queue.append(b)
    assert len(seen) == det
    return [tuple(int(sum(l * v[j] for l, v in zip(lam, s))) for j in range(d)) for lam in seen]


def hilbert(rays):
    prim = [G.primitive(x) for x in rays]
    tri, fac, ell, ext = C.triangulate(prim)
    cand = set(ext)
    for s in tri:
        cand |= set(ppiped(s))
    cand.discard((0,) * len(rays[0]))
    vals = {x: tuple(C.dot(f, x) for f in fac) for x in cand}
    order = sorted(cand, key=lambda x: C.dot(ell, x))
    H = []
    for x in order:
        if not any(all(a <= b for a, b in zip(vals[h], vals[x])) for h in H):
            H.append(x)
    return H, fac, ext, tri


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    while True:
        d = r.choice([2, 2, 3, 3, 3, 4, 4])
        m = {2: 12, 3: 5, 4: 2}[d]
        k = r.choice([d, d, d + 1, d + 2, d + 3])
        rays = [[r.randint(-m, m) for _ in range(d - 1)] + [r.randint(1, m)] for _ in range(k)]
        if r.random() < .08:
            d, k = 5, r.choice([5, 6, 7])
            rays = [[r.randint(0, 1) for _ in range(d - 1)] + [r.randint(1, 2)] for _ in range(k)]
        elif r.random() < .08:
            d, k = 3, r.randint(7, 12)
            rays = [[r.randint(-4, 4), r.randint(-4, 4), r.choice([1, 1, 2])] for _ in range(k)]
        if r.random() < .25 and k == d:
            rays = [[r.randint(-m, m) for _ in range(d)] for _ in range(d)]
        if r.random() < .3:
            U = gen.unimodular(r, d, steps=2)
            rays = [[sum(U[i][j] * x[j] for j in range(d)) for i in range(d)] for x in rays]
        if r.random() < .1:
            rays = [[2 * y for y in x] if r.random() < .3 else x for x in rays]
        rays = [tuple(x) for x in rays]
        if len({G.primitive(x) for x in rays}) < len(rays) or G.rank([list(x) for x in rays]) < d:
            continue
        try:
            tri, fac, ell, ext = C.triangulate([G.primitive(x) for x in rays])
        except Exception:
            continue
        if not fac or any(C.dot(ell, x) <= 0 for x in rays):
            continue
        if sum(abs(G.det([list(x) for x in s])) for s in tri) > 600:
            continue
        break
    H, fac, ext, tri = hilbert(rays)
    fmt = r.choice(["ext", "rays", "rays"])
    if fmt == "ext":
        name = "c.ext"
        lab.put(name, "V-representation\nbegin\n%d %d integer\n%s\nend\n"
                % (len(rays), d + 1, "\n".join("0 " + " ".join(map(str, x)) for x in rays)))
    else:
        name = "c.rays"
        lab.put(name, "%d %d\n%s\n" % (len(rays), d, "\n".join(" ".join(map(str, x)) for x in rays)))
    exact = False
    opt = list(r.choice([[], [], ["--no-triang-file"], ["--max-facets=%d" % r.randint(2, 6)], ["--no-initial-triangulation"],
                         ["--triangulation=cddlib"], ["--triangulation=delone"], ["--dualization=cdd"],
                         ["--max-determinant-for-enumeration=%d" % r.choice([5, 1000])],
                         ["--max-determinant-for-enumeration=100000", "--max-facets=%d" % (d + 1), "--triangulation=cddlib"],
                         ["--output-subcones=sub"], ["--triangulation-pull-rays=1"],
                         ["--triangulation-pull-rays=%d" % len(rays), "--no-triang-file"],
                         ["--triangulation-max-height=2"], ["--triangulation-max-height=5", "--max-facets=%d" % (d + 2)]]))
    if opt == ["--no-initial-triangulation"]:
        exact = True
    elif r.random() < .12:
        lab.put("sub", "%d %d\n%s\n" % (len(tri), len(rays), "\n".join(
            " ".join(str(int(G.primitive(x) in s)) for x in rays) for s in tri)))
        opt = ["--subcones=sub", "--no-initial-triangulation"]
    hil = name + ("--subcones-sub" if "--subcones=sub" in opt else "") + ".hil"
    if r.random() < .5:
        opt.insert(0, "--quiet")
    res = lab.run("hilbert-from-rays", *opt, name, timeout=20)
    if res.rc == 0 and r.random() < .15 and res.file(name + ".triang"):
        # the triangulation written is input again
        o.obs("triang file read again")
        opt = ["--quiet"]
        os.rename(os.path.join(lab.dir, name + ".triang"), os.path.join(lab.dir, "t.triang"))
        res = lab.run("hilbert-from-rays", *opt, "t.triang", timeout=20)
        hil = "t.triang.hil"
        exact = False
    o.obs("options " + re.sub(r"\d+", "N", " ".join(x for x in opt if x != "--quiet")))
    o.see("dims", d)
    if not o.ended(res, light=True):
        return o
    what = " ".join(res.cmd)
    text = res.file(hil)
    w = (text or "").split()
    try:
        n, dd = int(w[0]), int(w[1])
        vs = [tuple(map(int, w[2 + i * d:2 + i * d + d])) for i in range(n)]
        assert dd == d and len(w) == 2 + n * d
    except (IndexError, ValueError, AssertionError):
        if text is not None and not w:
            vs = []
        else:
            o.viol("%s: bad output file %s:\n%s\n%s" % (what, hil, text, res.files_text()))
            return o
    have = set(vs)
    if len(have) != len(vs):
        o.viol("%s: a vector is listed twice\n%s\n%s" % (what, vs, res.files_text()))
    out = [v for v in vs if any(C.dot(f, v) < 0 for f in fac)]
    if out:
        o.viol("%s: %s is not in the cone\n%s" % (what, out[0], res.files_text()))
        return o
    miss = [h for h in H if h not in have and h not in rays]
    if miss:
        o.viol("%s: Hilbert basis element %s is missing, file lists %s\n%s" % (what, miss[0], sorted(vs), res.files_text()))
    if exact:
        uni = len(rays) == d and abs(G.det([list(x) for x in rays])) == 1
        if not uni and have != set(H):
            o.viol("%s: lists %s, the Hilbert basis is %s\n%s" % (what, sorted(vs), sorted(H), res.files_text()))
        o.obs("compared exactly")
    if len(H) > len(ext):
        o.nontrivial()
    o.see("Hilbert basis sizes", len(H))
    o.sample("%s %s: %d elements, file %d" % (what, rays, len(H), len(vs)))
    return o


core.drive("C15", "hilbert-from-rays lists a generating set",
           "seeded random pointed full-dimensional cones of dimension 2-4 given as .ext or 4ti2 rays files, also with redundant and non-primitive "
           "generators; all documented options; the file is compared with an exact Hilbert basis. Non-trivial: the Hilbert basis is "
           "larger than the set of extreme rays",
           ["normalize/hilbert-from-rays"], case, lambda ck: D.cases(ck.prop, ck.n(2000, 20000)), min_nontrivial=400)
