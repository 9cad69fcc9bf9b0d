"""LattE cone files and exact geometry of cones."""
import re
from fractions import Fraction as F
from itertools import combinations
from math import gcd
from . import geom as G


def cone_text(rays, vertex=None, coef=1, facets=()):
    d = len(rays[0])
    v = vertex or [0] * d
    return ("==========\nCone.\nCoefficient: %d\nVertex: [%s]\nExtreme rays:\n%s\nDeterminant:0\nFacets:\n%s\n"
            "Dual determinant:0\nLattice points in parallelepiped:\n[]\n==========\n\n"
            % (coef, " ".join(str(F(x)) for x in v), "\n".join("[%s]" % " ".join(map(str, r)) for r in rays),
               "\n".join("[%s]" % " ".join(map(str, r)) for r in facets) or "[]"))


def parse_cones(text):
    """-> list of dicts coef, vertex, rays, det, facets, ddet"""
    out = []
    vec = r"\[([^\]]*)\]"
    for blk in text.split("Cone.")[1:]:
        def vecs(s):
            vs = [tuple(F(x) for x in m.split()) for m in re.findall(vec, s)]
            return [v for v in vs if v]
        m = re.search(r"Coefficient:\s*(-?\d+)\s*Vertex:\s*(\[[^\]]*\])\s*Extreme rays:(.*?)Determinant:\s*(-?\d+)\s*Facets:(.*?)"
                      r"Dual determinant:\s*(-?\d+)", blk, re.S)
        if not m:
            return None
        v = vecs(m.group(2))
        out.append(dict(coef=int(m.group(1)), vertex=v[0] if v else (), rays=vecs(m.group(3)), det=int(m.group(4)),
                        facets=vecs(m.group(5)), ddet=int(m.group(6))))
    return out


def dual_rays(rays):
    """Facet normals (>= 0 on the cone) of the full-dimensional cone spanned by rays."""
    d = len(rays[0])
    return [tuple(x) for x in G.cone_rays([list(map(int, r)) for r in rays], d)]


def simp_facets(rays):
    """For linearly independent d rays: facet i vanishes on all rays but i, positive there (rational)."""
    d = len(rays)
    out = []
    for i in range(d):
        out.append(G.solve([list(r) for r in rays], [int(j == i) for j in range(d)]))
    return out


def slice_volume(simplices, ell):
    """Sum of the volumes of the sections {ell = 1}, up to the common factor."""
    s = F(0)
    for c in simplices:
        v = abs(F(G.det([list(map(int, r)) for r in c])))
        for r in c:
            v /= sum(a * b for a, b in zip(ell, r))
        s += v
    return s


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def triangulate(rays):
    """Reference triangulation of a full-dimensional pointed cone (placing, exact)."""
    d = len(rays[0])
    # section with a positive functional -> polytope -> geom.triangulate
    fac = dual_rays(rays)
    ell = [sum(f[i] for f in fac) for i in range(d)]
    # extreme rays only
    ext = []
    for r in rays:
        act = [f for f in fac if dot(f, r) == 0]
        if d == 1 or G.rank([list(f) for f in act] or [[0] * d]) == d - 1:
            q = G.primitive(r)
            if q not in ext:
                ext.append(q)

    def rec(rs, act, dim):
        # rs: extreme rays of a face of dimension dim, act: facets available
        if len(rs) == dim:
            return [rs]
        apex = rs[0]
        out = []
        seen = set()
        for f in fac:
            if dot(f, apex) == 0:
                continue
            sub = tuple(r for r in rs if dot(f, r) == 0)
            if sub in seen or not sub or G.rank([list(r) for r in sub]) != dim - 1:
                continue
            seen.add(sub)
            out += [[apex] + t for t in rec(list(sub), None, dim - 1)]
        return out
    return rec(ext, None, d), fac, ell, ext
