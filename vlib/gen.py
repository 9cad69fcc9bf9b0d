"""Workload generators: polytopes in H- and V-representation with exact reference data."""
from fractions import Fraction as F
from math import gcd, lcm, comb
from . import geom as G


class Poly:
    """ineqs/eqs: integer rows (b, a..) meaning b + a.x >= 0 / == 0."""

    def __init__(self, kind, d, ineqs, eqs=(), verts=None):
        self.kind, self.d = kind, d
        self.ineqs = [tuple(map(int, r)) for r in ineqs]
        self.eqs = [tuple(map(int, r)) for r in eqs]
        self._verts = verts
        self.nonneg = ()
        self.src_map = None    # (U, s): x -> U x + s maps it to this one
        self.src = None        # a polytope with the same numbers of lattice points in all dilates, easier to enumerate

    @property
    def verts(self):
        if self._verts is None:
            self._verts = G.vertices(self.ineqs, self.eqs)
        return self._verts

    def empty(self):
        return not self.verts

    def integral(self):
        return all(x.denominator == 1 for v in self.verts for x in map(F, v))

    def dim(self):
        return G.dim_of(self.verts) if self.verts else -1

    def fulldim(self):
        return self.dim() == self.d

    def count(self, t=1, strict=False):
        if self.src:
            return self.src.count(t, strict)
        if not self.verts:
            return 0
        box = G.bbox([tuple(F(x) * t for x in v) for v in self.verts])
        return G.count_points(G.dilate(self.ineqs, t), G.dilate(self.eqs, t), box, strict=strict)

    def cost(self, t=1):
        """Upper estimate of the work of count(t)."""
        if not self.verts:
            return 1
        w = sorted(float(max(v[i] for v in self.verts) - min(v[i] for v in self.verts)) * t + 1 for i in range(self.d))
        c = 1.0
        for x in w[:]:
            c *= x
        return c / w[-1]

    def period(self):
        q = 1
        for v in self.verts:
            for x in v:
                q = lcm(q, F(x).denominator)
        return q

    def points(self, t=1):
        if self.src:
            q = self.src.points(t)
            if self.src_map is None:
                return q
            U, s = self.src_map
            return sorted(tuple(sum(a * b for a, b in zip(u, x)) + t * c for u, c in zip(U, s)) for x in q)
        if not self.verts:
            return []
        box = G.bbox([tuple(F(x) * t for x in v) for v in self.verts])
        return G.count_points(G.dilate(self.ineqs, t), G.dilate(self.eqs, t), box, collect=True)

    # ---- file formats ----
    def latte(self, rng=None, style=None):
        """LattE H-representation; style 'nonneg' moves rows x_i>=0 to a nonnegative line."""
        return hrep_text(self, rng, style)

    def cdd(self, rational=False):
        rows, lin = [], []
        for i, e in enumerate(self.eqs):
            lin.append(i + 1)
            rows.append(e)
        rows += self.ineqs
        s = "H-representation\n"
        if lin:
            s += "linearity %d %s\n" % (len(lin), " ".join(map(str, lin)))
        s += "begin\n%d %d %s\n" % (len(rows), self.d + 1, "rational" if rational else "integer")
        for r in rows:
            s += " ".join(map(str, r)) + "\n"
        return s + "end\n"

    def cdd_ext(self):
        s = "V-representation\nbegin\n%d %d rational\n" % (len(self.verts), self.d + 1)
        for v in self.verts:
            s += "1 " + " ".join(str(F(x)) for x in v) + "\n"
        return s + "end\n"

    def vrep(self, pts=None):
        pts = self.verts if pts is None else pts
        s = "%d %d\n" % (len(pts), self.d + 1)
        for v in pts:
            v = [F(x) for x in v]
            L = 1
            for x in v:
                L = lcm(L, x.denominator)
            s += " ".join(str(int(x)) for x in [L] + [x * L for x in v]) + "\n"
        return s


def hrep_text(p, rng=None, style=None):
    rows = [(r, "i") for r in p.ineqs] + [(e, "e") for e in p.eqs]
    nonneg = []
    if style == "nonneg":
        keep = []
        for r, k in rows:
            nz = [j for j, a in enumerate(r[1:]) if a]
            if k == "i" and r[0] == 0 and len(nz) == 1 and r[nz[0] + 1] == 1 and nz[0] + 1 not in nonneg:
                nonneg.append(nz[0] + 1)
            else:
                keep.append((r, k))
        if keep:
            rows = keep
        else:
            nonneg = []
    if rng is not None:
        rng.shuffle(rows)
    s = "%d %d\n" % (len(rows), p.d + 1)
    for r, _ in rows:
        s += " ".join(map(str, r)) + "\n"
    lin = [i + 1 for i, (r, k) in enumerate(rows) if k == "e"]
    parts = []
    if lin:
        parts.append("linearity %d %s\n" % (len(lin), " ".join(map(str, lin))))
    if nonneg:
        parts.append("nonnegative %d %s\n" % (len(nonneg), " ".join(map(str, nonneg))))
    if rng is not None:
        rng.shuffle(parts)
    return s + "".join(parts)


# ---- transformations ---------------------------------------------------------------------------

def unimodular(rng, d, steps=None, big=2):
    U = [[int(i == j) for j in range(d)] for i in range(d)]
    if d == 1:
        return [[rng.choice([1, -1])]]
    for _ in range(steps if steps is not None else rng.randint(1, 2 * d)):
        i, j = rng.sample(range(d), 2)
        k = rng.randint(-big, big)
        U[i] = [a + k * b for a, b in zip(U[i], U[j])]
        if rng.random() < .2:
            U[i] = [-a for a in U[i]]
        if rng.random() < .3:
            U[i], U[j] = U[j], U[i]
    return U


def inv_unimod(U):
    d = len(U)
    cols = [G.solve(U, [int(i == j) for i in range(d)]) for j in range(d)]
    return [[int(cols[j][i]) for j in range(d)] for i in range(d)]


def affine(p, U, t, kind=None):
    """Image of p under x -> U x + t (U unimodular)."""
    V = inv_unimod(U)
    d = p.d

    def tr(r):
        a = [sum(r[1 + i] * V[i][j] for i in range(d)) for j in range(d)]
        return (r[0] - sum(x * y for x, y in zip(a, t)),) + tuple(a)
    verts = None
    if p._verts is not None:
        verts = sorted(tuple(sum(U[i][j] * F(v[j]) for j in range(d)) + t[i] for i in range(d)) for v in p._verts)
    q = Poly(kind or p.kind + "+affine", d, [tr(r) for r in p.ineqs], [tr(r) for r in p.eqs], verts)
    q.src, q.src_map = p, (U, t)
    return q


def add_redundant(rng, p, n=2):
    """Valid but redundant rows: duplicates, multiples, sums, slack copies."""
    ine = list(p.ineqs)
    for _ in range(n):
        c = rng.random()
        r = rng.choice(p.ineqs) if p.ineqs else (1,) + (0,) * p.d
        if c < .25:
            ine.append(r)
        elif c < .5:
            k = rng.randint(2, 4)
            ine.append(tuple(k * x for x in r))
        elif c < .75 and p.ineqs:
            q = rng.choice(p.ineqs)
            s = tuple(x + y for x, y in zip(r, q))
            if any(s[1:]):
                ine.append(s)
        else:
            ine.append((r[0] + rng.randint(1, 5),) + r[1:])
    eqs = list(p.eqs)
    if eqs and rng.random() < .6:
        for _ in range(rng.randint(1, 2)):
            k, l = rng.choice([1, 2, -1, -3]), rng.choice([0, 0, 1, -2])
            r, q = rng.choice(eqs), rng.choice(eqs)
            e = tuple(k * x + l * y for x, y in zip(r, q))
            if any(e[1:]):
                eqs.insert(rng.randint(0, len(eqs)), e)
    q = Poly(p.kind + "+redundant", p.d, ine, eqs, p._verts)
    return q


def embed(rng, p, kind=None):
    """p (dim d) as a lower-dimensional polytope in dimension d+1: fresh coordinate y with
    c*y = a.x + b integrally solvable only for some x when c > 1."""
    d = p.d
    c = rng.choice([1, 1, 1, 2, 3])
    a = [rng.randint(-2, 2) for _ in range(d)]
    b = rng.randint(-3, 3)
    pos = rng.randint(0, d)

    def ins(r, x):
        r = list(r)
        return tuple(r[:1 + pos] + [x] + r[1 + pos:])
    eq = ins([b] + a, -c)
    return Poly(kind or p.kind + "+embed", d + 1, [ins(r, 0) for r in p.ineqs], [ins(r, 0) for r in p.eqs] + [eq])


def implied_eq(rng, p):
    """Equations written as pairs of opposite inequalities."""
    ine = list(p.ineqs)
    for e in p.eqs:
        ine.append(e)
        ine.append(tuple(-x for x in e))
    return Poly(p.kind + "+implied", p.d, ine, [], p._verts)


# ---- base families -----------------------------------------------------------------------------

def box(rng, d, m=4):
    lo = [rng.randint(-3, 3) for _ in range(d)]
    hi = [l + rng.randint(0 if rng.random() < .15 else 1, m) for l in lo]
    ine = []
    for i in range(d):
        e = [0] * d
        e[i] = 1
        ine.append([-lo[i]] + e)
        ine.append([hi[i]] + [-x for x in e])
    return Poly("box", d, ine)


def std_simplex(rng, d, m=None):
    m = m or rng.randint(1, 6)
    ine = [[0] + [int(i == j) for j in range(d)] for i in range(d)]
    ine.append([m] + [-1] * d)
    return Poly("simplex", d, ine)


def knap_simplex(rng, d, m=12):
    """x >= 0, sum a_i x_i <= b : rational vertices."""
    ine = [[0] + [int(i == j) for j in range(d)] for i in range(d)]
    ine.append([rng.randint(1, m)] + [-rng.randint(1, 5) for _ in range(d)])
    return Poly("knapsimplex", d, ine)


def knap_eq(rng, d, m=14):
    ine = [[0] + [int(i == j) for j in range(d)] for i in range(d)]
    return Poly("knapeq", d, ine, [[rng.randint(1, m)] + [-rng.randint(1, 5) for _ in range(d)]])


def cut_box(rng, d, m=3):
    p = box(rng, d, m)
    ine = list(p.ineqs)
    for _ in range(rng.randint(1, 3)):
        a = [rng.randint(-3, 3) for _ in range(d)]
        if not any(a):
            continue
        # through the neighbourhood of a random interior point
        x = [F(rng.randint(0, 8), 8) for _ in range(d)]
        pt = [l + (h - l) * t for (l, h), t in zip([(-p.ineqs[2 * i][0], p.ineqs[2 * i + 1][0]) for i in range(d)], x)]
        v = sum(u * w for u, w in zip(a, pt))
        b = -(v.numerator // v.denominator) + rng.randint(0, 2)
        ine.append([b] + a)
    return Poly("cutbox", d, ine)


def hull(rng, d, n=None, r=3, den=1):
    for _ in range(50):
        n_ = n or rng.randint(d + 1, d + 4)
        pts = [tuple(F(rng.randint(-r * den, r * den), den) for _ in range(d)) for _ in range(n_)]
        pts = list(dict.fromkeys(pts))
        if len(pts) > d and G.dim_of(pts) == d:
            break
    else:
        return std_simplex(rng, d)
    ext = G.extreme_points(pts)
    fac, eqs = G.facets_of(ext)
    return Poly("hull" if den == 1 else "rathull", d, fac, eqs, sorted(ext))


def crosspoly(rng, d, m=None):
    m = m or rng.randint(1, 3)
    from itertools import product
    return Poly("cross", d, [[m] + list(s) for s in product([1, -1], repeat=d)])


def pyramid(rng, d):
    """Non-simple apex: pyramid over a box."""
    if d < 3:
        return hull(rng, d)
    from itertools import product
    h = rng.randint(1, 3)
    pts = [tuple(F(x) for x in s) + (F(0),) for s in product([0, rng.randint(1, 2)], repeat=d - 1)]
    apex = tuple(F(rng.randint(0, 2)) for _ in range(d - 1)) + (F(h),)
    ext = G.extreme_points(pts + [apex])
    fac, eqs = G.facets_of(ext)
    return Poly("pyramid", d, fac, eqs, sorted(ext))


def transport(rng, r, c, m=4):
    M = [[rng.randint(0, m) for _ in range(c)] for _ in range(r)]
    d = r * c
    ine = [[0] + [int(i == j) for j in range(d)] for i in range(d)]
    eqs = []
    for i in range(r):
        eqs.append([sum(M[i])] + [-int(k // c == i) for k in range(d)])
    for j in range(c):
        eqs.append([sum(M[i][j] for i in range(r))] + [-int(k % c == j) for k in range(d)])
    if rng.random() < .5:
        eqs.pop(rng.randrange(len(eqs)))
    return Poly("transport", d, ine, eqs)


def order_poly(rng, d):
    ine = []
    for i in range(d):
        e = [0] * d
        e[i] = 1
        ine.append([0] + e)
        ine.append([1] + [-x for x in e])
    for i in range(d):
        for j in range(i + 1, d):
            if rng.random() < .4:
                e = [0] * d
                e[i], e[j] = -1, 1
                ine.append([0] + e)
    k = rng.randint(1, 3)
    return Poly("order", d, G.dilate(ine, k))


def point(rng, d):
    x = [rng.randint(-4, 4) for _ in range(d)]
    eqs = []
    for i in range(d):
        e = [0] * d
        e[i] = 1
        for j in range(i):
            e[j] = rng.randint(-1, 1)
        eqs.append([-sum(a * b for a, b in zip(e, x))] + e)
    k = rng.randint(0, d)
    ine = []
    for e in eqs[k:]:
        ine += [e, [-a for a in e]]
    return Poly("point", d, ine, eqs[:k])


def thin(rng, d):
    """Full-dimensional but without (or with few) lattice points."""
    p = hull(rng, d, den=rng.choice([3, 5, 7]), r=1)
    p.kind = "thin"
    return p


def from_cdd_rng(rng, d):
    return cut_box(rng, d)


def rational_box(rng, d):
    ine = []
    for i in range(d):
        q = rng.choice([1, 2, 3])
        lo = rng.randint(-5, 5)
        e = [0] * d
        e[i] = q
        ine.append([-lo] + e)
        q2 = rng.choice([1, 2, 3])
        hi = -((-lo * q2) // q) + rng.randint(0, 6)
        e = [0] * d
        e[i] = -q2
        ine.append([hi] + e)
    return Poly("ratbox", d, ine)


BASE = [("box", box), ("simplex", std_simplex), ("knapsimplex", knap_simplex), ("cutbox", cut_box),
        ("hull", hull), ("rathull", lambda r, d: hull(r, d, den=r.choice([2, 3]), r=2)), ("cross", crosspoly),
        ("pyramid", pyramid), ("order", order_poly), ("ratbox", rational_box), ("thin", thin)]
NONFULL = [("knapeq", knap_eq), ("point", point)]


def _unit(d, i, s=1):
    return [s * int(i == j) for j in range(d)]


def _cube(d, k=1):
    return [[0] + _unit(d, i) for i in range(d)] + [[k] + _unit(d, i, -1) for i in range(d)]


def slab(rng, d):
    """0/1 cube between two parallel hyperplanes: hypersimplices and the like, many non-simple vertices."""
    a = [rng.choice([1, 1, 1, -1]) for _ in range(d)]
    lo, hi = sum(x for x in a if x < 0), sum(x for x in a if x > 0)
    k = rng.randint(lo, hi - 1)
    l = rng.randint(k + 1, hi)
    return Poly("slab", d, _cube(d) + [[-k] + a, [l] + [-x for x in a]])


def stable(rng, d):
    """Edge relaxation of stable sets: half-integral vertices for odd cycles."""
    ine = _cube(d)
    for i in range(d):
        for j in range(i):
            if rng.random() < .3:
                ine.append([1] + [-int(k in (i, j)) for k in range(d)])
    return Poly("stable", d, ine)


def product(rng, ps):
    d = sum(p.d for p in ps)
    ine, eqs, off = [], [], 0
    for p in ps:
        for src, dst in ((p.ineqs, ine), (p.eqs, eqs)):
            for r in src:
                dst.append([r[0]] + [0] * off + list(r[1:]) + [0] * (d - off - p.d))
        off += p.d
    perm = list(range(d))
    rng.shuffle(perm)
    f = lambda r: [r[0]] + [r[1 + k] for k in perm]
    return Poly("product", d, [f(r) for r in ine], [f(r) for r in eqs])


def multi_knap(rng, d):
    ine = [[0] + _unit(d, i) for i in range(d)]
    for _ in range(rng.randint(1, 2)):
        ine.append([rng.randint(2, 5)] + [-rng.randint(1, 2) for _ in range(d)])
    return Poly("multiknap", d, ine)


def flow(rng, d):
    """Flows of a small network with capacities: equations with entries -1, 0, 1."""
    n = max(2, d - rng.randint(1, 4))
    arcs = []
    while len(arcs) < d:
        i, j = rng.sample(range(n), 2)
        arcs.append((min(i, j), max(i, j)) if rng.random() < .7 else (i, j))
    x = [rng.randint(0, 2) for _ in arcs]
    ine = _cube(d, 2)
    eqs = []
    for v in range(n):
        row = [int(b == v) - int(a == v) for a, b in arcs]
        if any(row):
            eqs.append([-sum(p * q for p, q in zip(row, x))] + row)
    return Poly("flow", d, ine, eqs)


def polygon(rng):
    n = rng.randint(10, 30)
    m = rng.choice([4, 10, 30])
    pts = list({(F(rng.randint(-m, m)), F(rng.randint(-m, m))) for _ in range(n)} | {(F(0), F(0)), (F(1), F(0)), (F(0), F(1))})
    ext = G.extreme_points(pts)
    fac, eqs = G.facets_of(ext)
    return Poly("polygon", 2, fac, eqs, sorted(ext))


def hull3(rng):
    return hull(rng, 3, n=rng.randint(8, 14), r=2)


def many_rows(rng, p):
    return add_redundant(rng, p, rng.randint(15, 60))


def wide_poly(rng, integral=False, full=False, maxtri=0):
    """Bounded, non-empty; many dimensions, rows, equations or vertices, but easily enumerated."""
    for _ in range(100):
        c = rng.random()
        if c < .16:
            p = slab(rng, rng.choice([5, 5, 6, 6, 7, 8]))
        elif c < .28:
            p = stable(rng, rng.randint(5, 7))
        elif c < .38:
            p = std_simplex(rng, rng.randint(5, 12), rng.randint(1, 2))
        elif c < .44:
            p = multi_knap(rng, rng.randint(4, 6))
        elif c < .54:
            p = order_poly(rng, rng.randint(5, 8))
            p = Poly("order", p.d, [[1 if r[0] else 0] + list(r[1:]) for r in p.ineqs])
        elif c < .64:
            q = [cut_box(rng, rng.randint(1, 2), 2) for _ in range(rng.randint(2, 3))]
            p = product(rng, q)
        elif c < .72:
            p = polygon(rng)
        elif c < .78:
            p = hull3(rng)
        elif c < .84:
            p = many_rows(rng, any_poly(rng, dmax=3, full=full, integral=integral))
        elif full:
            continue
        elif c < .90:
            p = transport(rng, *rng.choice([(2, 3), (2, 4), (3, 3), (2, 5), (3, 4)]), m=2)
        elif c < .95:
            p = flow(rng, rng.randint(5, 11))
        else:
            p = any_poly(rng, dmax=2)
            for _ in range(rng.randint(2, 4)):
                p = embed(rng, p)
        if not p.verts or full and not p.fulldim() or integral and not p.integral() or p.dim() < 1:
            continue
        if maxtri and len(G.triangulate(p.verts)) > maxtri:
            continue
        if p.cost() > (3e4 if not p.eqs else 3e6):
            continue
        if rng.random() < .35:
            U, s = unimodular(rng, p.d, steps=rng.randint(1, 4)), [rng.randint(-5, 5) for _ in range(p.d)]
            if p.d > 1 and rng.random() < .2:      # long multipliers: entries beyond 32 and 64 bits, the same lattice points
                U = unimodular(rng, p.d, steps=rng.randint(1, 3), big=10 ** rng.choice([3, 6, 10, 14]))
                p.kind += "-long"
            p = affine(p, U, s)
        if rng.random() < .15:
            src, p = p, add_redundant(rng, p, rng.randint(1, 3))
            p.src = src
        p.kind = "wide-" + p.kind
        return p
    raise RuntimeError("generator exhausted")


def any_poly(rng, dmax=4, integral=False, full=False, dmin=1, allow_empty=False, maxbox=40000):
    """A random non-empty bounded polytope with a mix of transformations."""
    for _ in range(200):
        d = rng.choices(range(dmin, dmax + 1), [min(3, 1 + i) for i in range(dmax - dmin + 1)])[0]
        if not full and rng.random() < .18:
            name, f = rng.choice(NONFULL)
            if name == "knapeq" and d < 2:
                continue
            p = f(rng, d)
        elif not full and rng.random() < .06 and dmax >= 4:
            p = transport(rng, 2, 2) if dmax < 6 or rng.random() < .5 else transport(rng, 2, 3)
        else:
            name, f = rng.choice(BASE)
            if name in ("cross", "order") and d > 4:
                continue
            if name in ("hull", "rathull", "thin", "pyramid") and d > 4:
                continue
            if name in ("rathull", "thin") and d > 3:
                continue                                # seconds to minutes per run
            p = hull(rng, d, n=rng.randint(d + 1, d + 2), r=2) if name == "hull" and d > 3 else f(rng, d)
        if not full and rng.random() < .2 and p.d < dmax:
            p = embed(rng, p)
        if rng.random() < .45:
            p = affine(p, unimodular(rng, p.d, steps=rng.randint(0, 3)),
                       [rng.randint(-5, 5) for _ in range(p.d)])
        if rng.random() < .3:
            p = add_redundant(rng, p, rng.randint(1, 3))
        if p.eqs and rng.random() < .25:
            p = implied_eq(rng, p)
        if p.empty() and not allow_empty:
            continue
        if integral and not p.integral():
            continue
        if full and not p.fulldim():
            continue
        if p.verts:
            b = G.bbox(p.verts)
            v = 1
            for lo, hi in b:
                v *= max(1, hi - lo + 1)
            if v > maxbox:
                continue
        return p
    raise RuntimeError("generator exhausted")
