"""Exact reference geometry, independent of LattE (integers and Fractions only).

Convention: an inequality row is (b, a1..ad) meaning b + a.x >= 0 (the order of LattE/CDD
H-representation files); eqs are rows with b + a.x == 0.
"""
from fractions import Fraction as F
from itertools import combinations, product
from math import gcd, factorial, lcm

def _ints(row):
    """Integer positive multiple of a rational row."""
    L = 1
    for x in row:
        if isinstance(x, F):
            L = lcm(L, x.denominator)
    if L == 1:
        return [int(x) for x in row]
    return [int(x * L) for x in row]


def _reduce(r):
    g = 0
    for x in r:
        g = gcd(g, x)
    return r if g <= 1 else [x // g for x in r]


def rank(rows):
    """Fraction-free elimination."""
    m = [_ints(r) for r in rows]
    r = 0
    cols = len(m[0]) if m else 0
    for c in range(cols):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        pv, mr = m[r][c], m[r]
        for i in range(r + 1, len(m)):
            f = m[i][c]
            if f:
                m[i] = _reduce([pv * x - f * y for x, y in zip(m[i], mr)])
        r += 1
    return r


def _rref(rows, n):
    """Fraction-free reduced row echelon form -> (rows, pivot columns)."""
    m = [_ints(r) for r in rows]
    piv = []
    r = 0
    for c in range(n):
        p = next((i for i in range(r, len(m)) if m[i][c]), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        mr = m[r] = _reduce(m[r])
        pv = mr[c]
        for i in range(len(m)):
            f = m[i][c]
            if i != r and f:
                m[i] = _reduce([pv * x - f * y for x, y in zip(m[i], mr)])
        piv.append(c)
        r += 1
    return m[:r], piv


def solve(A, b):
    """Unique solution of the square system A x = b, or None if singular."""
    n = len(A)
    m, piv = _rref([list(r) + [v] for r, v in zip(A, b)], n + 1)
    if piv != list(range(n)):
        return None
    return tuple(F(m[i][n], m[i][i]) for i in range(n))


def det(A):
    """Bareiss determinant."""
    n = len(A)
    den = 1
    m = []
    for r in A:
        L = 1
        for x in r:
            if isinstance(x, F):
                L = lcm(L, x.denominator)
        den *= L
        m.append([int(x * L) for x in r])
    sgn, prev = 1, 1
    for k in range(n - 1):
        if not m[k][k]:
            p = next((i for i in range(k + 1, n) if m[i][k]), None)
            if p is None:
                return F(0)
            m[k], m[p] = m[p], m[k]
            sgn = -sgn
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                m[i][j] = (m[i][j] * m[k][k] - m[i][k] * m[k][j]) // prev
        prev = m[k][k]
    return F(sgn * m[n - 1][n - 1], den) if n else F(1)


def nullspace(rows, n):
    """Integer basis of {x : r.x = 0}."""
    m, piv = _rref(rows, n)
    out = []
    for fc in range(n):
        if fc in piv:
            continue
        L = 1
        for i, c in enumerate(piv):
            L = lcm(L, abs(m[i][c]))
        v = [0] * n
        v[fc] = L
        for i, c in enumerate(piv):
            v[c] = -m[i][fc] * (L // m[i][c])
        out.append(_reduce(v))
    return out


def _dot(a, b):
    return sum([x * y for x, y in zip(a, b)])


def cone_rays(A, n):
    """Extreme rays (primitive integer) of the pointed cone {x in R^n : A x >= 0}, by double
    description; None if the cone contains a line."""
    rows = list(dict.fromkeys(tuple(_reduce(_ints(r))) for r in A))
    rows = [r for r in rows if any(r)]
    base = []
    for r in rows:
        if rank(base + [r]) > len(base):
            base.append(r)
            if len(base) == n:
                break
    if len(base) < n:
        return None
    rays = []
    for i in range(n):
        x = nullspace([b for j, b in enumerate(base) if j != i], n)[0] if n > 1 else [1]
        if _dot(x, base[i]) < 0:
            x = [-y for y in x]
        rays.append((tuple(_reduce(x)), frozenset(j for j in range(n) if j != i)))
    done = list(base)
    for r in rows:
        if r in base:
            continue
        k = len(done)
        done.append(r)
        pos, neg, zero = [], [], []
        for x, inc in rays:
            v = _dot(r, x)
            if v > 0:
                pos.append((x, inc, v))
            elif v < 0:
                neg.append((x, inc, v))
            else:
                zero.append((x, inc | {k}))
        if not neg:
            rays = [(x, inc) for x, inc, _ in pos] + zero
            continue
        new = []
        allinc = [inc for _, inc in rays]
        for xp, ip, vp in pos:
            for xn, inn, vn in neg:
                com = ip & inn
                if len(com) < n - 2:
                    continue
                cntc = 0
                for ii in allinc:
                    if com <= ii:
                        cntc += 1
                        if cntc > 2:
                            break
                if cntc > 2:
                    continue
                y = _reduce([vp * b - vn * a for a, b in zip(xp, xn)])
                new.append((tuple(y), com | {k}))
        rays = [(x, inc) for x, inc, _ in pos] + zero + new
    return sorted(x for x, _ in rays)


def _cone_with_eqs(A, E, n):
    """Rays of {A x >= 0, E x == 0}; None if it contains a line."""
    if not E:
        return cone_rays(A, n)
    N = nullspace(E, n)
    k = len(N)
    if k == 0:
        return []
    ys = cone_rays([[_dot(r, b) for b in N] for r in map(_ints, A)], k)
    if ys is None:
        return None
    return sorted(tuple(_reduce([sum(y[i] * N[i][j] for i in range(k)) for j in range(n)])) for y in ys)


def vertices(ineqs, eqs=()):
    """All vertices (tuples of Fractions) of {ineqs >= 0, eqs == 0}."""
    d = len((list(ineqs) + list(eqs))[0]) - 1
    rays = _cone_with_eqs(list(ineqs) + [[1] + [0] * d], list(eqs), d + 1)
    if rays is None:
        return []
    return sorted(tuple(F(x, r[0]) for x in r[1:]) for r in rays if r[0] > 0)


def facets_of(verts):
    """Facet rows (primitive integer, b + a.x >= 0) and equations of conv(verts)."""
    d = len(verts[0])
    hom = [_ints([F(1)] + [F(x) for x in v]) for v in verts]
    eqs = [primitive(v) for v in nullspace(hom, d + 1)]
    base = []
    for h in hom:
        if rank(base + [h]) > len(base):
            base.append(h)
    k = len(base)
    ys = cone_rays([[_dot(h, b) for b in base] for h in hom], k)
    fac = []
    for y in ys:
        h = tuple(_reduce([sum(y[i] * base[i][j] for i in range(k)) for j in range(d + 1)]))
        if any(_dot(h, x) == 0 for x in hom):
            fac.append(h)
    return fac, eqs


def extreme_rays(A, E, d):
    """Extreme rays of the cone {A x >= 0, E x == 0}; None if it contains a line."""
    return _cone_with_eqs(A, E, d)


def is_bounded(ineqs, eqs):
    """For non-empty polyhedra: the recession cone is {0}."""
    d = len((list(ineqs) + list(eqs))[0]) - 1
    r = extreme_rays([r[1:] for r in ineqs], [r[1:] for r in eqs], d)
    return r == []


def primitive(v):
    """Positive multiple of v with coprime integer entries."""
    v = [F(x) for x in v]
    L = 1
    for x in v:
        L = lcm(L, x.denominator)
    w = [int(x * L) for x in v]
    g = 0
    for x in w:
        g = gcd(g, x)
    if g == 0:
        return tuple(w)
    return tuple(x // g for x in w)


def ev(row, x):
    s = row[0]
    for a, y in zip(row[1:], x):
        if a:
            s += a * y
    return s


def extreme_points(pts):
    """Vertices of conv(pts), exact."""
    pts = list(dict.fromkeys(tuple(map(F, p)) for p in pts))
    if len(pts) <= 1:
        return pts
    fac, eqs = facets_of(pts)
    d = len(pts[0])
    out = []
    for p in pts:
        tight = [r[1:] for r in fac if ev(r, p) == 0] + [e[1:] for e in eqs]
        if tight and rank(tight) == d:
            out.append(p)
    return out


def dim_of(pts):
    p0 = pts[0]
    dd = [[a - b for a, b in zip(p, p0)] for p in pts[1:]]
    return rank(dd) if dd else 0


def triangulate(verts, facet_rows=None):
    """Pulling triangulation of conv(verts): list of (dim+1)-tuples of vertices."""
    verts = list(verts)
    if facet_rows is None:
        facet_rows, _ = facets_of(verts)
    inc = [frozenset(i for i, v in enumerate(verts) if ev(r, v) == 0) for r in facet_rows]

    def rec(face, dim):
        if dim == 0:
            return [(min(face),)]
        if len(face) == dim + 1:
            return [tuple(sorted(face))]
        v = min(face)
        res = []
        subs = set()
        for f in inc:
            g = face & f
            if len(g) >= dim and g != face and v not in g:
                subs.add(g)
        for g in subs:
            if dim_of([verts[i] for i in g]) == dim - 1:
                for s in rec(g, dim - 1):
                    res.append((v,) + s)
        return res

    dim = dim_of(verts)
    return [tuple(verts[i] for i in s) for s in rec(frozenset(range(len(verts))), dim)]


def volume(verts, tri=None):
    """Full-dimensional Euclidean volume."""
    tri = triangulate(verts) if tri is None else tri
    d = len(verts[0])
    s = F(0)
    for t in tri:
        if len(t) == d + 1:
            s += abs(det([[a - b for a, b in zip(p, t[0])] for p in t[1:]]))
    return s / factorial(d)


# ---- polynomials: dict exponent-tuple -> Fraction -------------------------------------------

def pmul(a, b):
    out = {}
    for ea, ca in a.items():
        for eb, cb in b.items():
            e = tuple(x + y for x, y in zip(ea, eb))
            out[e] = out.get(e, 0) + ca * cb
    return {e: c for e, c in out.items() if c != 0}


def padd(a, b):
    out = dict(a)
    for e, c in b.items():
        out[e] = out.get(e, 0) + c
    return {e: c for e, c in out.items() if c != 0}


def ppow(a, n, nv):
    r = {(0,) * nv: F(1)}
    for _ in range(n):
        r = pmul(r, a)
    return r


def plinear(coefs):
    n = len(coefs)
    return {tuple(1 if j == i else 0 for j in range(n)): F(c) for i, c in enumerate(coefs) if c != 0}


def integrate_simplex(poly, simplex):
    """Exact integral of poly over a full-dimensional simplex (barycentric expansion)."""
    d = len(simplex) - 1
    vol = abs(det([[a - b for a, b in zip(p, simplex[0])] for p in simplex[1:]]))  # d! * volume
    if vol == 0:
        return F(0)
    lin = [plinear([simplex[j][i] for j in range(d + 1)]) for i in range(d)]
    cache = [[{(0,) * (d + 1): F(1)}] for _ in range(d)]
    total = F(0)
    for e, c in poly.items():
        p = {(0,) * (d + 1): F(c)}
        for i, k in enumerate(e):
            while len(cache[i]) <= k:
                cache[i].append(pmul(cache[i][-1], lin[i]))
            if k:
                p = pmul(p, cache[i][k])
        for be, bc in p.items():
            n = 1
            for b in be:
                n *= factorial(b)
            total += bc * F(n, factorial(d + sum(be)))
    return total * vol


def integrate(poly, tri):
    return sum((integrate_simplex(poly, t) for t in tri), F(0))


# ---- lattice points --------------------------------------------------------------------------

def fdiv(a, b):
    return a // b


def count_points(ineqs, eqs, box, limit=None, collect=False, strict=False):
    """Lattice points of {ineqs>=0, eqs==0} inside the integer box [(lo,hi)..] by
    depth-first search with interval pruning. Returns the number (or the list)."""
    d = len(box)
    rows = [tuple(int(x) for x in r) for r in ineqs]
    if strict:
        rows = [(r[0] - 1,) + r[1:] for r in rows]
    for e in eqs:
        e = tuple(int(x) for x in e)
        rows.append(e)
        rows.append(tuple(-x for x in e))
    rows = list(dict.fromkeys(rows))
    # maximal contribution of coordinates j.. for each row
    suf = []
    for r in rows:
        s = [0] * (d + 1)
        for j in range(d - 1, -1, -1):
            a = r[j + 1]
            s[j] = s[j + 1] + (a * box[j][1] if a > 0 else a * box[j][0])
        suf.append(s)
    out = [] if collect else 0
    cur = []
    n = len(rows)

    def rec(j, part):
        nonlocal out
        lo, hi = box[j]
        for i in range(n):
            a = rows[i][j + 1]
            slack = part[i] + suf[i][j + 1]
            if a == 0:
                if slack < 0:
                    return
            elif a > 0:
                q = -((slack) // a)  # a*x >= -slack -> x >= ceil(-slack/a)
                if q > lo:
                    lo = q
            else:
                q = slack // (-a)
                if q < hi:
                    hi = q
        if lo > hi:
            return
        if j == d - 1:
            if collect:
                out.extend(tuple(cur) + (x,) for x in range(lo, hi + 1))
            else:
                out += hi - lo + 1
            return
        for x in range(lo, hi + 1):
            cur.append(x)
            rec(j + 1, [p + r[j + 1] * x for p, r in zip(part, rows)])
            cur.pop()

    if all(lo <= hi for lo, hi in box):
        rec(0, [r[0] for r in rows])
    return out


def bbox(verts):
    """Integer bounding box (only lattice points matter)."""
    d = len(verts[0])
    out = []
    for i in range(d):
        lo = min(v[i] for v in verts)
        hi = max(v[i] for v in verts)
        out.append((-((-lo.numerator) // lo.denominator) if isinstance(lo, F) else lo,
                    (hi.numerator // hi.denominator) if isinstance(hi, F) else hi))
    return out


def dilate(rows, t):
    """Rows of t*P."""
    return [(r[0] * t,) + tuple(r[1:]) for r in rows]



def lattice_solvable(A, b, n):
    """Does A x = b (integers) have an integral solution?  Column-style Hermite elimination."""
    rows = [list(r) for r in A]
    cols = [[rows[i][j] for i in range(len(rows))] for j in range(n)]
    res = list(b)
    used = 0
    for i in range(len(rows)):
        act = cols[used:]
        while True:
            nz = [c for c in act if c[i]]
            if len(nz) <= 1:
                break
            piv = min(nz, key=lambda c: abs(c[i]))
            for c in nz:
                if c is not piv:
                    k = c[i] // piv[i]
                    for t in range(len(c)):
                        c[t] -= k * piv[t]
        if nz:
            piv = nz[0]
            if res[i] % piv[i]:
                return False
            k = res[i] // piv[i]
            for t in range(len(res)):
                res[t] -= k * piv[t]
            act.remove(piv)
            cols = cols[:used] + [piv] + act
            used += 1
        elif res[i]:
            return False
    return True
