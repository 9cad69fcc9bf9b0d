"""Polytopes of any size whose number of lattice points has a closed form or a fast exact algorithm."""
from fractions import Fraction as F
from math import comb, gcd, lcm, prod
from . import gen, geom as G


def floor_sum(n, m, a, b):
    """sum_{i<n} floor((a i + b) / m), exact, n >= 0, m > 0, a, b >= 0 (ACL)."""
    ans = 0
    while True:
        if a >= m:
            ans += (n - 1) * n // 2 * (a // m)
            a %= m
        if b >= m:
            ans += n * (b // m)
            b %= m
        y = a * n + b
        if y < m:
            return ans
        n, b = divmod(y, m)
        m, a = a, m


def triangle_count(a, b, c):
    """#{x,y >= 0 : a x + b y <= c}."""
    if c < 0:
        return 0
    n = c // a + 1
    # sum_{x=0}^{n-1} (floor((c - a x)/b) + 1), reversed to make the slope positive
    last = c - a * (n - 1)
    return floor_sum(n, b, a, last) + n


def box(rng, m):
    d = rng.randint(1, 8 if m < 10 ** 6 else 5)
    lo = [rng.randint(-m, m) for _ in range(d)]
    w = [rng.randint(0, m) for _ in range(d)]
    ine = []
    for i in range(d):
        e = [0] * d
        e[i] = 1
        ine.append([-lo[i]] + e)
        ine.append([lo[i] + w[i]] + [-x for x in e])
    return gen.Poly("bigbox", d, ine), prod(x + 1 for x in w)


def simplex(rng, m):
    d = rng.randint(1, 7)
    n = rng.randint(1, m)
    return gen.std_simplex(rng, d, n), comb(n + d, d)


def chain(rng, m):
    d = rng.randint(2, 6)
    n = rng.randint(1, m)
    ine = [[0] + [int(i == 0) for i in range(d)]]
    for i in range(d - 1):
        ine.append([0] + [-1 if k == i else 1 if k == i + 1 else 0 for k in range(d)])
    ine.append([n] + [0] * (d - 1) + [-1])
    return gen.Poly("chain", d, ine), comb(n + d, d)


def cross(rng, m):
    d = rng.randint(2, 4)
    n = rng.randint(1, m)
    p = gen.crosspoly(rng, d, n)
    return p, sum(2 ** k * comb(d, k) * comb(n, k) for k in range(d + 1))


def prod_simplices(rng, m):
    parts = []
    while sum(parts) < 2 or (rng.random() < .6 and sum(parts) < 6):
        parts.append(rng.randint(1, 3))
    d = sum(parts)
    ine, cnt, o = [], 1, 0
    for k in parts:
        n = rng.randint(1, m)
        for i in range(k):
            ine.append([0] + [int(j == o + i) for j in range(d)])
        ine.append([n] + [-int(o <= j < o + k) for j in range(d)])
        cnt *= comb(n + k, k)
        o += k
    return gen.Poly("prodsimplex", d, ine), cnt


def magic3(rng, m):
    n = rng.randint(1, m)
    ine = [[0] + [int(i == j) for j in range(9)] for i in range(9)]
    eqs = [[n] + [-int(k // 3 == i) for k in range(9)] for i in range(3)]
    eqs += [[n] + [-int(k % 3 == i) for k in range(9)] for i in range(3)]
    if rng.random() < .5:
        eqs.pop(rng.randrange(6))
    return gen.Poly("magic3", 9, ine, eqs), comb(n + 2, 4) + comb(n + 3, 4) + comb(n + 4, 4)


def transport2(rng, m):
    """2 x c tables with given margins."""
    c = rng.randint(2, 4)
    cols = [rng.randint(1, m) for _ in range(c)]
    r0 = rng.randint(0, sum(cols))
    d = 2 * c
    ine = [[0] + [int(i == j) for j in range(d)] for i in range(d)]
    eqs = [[r0] + [-int(k < c) for k in range(d)], [sum(cols) - r0] + [-int(k >= c) for k in range(d)]]
    eqs += [[cols[j]] + [-int(k % c == j) for k in range(d)] for j in range(c)]
    cnt = 0
    for s in range(2 ** c):
        t = r0 - sum(cols[j] + 1 for j in range(c) if s >> j & 1)
        if t >= 0:
            cnt += (-1) ** bin(s).count("1") * comb(t + c - 1, c - 1)
    return gen.Poly("transport2", d, ine, eqs), cnt


def triangle(rng, m):
    """Rational triangle x, y >= 0, a x + b y <= c."""
    a, b = rng.randint(1, m), rng.randint(1, m)
    c = rng.randint(0, m * rng.randint(1, 50))
    return gen.Poly("triangle", 2, [[0, 1, 0], [0, 0, 1], [c, -a, -b]]), triangle_count(a, b, c)


def polygon(rng, m):
    """Lattice polygon, Pick's theorem."""
    while True:
        pts = [(rng.randint(-m, m), rng.randint(-m, m)) for _ in range(rng.randint(3, 7))]
        pts = list(dict.fromkeys((F(x), F(y)) for x, y in pts))
        if len(pts) > 2 and G.dim_of(pts) == 2:
            break
    ext = G.extreme_points(pts)
    fac, eqs = G.facets_of(ext)
    p = gen.Poly("polygon", 2, fac, eqs, sorted(ext))
    area = G.volume(ext)
    bnd = 0
    for f in fac:
        on = [v for v in ext if G.ev(f, v) == 0]
        assert len(on) == 2
        bnd += gcd(int(on[0][0] - on[1][0]), int(on[0][1] - on[1][1]))
    n = area + F(bnd, 2) + 1
    assert n.denominator == 1
    return p, int(n)


def prism(rng, m):
    p, n = (triangle if rng.random() < .5 else polygon)(rng, m)
    k = rng.randint(0, m)
    return gen.Poly(p.kind + "prism", 3, [r + (0,) for r in p.ineqs] + [(0, 0, 0, 1), (k, 0, 0, -1)]), n * (k + 1)


def slab_tetra(rng, m):
    """x, y, z >= 0, a x + b y + c z <= e with few values of z: big-index cones in dimension 3."""
    a, b = rng.randint(1, m), rng.randint(1, m)
    c = rng.randint(max(1, m // 2), m)
    e = rng.randint(0, 12 * c)
    n = sum(triangle_count(a, b, e - c * z) for z in range(e // c + 1))
    return gen.Poly("slabtetra", 3, [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [e, -a, -b, -c]]), n


def reeve(rng, m):
    """Reeve tetrahedron conv(0, e1, e2, (1,1,n)): 4 lattice points, volume n/6."""
    n = rng.randint(2, m)
    vs = [(F(0),) * 3, (F(1), F(0), F(0)), (F(0), F(1), F(0)), (F(1), F(1), F(n))]
    fac, eqs = G.facets_of(vs)
    return gen.Poly("reeve", 3, fac, eqs, vs), 4


def denumerant(rng, m):
    """sum a_i x_i = b, x >= 0, b large."""
    k = rng.randint(2, 4)
    while True:
        a = [rng.randint(1, 9) for _ in range(k)]
        if gcd(*a) == 1 and lcm(*a) <= 400:
            break
    b = rng.randint(0, m)
    L = lcm(*a)
    # values on the residue class of b, a polynomial of degree < k in the quotient
    top = L * k + b % L
    w = [1] + [0] * top
    for x in a:
        for i in range(x, top + 1):
            w[i] += w[i - x]
    ys = [w[b % L + L * j] for j in range(k)]
    t = b // L
    tot = F(0)
    for j in range(k):
        num, den = 1, 1
        for i in range(k):
            if i != j:
                num *= t - i
                den *= j - i
        tot += F(ys[j] * num, den)
    assert tot.denominator == 1
    ine = [[0] + [int(i == j) for j in range(k)] for i in range(k)]
    return gen.Poly("denumerant", k, ine, [[b] + [-x for x in a]]), int(tot)


FAM = [box, simplex, chain, cross, prod_simplices, magic3, transport2, triangle, polygon, prism, slab_tetra, reeve,
       denumerant]
SIZES = [3, 20, 1000, 46341, 10 ** 6, 2 ** 31 - 1, 2 ** 32 + 15, 10 ** 10, 2 ** 63 + 29, 10 ** 21]


def any_closed(rng):
    while True:
        f = rng.choice(FAM)
        m = rng.choice(SIZES)
        p, n = f(rng, m)
        if n > 0:
            break
    if p.d <= 5 and rng.random() < .5:
        p = gen.affine(p, gen.unimodular(rng, p.d, steps=rng.randint(0, 3)), [rng.randint(-m, m) for _ in range(p.d)])
    if rng.random() < .2:
        p = gen.add_redundant(rng, p, rng.randint(1, 2))
    return p, n, m
