import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D
from fractions import Fraction as F


def parse_cdd(text):
    """-> (kind, number of columns, rows, 0-based linearity set)"""
    kind = "V" if "V-representation" in text else "H" if "H-representation" in text else None
    m = re.search(r"\bbegin\s+(\d+)\s+(\d+)\s+(integer|rational)\s(.*?)\bend\b", text, re.S)
    if not m or kind is None:
        return None
    n, d = int(m.group(1)), int(m.group(2))
    w = m.group(4).split()
    if len(w) != n * d:
        return None
    rows = [tuple(F(x) for x in w[i * d:i * d + d]) for i in range(n)]
    lin = set()
    head = re.split(r"\bbegin\b", text)[0]
    l = re.search(r"linearity\s+(\d+)((?:\s+\d+)*)", head)
    if l:
        idx = list(map(int, l.group(2).split()))
        if len(idx) != int(l.group(1)):
            return None
        lin = {i - 1 for i in idx}
    return kind, d, rows, lin


def parse_latte(text):
    w = text.split()
    n, d = int(w[0]), int(w[1])
    nums = w[2:2 + n * d]
    if len(nums) != n * d:
        return None
    rows = [tuple(int(x) for x in nums[i * d:i * d + d]) for i in range(n)]
    lin, rest = set(), w[2 + n * d:]
    while rest:
        k, c = rest[0], int(rest[1])
        idx = [int(x) for x in rest[2:2 + c]]
        if len(idx) != c:
            return None
        if k == "linearity":
            lin |= {i - 1 for i in idx}
        elif k == "nonnegative":
            rows += [tuple(int(j == i) for j in range(d)) for i in idx]
        else:
            return None
        rest = rest[2 + c:]
    return d, rows, lin


def norm(rows, lin):
    s = set()
    for i, r in enumerate(rows):
        q = G.primitive(r)
        if i in lin:
            q = max(q, tuple(-x for x in q))
        s.add((i in lin, q))
    return s


def same_polyhedron(a, b, d):
    """a, b: sets of (is equation, row): the same solution set (homogenised cones, exactly)."""
    if a == b:
        return True

    def cone(s):
        A = [list(r) for e, r in s if not e] + [[1] + [0] * (d - 1)]
        E = [list(r) for e, r in s if e]
        return G.extreme_rays(A, E, d)
    x, y = cone(a), cone(b)
    return x is not None and x == y


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    kind = r.choice(["ine", "ine", "ext", "cdd2latte", "cdd2latte", "roundtrip"])
    p = gen.wide_poly(r) if r.random() < .2 else gen.any_poly(r, dmax=5)
    if r.random() < .25:
        m = r.choice([10 ** 9 + 7, 2 ** 63 + 29, 10 ** 30 + 57])
        p = gen.affine(p, gen.unimodular(r, p.d, steps=2), [r.randint(-m, m) for _ in range(p.d)], p.kind + "+far")
    cone = False
    if kind in ("ine", "cdd2latte", "roundtrip") and r.random() < .2 and p.d > 1 and not p.eqs:
        # an unbounded or empty polyhedron: drop a few rows
        rows = [x for x in p.ineqs if r.random() < .7] or p.ineqs[:1]
        p = gen.Poly(p.kind + "+dropped", p.d, rows, [], verts=p._verts)
    if kind != "ext" and r.random() < .12:
        # any matrix: many rows, columns, linearity and nonnegativity indices
        n, w = r.choice([(1, 2), (12, 4), (40, 7), (120, 3), (15, 25), (3, 60)]), r.choice([1, 9, 10 ** 25])
        n, k = r.randint(1, n[0]), r.randint(1, n[1])
        rows = [x for x in ([r.choice([0, r.randint(-w, w)]) for _ in range(k + 1)] for _ in range(n)) if any(x[1:])] or [[1] + [1] * k]
        ne = r.choice([0, 0, 1, len(rows) // 2, len(rows)])
        rows[ne:] += [[0] + [int(i == j) for j in range(k)] for i in range(k) if r.random() < .5]
        p = gen.Poly("matrix+dropped", k, rows[ne:], rows[:ne], verts=[(F(0),) * k])
    if kind == "ext" and p.empty():
        kind = "ine"
    o.obs(kind)
    o.see("families", p.kind.split("+")[0])
    want = norm(list(p.eqs) + list(p.ineqs), set(range(len(p.eqs))))
    d = p.d + 1
    if kind in ("ine", "roundtrip"):
        text = p.latte(r, r.choice([None, "nonneg"]))
        if r.random() < .2:
            text = text.replace(" ", "\t") if r.random() < .5 else text.replace("\n", "\n\n")
            if "linearity" in text or "nonnegative" in text:
                text = p.latte(r, None).replace("\n", " \n")
        lab.put("p", text)
        res = lab.run("latte2ine", stdin=text)
        if not o.ended(res, light=True):
            return o
        q = parse_cdd(res.out)
        if not q or q[0] != "H" or q[1] != d:
            o.viol("latte2ine: not an H-representation of the same dimension:\n%s--- output\n%s" % (text, res.out[:800]))
            return o
        if not same_polyhedron(norm(q[2], q[3]), want, d):
            o.viol("latte2ine changes the polyhedron (%s):\n%s--- output\n%s" % (p.kind, text, res.out[:1500]))
            return o
        if kind == "roundtrip":
            lab.put("p.ine", res.out)
            res = lab.run("ConvertCDDineToLatte", "p.ine", "p.back")
            if not o.ended(res, light=True):
                return o
            q = parse_latte(res.file("p.back") or "0 0")
            if not q or q[0] != d or not same_polyhedron(norm(q[1], q[2]), want, d):
                o.viol("latte2ine followed by ConvertCDDineToLatte changes the polyhedron:\n%s--- ine\n%s--- back\n%s"
                       % (text, res.file("p.ine"), res.file("p.back")))
    elif kind == "ext":
        vs = list(p.verts)
        gens = [(F(1),) + tuple(map(F, v)) for v in vs]
        if r.random() < .3:
            for _ in range(r.randint(1, 2)):
                gens.append((F(0),) + tuple(F(r.randint(-3, 3)) for _ in range(p.d - 1)) + (F(1),))
        r.shuffle(gens)
        s = "%d %d\n" % (len(gens), d)
        sc = r.random() < .5
        for g in gens:
            if sc:
                g = [x for x in G.primitive(g)]
            s += " ".join(str(x) for x in g) + "\n"
        lab.put("p", s)
        res = lab.run("latte2ext", stdin=s)
        if not o.ended(res, light=True):
            return o
        q = parse_cdd(res.out)
        if not q or q[0] != "V" or q[1] != d or q[3]:
            o.viol("latte2ext: not a V-representation of the same dimension:\n%s--- output\n%s" % (s, res.out[:800]))
            return o
        if norm(q[2], set()) != norm(gens, set()):
            o.viol("latte2ext changes the generators:\n%s--- output\n%s" % (s, res.out[:1500]))
    else:
        rows = [(e, True) for e in p.eqs] + [(i, False) for i in p.ineqs]
        r.shuffle(rows)
        rat = r.random() < .6
        s = r.choice(["", "* a comment\n", "p.ine\n"]) + "H-representation\n"
        lin = [str(i + 1) for i, x in enumerate(rows) if x[1]]
        if lin:
            s += "linearity %d %s\n" % (len(lin), " ".join(lin))
        s += "begin\n%d %d %s\n" % (len(rows), d, "rational" if rat else "integer")
        for row, _ in rows:
            k = F(r.randint(1, 12), r.randint(1, 12)) if rat else 1
            s += " ".join(str(x * k) for x in row) + "\n"
        s += "end\n"
        lab.put("p.ine", s)
        res = lab.run("ConvertCDDineToLatte", "p.ine", "p")
        if not o.ended(res, light=True):
            return o
        try:
            q = parse_latte(res.file("p") or "0 0")
        except (ValueError, IndexError):
            q = None
        if not q or q[0] != d or not same_polyhedron(norm(q[1], q[2]), want, d):
            o.viol("ConvertCDDineToLatte changes the polyhedron:\n%s--- output\n%s" % (s, res.file("p")))
    o.nontrivial()
    o.sample("%s: %s" % (kind, D.describe(p) if "dropped" not in p.kind else p.kind))
    return o


core.drive("C12", "format conversions keep the polyhedron",
           "seeded random polytopes (and polyhedra with rows dropped), coefficients up to 10^30, rational rows, linearity and "
           "nonnegative keywords, converted by latte2ine, latte2ext, ConvertCDDineToLatte and round trips; the output is parsed and "
           "its solution set or generators compared exactly. Non-trivial: every completed conversion",
           ["latte2ine", "latte2ext", "ConvertCDDineToLatte"], case,
           lambda ck: D.cases(ck.prop, ck.n(3000, 30000)), min_nontrivial=800)
