import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from itertools import product
from math import gcd
from vlib import core, drive as D, quasi as Q


def parse(text):
    """LattE matrix -> rows, linearity set; None if malformed."""
    ls = [l for l in text.split("\n") if l.strip()]
    try:
        m, n = map(int, ls[0].split())
        rows = [[F(x) for x in l.split()] for l in ls[1:m + 1]]
        lin, nonneg = set(), set()
        for l in ls[m + 1:]:
            w = l.split()
            if w[0] not in ("linearity", "nonnegative") or len(w) != 2 + int(w[1]):
                return None
            (lin if w[0] == "linearity" else nonneg).update(int(x) - 1 for x in w[2:])
    except (ValueError, IndexError):
        return None
    if any(len(x) != n for x in rows):
        return None
    for j in sorted(nonneg):
        rows.append([F(0)] + [F(int(i == j)) for i in range(n - 1)])
    return rows, lin


def solutions(rows, lin, n, ub):
    """Integer points in the box 0 <= x_i <= ub[i] satisfying all rows."""
    out = []
    eq = [r for i, r in enumerate(rows) if i in lin]
    ine = [r for i, r in enumerate(rows) if i not in lin]
    for x in product(*[range(u + 1) for u in ub]):
        if all(r[0] + sum(a * b for a, b in zip(r[1:], x)) == 0 for r in eq) and \
           all(r[0] + sum(a * b for a, b in zip(r[1:], x)) >= 0 for r in ine):
            out.append(x)
    return out


def slack_solutions(row, keep, n, ub):
    """The x with values of the slacks >= 0 solving one equation (coefficients <= 0 after the constant): by divisibility search."""
    c, co = row[0], [-a for a in row[1:]]
    res = set()

    def rec(i, rest):
        # number of ways to write rest as a non-negative combination of the slack coefficients from i on
        if i == len(sl):
            return [()] if rest == 0 else []
        out = []
        if i == len(sl) - 1:
            q, m = divmod(rest, sl[i])
            return [(q,)] if m == 0 else []
        for k in range(int(rest // sl[i]) + 1):
            if k > 200:
                break
            out += [(k,) + t for t in rec(i + 1, rest - k * sl[i])]
        return out
    sl = co[n:]
    for x in product(*[range(u + 1) for u in ub]):
        rest = c - sum(a * b for a, b in zip(co[:n], x))
        if rest < 0:
            continue
        for t in rec(0, rest):
            res.add((x, t))
    return res


def adversary(lab, o, r):
    """Equations with right-hand sides chosen after a look at the multipliers: a point which does not solve the system, but
    whose residuals the multipliers annihilate.  They must have grown with the right-hand sides."""
    n, m = r.randint(1, 3), r.choice([2, 2, 3])
    while True:
        a = [[r.choice([0, 1, 1, 2, 3]) * r.choice([1, 1, 1, 40]) for _ in range(n)] for _ in range(m)]
        if all(any(x) for x in a):
            break
    # a last column which shows the multipliers: one variable for each row
    ext = [x + [int(i == j) for j in range(m)] for i, x in enumerate(a)]
    b = [r.randint(0, 3) for _ in a]
    for step in range(5):
        text = "%d %d\n%s\nlinearity %d %s\n" % (m, n + m + 1, "\n".join(" ".join(map(str, [v] + [-q for q in x])) for v, x in zip(b, ext)), m,
                                                 " ".join(str(i + 1) for i in range(m)))
        res = lab.run("aggregate", *[str(i + 1) for i in range(m)], stdin=text)
        what = "aggregate %s < p" % " ".join(str(i + 1) for i in range(m))
        if not o.ended(res, light=True):
            return o
        q = parse(res.out)
        if q is None or len(q[0]) != 1 or q[1] != {0} or len(q[0][0]) != n + m + 1:
            o.viol("%s: one equation expected\n%s--- output\n%s" % (what, text, res.out))
            return o
        row = q[0][0]
        mu = [-x for x in row[n + 1:]]
        if any(x.denominator != 1 or x <= 0 for x in mu) or any(row[j + 1] != -sum(u * x[j] for u, x in zip(mu, a)) for j in range(n)) or \
                row[0] != sum(u * v for u, v in zip(mu, b)):
            o.viol("%s: the equation is no combination of the rows\n%s--- output\n%s" % (what, text, res.out))
            return o
        # residuals so far, if any, must not be annihilated
        if step:
            y = [v - sum(p * q for p, q in zip(e, x)) for v, e in zip(b, ext)]
            if row[0] + sum(p * q for p, q in zip(row[1:], x)) == 0 and any(y):
                o.viol("%s: %s solves the aggregated equation and not the system (residuals %s)\n%s--- output\n%s" % (what, x, y, text, res.out))
                return o
            o.obs("adversarial right-hand sides")
        i, j = r.sample(range(m), 2)
        g = gcd(int(mu[i]), int(mu[j]))
        res_i = [0] * m
        res_i[i], res_i[j] = int(mu[j]) // g, -int(mu[i]) // g
        x = [r.randint(0, 3) for _ in range(n)] + [0] * m
        for l in range(m):
            lo = -sum(p * q for p, q in zip(ext[l], x)) - res_i[l]
            x[n + l] = max(0, lo) + r.choice([0, 0, 1, 5])
        b = [sum(p * q for p, q in zip(e, x)) + y for e, y in zip(ext, res_i)]
    o.nontrivial()
    o.see("shapes", ("adversary", n, m))
    o.sample("%s: right-hand sides up to %d" % (what, max(b)))
    return o


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    if r.random() < .25:
        return adversary(lab, o, r)
    n = r.randint(1, 4)
    m = r.randint(1, 3)
    kind = r.choice(["eq", "mixed", "ineq"])
    big = r.choice([1, 1, 1, 10 ** 6, 10 ** 12])
    ub = [r.randint(1, 4) for _ in range(n)]
    while True:
        agg = []
        for _ in range(m):
            a = [r.choice([0, 1, 1, 2, 3, 5]) * r.choice([1, big]) for _ in range(n)]
            x = [r.randint(0, u) for u in ub]          # a solution of the equations, perhaps
            b = sum(p * q for p, q in zip(a, x))
            if r.random() < .15:
                b = r.randint(0, 9)
            agg.append([b] + [-q for q in a])
        if kind == "eq" or r.random() < .7:
            x = [r.randint(0, u) for u in ub]
            for row in agg:
                row[0] = -sum(p * q for p, q in zip(row[1:], x))
        if any(any(row[1:]) for row in agg):
            break
    eq = [kind == "eq" or kind == "mixed" and r.random() < .5 for _ in agg]
    if big > 1 and not all(eq):
        eq = [True] * m
    other = [[0] + [int(i == j) for j in range(n)] for i in range(n)] + [[ub[i]] + [-int(i == j) for j in range(n)] for i in range(n)]
    tagged = [("o", x, False) for x in other] + [("a", x, e) for x, e in zip(agg, eq)]
    if r.random() < .3:
        tagged.append(("o", [r.randint(-3, 6)] + [r.randint(-2, 2) for _ in range(n)], r.random() < .3))
    r.shuffle(tagged)
    idx = [i + 1 for i, t in enumerate(tagged) if t[0] == "a"]
    lin = [i + 1 for i, t in enumerate(tagged) if t[2]]
    text = "%d %d\n%s\n" % (len(tagged), n + 1, "\n".join(" ".join(map(str, t[1])) for t in tagged))
    if lin:
        text += "linearity %d %s\n" % (len(lin), " ".join(map(str, lin)))
    args = list(map(str, idx))
    r.shuffle(args)
    lab.put("p", text)
    res = lab.run("aggregate", *args, stdin=text)
    what = "aggregate %s < p" % " ".join(args)
    o.see("shapes", (n, m, sum(eq)))
    if not o.ended(res, light=True):
        return o
    bad = lambda why: o.viol("%s: %s\n%s--- output\n%s" % (what, why, res.files_text(), res.out))
    q = parse(res.out)
    if q is None:
        bad("malformed output")
        return o
    rows, olin = q
    ns = m - sum(eq)
    if any(len(x) != n + ns + 1 for x in rows):
        bad("%d columns expected" % (n + ns + 1))
        return o
    # rows which are not aggregated stay
    keep = sorted(([F(x) for x in t[1]] + [F(0)] * ns, t[2]) for t in tagged if t[0] == "o")
    slack = sorted(([F(0)] * (n + 1) + [F(int(i == j)) for j in range(ns)], False) for i in range(ns))
    got = sorted((x, i in olin) for i, x in enumerate(rows))
    rest = list(got)
    for k in keep + slack:
        if k not in rest:
            bad("the row %s is missing" % k[0])
            return o
        rest.remove(k)
    if len(rest) != 1 or not rest[0][1]:
        bad("one aggregated equation expected, got %s" % rest)
        return o
    row = rest[0][0]
    if any(x.denominator != 1 for x in row) or any(x > 0 for x in row[1:]) or any(x == 0 for x in row[n + 1:]):
        bad("aggregated equation %s" % row)
        return o
    # the solutions are the same
    want = set()
    for x in product(*[range(u + 1) for u in ub]):
        v = [a[0] + sum(p * q for p, q in zip(a[1:], x)) for a in agg]
        if all(y == 0 if e else y >= 0 for y, e in zip(v, eq)):
            # slack variables in the order of the rows of the file
            order = [(t[1], t[2]) for t in tagged if t[0] == "a"]
            want.add((x, tuple(a[0] + sum(p * q for p, q in zip(a[1:], x)) for a, e in order if not e)))
    if ns == 0:
        sols = {(x, ()) for x in solutions([row], {0}, n, ub)}
    else:
        sols = {(x, tuple(map(int, t))) for x, t in slack_solutions(row, None, n, ub)}
    if sols != want:
        bad("solutions in the box %s: lost %s, gained %s" % (ub, sorted(want - sols)[:3], sorted(sols - want)[:3]))
    o.obs("solutions compared", len(want))
    if m > 1:
        o.nontrivial()
    o.sample("%s: %d solutions" % (what, len(want)))
    return o


core.drive("C20", "aggregate keeps the non-negative integer solutions",
           "seeded systems of one to three equations and inequalities with non-negative coefficients up to 10^12 in one to four variables: the solutions of the "
           "aggregated equation in a box, slack values included, against those of the system; other rows are kept. Non-trivial: at least two rows aggregated",
           ["aggregate"], case, lambda ck: D.cases(ck.prop, ck.n(1200, 12000)), min_nontrivial=300)
