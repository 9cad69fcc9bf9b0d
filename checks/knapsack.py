import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from itertools import combinations
from math import gcd, lcm
from vlib import core, drive as D, quasi as Q


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    big = r.random() < .25
    long_ = big and r.random() < .3
    if long_:
        # many numbers, nearly all of them 1
        N = r.randint(7, 40)
        k = r.choice([0, 0, 1, 2, 3]) if N < 25 else r.choice([0, 0, 1])
        a = [1] * N
        for i in r.sample(range(N), r.randint(0, N - k - 1 if N - k - 1 < 5 else 5)):
            a[i] = r.choice([1, 2, 3, 7, 10 ** 6])
    elif big:
        # the asked coefficients are constants when all (N-k)-subsets are coprime
        N = r.randint(2, 6)
        m = r.choice([1000, 10 ** 6, 2 ** 31, 10 ** 12])
        k = r.randint(0, N - 2)
        for _ in range(500):
            a = [r.randint(1, m) for _ in range(N)]
            if all(gcd(*s) == 1 for s in combinations(a, N - k)):
                break
        else:
            k, a = 0, [1] + a[1:]
    else:
        while True:
            N = r.randint(2, 6)
            pool = r.choice([[1, 2, 3, 4, 5, 6, 8, 9, 10, 12], [2, 3, 4, 6, 12], [1, 2, 4, 8, 16], [6, 10, 15, 30, 5], [1, 1, 2, 2],
                             [3, 6, 9, 5], [12, 18, 4, 9, 7], [1, 7, 14], list(range(1, 21))])
            a = [r.choice(pool) for _ in range(N)]
            if gcd(*a) == 1 and lcm(*a) * N <= 20000:
                break
        k = r.randint(0, N - 1)
    allk = r.random() < .5
    g = r.choice([[], [], ["--gcd-polynomial", "0"], ["--gcd-polynomial", "1"]])
    lab.put("k", "%d %s\n" % (N, " ".join(map(str, a))))
    opt = ["-f" if r.random() < .5 else "--file", "k"] + (["--all-k", str(k + 1)] if allk else ["-k", str(k + 1)])
    res = lab.run("top-ehrhart-knapsack", *opt, *g, "-o", "out", timeout=25)
    o.see("N", N)
    o.see("periods", lcm(*a) if not big else "large")
    o.obs("all-k" if allk else "single")
    if not o.ended(res, light=N <= 4):
        return o
    text = res.file("out") or ""
    what = "top-ehrhart-knapsack %s, knapsack %s" % (" ".join(opt + g), a)
    co = {}
    for d_, i, e in re.findall(r"coeff(\d+)minus(\d+)\s*:=\s*(.*?);", text, re.S):
        co[(int(d_), int(i))] = e
    want = [(N - 1, i) for i in (range(k + 1) if allk else [k])]
    if sorted(co) != sorted(want):
        o.viol("%s: printed coefficients %s instead of %s" % (what, sorted(co), want))
        return o
    if big:
        ref = Q.polynomial_part(a, k)
        refs = [(t, {i: ref[i] for i in range(k + 1)}) for t in (0, 1, r.randint(2, 10 ** 9))]
    else:
        den = Q.Denumerant(a)
        ts = list(range(den.L)) if den.L <= 12 else [r.randrange(den.L) for _ in range(8)] + [0, 1, den.L - 1]
        ts += [r.randint(0, 10 ** 7) for _ in range(2)]
        refs = []
        for t in ts:
            cs = den.coeffs(t)
            refs.append((t, {i: cs[N - 1 - i] for i in range(k + 1)}))
    const = True
    for t, ref in refs:
        for (d_, i), e in co.items():
            try:
                got = Q.evaluate(e, {"t": t, "T": t})
            except (ValueError, IndexError, KeyError, ZeroDivisionError) as ex:
                o.viol("%s: coeff%dminus%d is not an expression (%s): %s" % (what, d_, i, ex, e[:200]))
                return o
            o.obs("coefficient values compared")
            if got != ref[i]:
                o.viol("%s: coefficient of T^%d at t=%d is %s, printed formula gives %s: %s"
                       % (what, d_ - i, t, ref[i], got, e[:300]))
                return o
            if "MOD" in e:
                const = False
    m = re.search(r"topKPolynomial\s*:=(.*?);", text, re.S)
    if allk and not big:
        t, ref = refs[-1]
        env = {"T": t, "t": t}
        for (d_, i), e in co.items():
            env["coeff%dminus%d" % (d_, i)] = Q.evaluate(e, {"t": t})
        exp = sum(ref[i] * F(t) ** (N - 1 - i) for i in ref)
        try:
            got = Q.evaluate(m.group(1), env)
        except Exception as ex:
            got = repr(ex)
        if got != exp:
            o.viol("%s: topKPolynomial at %d is %s, expected %s: %s" % (what, t, got, exp, m and m.group(1)[:300]))
    if not const or big:
        o.nontrivial()
    o.sample("%s: %s" % (what, text[:160]))
    return o


core.drive("C11", "top-ehrhart-knapsack prints the top coefficients of the Ehrhart quasi-polynomial",
           "seeded knapsacks of 2-6 coefficients with many gcd patterns (period up to 10000): every printed step polynomial "
           "evaluated at residues against coefficients interpolated from a dynamic-programming count of the solutions; "
           "coefficients up to 10^12 for which the asked terms are constant, against the Todd expansion. Non-trivial: a "
           "periodic coefficient, or large knapsack coefficients", ["top-ehrhart-knapsack"], case,
           lambda ck: D.cases(ck.prop, ck.n(900, 9000)), min_nontrivial=200)
