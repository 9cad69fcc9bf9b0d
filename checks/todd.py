import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from fractions import Fraction as F
from vlib import core, drive as D


def reciprocal(n):
    """Coefficients up to t^n of t/(1-exp(t)), from the Bernoulli numbers."""
    from math import comb, factorial
    b = [F(1)]
    for m in range(1, n + 1):
        b.append(-sum(comb(m + 1, k) * b[k] for k in range(m)) / (m + 1))
    return [-b[k] / factorial(k) for k in range(n + 1)]


def todd(xs):
    n = len(xs)
    base = reciprocal(n)
    acc = [F(1)] + [F(0)] * n
    for x in xs:
        f = [base[k] * x ** k for k in range(n + 1)]
        acc = [sum(acc[j] * f[k - j] for j in range(k + 1)) for k in range(n + 1)]
    return acc


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    d = r.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 13, 17, 24, 33])
    m = r.choice([1, 2, 9, 100, 10 ** 5, 2 ** 31 - 1])
    xs = [r.randint(-m, m) for _ in range(d)]
    if r.random() < .2:
        xs = [r.choice(xs) for _ in xs]
    res = lab.run("test-todd", *map(str, xs))
    o.see("dimension", d)
    if not o.ended(res, light=True):
        return o
    try:
        got = [F(x) for x in res.out.split()]
    except ValueError:
        got = None
    want = todd(xs)
    if res.rc or got != want:
        o.viol("test-todd %s: exit status %s, %s instead of %s" % (" ".join(map(str, xs)), res.rc, res.out[:300], " ".join(map(str, want))[:300]))
    o.obs("coefficients compared", len(want))
    if d > 1 and any(xs):
        o.nontrivial()
    o.sample("%s: %s" % (xs, res.out.strip()[:80]))
    return o


core.drive("C21", "Todd polynomials of integers",
           "seeded lists of one to 33 integers up to 2^31: every printed value against products of Bernoulli series. Non-trivial: at least two factors",
           ["test-todd"], case, lambda ck: D.cases(ck.prop, ck.n(700, 12000)), min_nontrivial=250)
