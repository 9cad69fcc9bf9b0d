"""Quasi-polynomials of knapsacks: exact evaluation of printed formulas, and reference coefficients."""
import re
from fractions import Fraction as F
from math import gcd, lcm, factorial

TOK = re.compile(r"\s*(\d+|MOD|[A-Za-z_]\w*|[-+*/^(),])")


def evaluate(text, env):
    """Exact value of an expression over + - * / ^ ( ) MOD(a,b), integers and names in env."""
    out, ops = [], []
    prec = {"+": 1, "-": 1, "*": 2, "/": 2, "~": 3, "^": 4}

    def app():
        op = ops.pop()
        if op == "~":
            out.append(-out.pop())
            return
        b, a = out.pop(), out.pop()
        if op == "+":
            out.append(a + b)
        elif op == "-":
            out.append(a - b)
        elif op == "*":
            out.append(a * b)
        elif op == "/":
            out.append(a / b)
        elif op == "^":
            if F(b).denominator != 1:
                raise ValueError("exponent")
            out.append(a ** int(b))
    i, unary = 0, True
    n = len(text)
    while i < n:
        m = TOK.match(text, i)
        if not m:
            if text[i:].strip() == "":
                break
            raise ValueError("token at " + text[i:i + 20])
        t = m.group(1)
        i = m.end()
        if t.isdigit():
            out.append(F(int(t)))
            unary = False
        elif t == "MOD":
            ops.append("MOD")
        elif t == "(":
            ops.append("(")
            unary = True
        elif t == ",":
            while ops[-1] != "(":
                app()
            unary = True
        elif t == ")":
            while ops[-1] != "(":
                app()
            ops.pop()
            if ops and ops[-1] == "MOD":
                ops.pop()
                b, a = out.pop(), out.pop()
                out.append(a - b * ((a / b).numerator // (a / b).denominator))
            unary = False
        elif t in prec:
            if unary:
                if t == "-":
                    ops.append("~")
                elif t != "+":
                    raise ValueError("operator " + t)
            else:
                while ops and ops[-1] in prec and (prec[ops[-1]] > prec[t] or prec[ops[-1]] == prec[t] and t != "^"):
                    app()
                ops.append(t)
                unary = True
        else:
            out.append(F(env[t]))
            unary = False
    while ops:
        app()
    if len(out) != 1:
        raise ValueError("malformed")
    return out[0]


def interpolate(xs, ys):
    """Coefficients (ascending) of the polynomial through the points."""
    n = len(xs)
    co = [F(0)] * n
    for j in range(n):
        num, den = [F(1)], F(1)
        for i in range(n):
            if i != j:
                num = [(num[k - 1] if k else 0) - xs[i] * (num[k] if k < len(num) else 0) for k in range(len(num) + 1)]
                den *= xs[j] - xs[i]
        for k in range(n):
            co[k] += ys[j] * num[k] / den
    return co


class Denumerant:
    """#{x >= 0 : a.x = t} as a quasi-polynomial in t, from its values."""

    def __init__(self, a):
        self.a = a
        self.N = len(a)
        self.L = lcm(*a)
        top = self.L * (self.N + 1)
        w = [1] + [0] * top
        for x in a:
            for i in range(x, top + 1):
                w[i] += w[i - x]
        self.w = w

    def coeffs(self, t):
        r = t % self.L
        xs = [r + self.L * j for j in range(self.N)]
        return interpolate([F(x) for x in xs], [F(self.w[x]) for x in xs])


def polynomial_part(a, kmax):
    """Contribution of the pole at 1: coefficients of T^(N-1), .., T^(N-1-kmax)."""
    # e^{ts} * prod 1/(1-e^{-a s}), coefficient of s^-1
    N = len(a)
    K = kmax + 1
    ser = [F(1)] + [F(0)] * (K - 1)          # prod of (a s)/(1-e^{-a s})
    for x in a:
        # u/(1-e^{-u}) = 1/(sum_{j>=0} (-u)^j/(j+1)!)
        den = [F((-x) ** j, factorial(j + 1)) for j in range(K)]
        inv = [F(0)] * K
        inv[0] = F(1)
        for k in range(1, K):
            inv[k] = -sum(den[j] * inv[k - j] for j in range(1, k + 1))
        ser = [sum(ser[j] * inv[k - j] for j in range(k + 1)) for k in range(K)]
    pr = 1
    for x in a:
        pr *= x
    return [ser[k] / pr / factorial(N - 1 - k) for k in range(K)]
