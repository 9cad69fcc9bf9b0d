"""Readers and evaluators for LattE's generating-function outputs (mod-prime arithmetic)."""
import re
from fractions import Fraction as F

P = (1 << 61) - 1


def inv(a):
    if isinstance(a, Ser):
        return a.inv()
    return pow(a % P, P - 2, P)


class Pole(Exception):
    pass


class Ser:
    """Truncated power series in one variable over the field of P elements."""
    def __init__(self, c):
        self.c = c

    def _of(self, o):
        return o.c if isinstance(o, Ser) else [o % P] + [0] * (len(self.c) - 1)

    def __add__(self, o):
        return Ser([(a + b) % P for a, b in zip(self.c, self._of(o))])
    __radd__ = __add__

    def __neg__(self):
        return Ser([-a % P for a in self.c])

    def __sub__(self, o):
        return self + -Ser(self._of(o))

    def __rsub__(self, o):
        return -self + o

    def __mul__(self, o):
        b, n = self._of(o), len(self.c)
        r = [0] * n
        for i, x in enumerate(self.c):
            if x:
                for j in range(n - i):
                    r[i + j] = (r[i + j] + x * b[j]) % P
        return Ser(r)
    __rmul__ = __mul__

    def __mod__(self, m):
        return self

    def __eq__(self, o):        # as a denominator: not invertible
        return self.c[0] == o

    def __pow__(self, e, m=None):
        r = Ser([1] + [0] * (len(self.c) - 1))
        for _ in range(e):
            r = r * self
        return r

    def inv(self):
        a, n = self.c, len(self.c)
        i0 = pow(a[0], P - 2, P)
        r = [i0]
        for k in range(1, n):
            r.append(-i0 * sum(a[j] * r[k - j] for j in range(1, k + 1)) % P)
        return Ser(r)


# ---- arithmetic expressions in one variable ----------------------------------------------------

def eval_expr(text, env):
    """Value mod P of an arithmetic expression with + - * / ^ ( ), integers and names in env.
    x[3] style names are allowed."""
    toks = re.findall(r"\d+|[A-Za-z_]\w*(?:\[\d+\])?|[-+*/^()]|\S", text)
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def take(t=None):
        nonlocal pos
        x = peek()
        if t is not None and x != t:
            raise ValueError("expected %r, got %r at token %d" % (t, x, pos))
        pos += 1
        return x

    def expr():
        v = term()
        while peek() in ("+", "-"):
            if take() == "+":
                v = (v + term()) % P
            else:
                v = (v - term()) % P
        return v

    def term():
        v = unary()
        while peek() in ("*", "/"):
            if take() == "*":
                v = v * unary() % P
            else:
                w = unary()
                if w == 0:
                    raise Pole()
                v = v * inv(w) % P
        return v

    def unary():
        if peek() == "-":
            take()
            return -unary() % P
        if peek() == "+":
            take()
            return unary()
        return power()

    def power():
        v = atom()
        if peek() == "^":
            take()
            s = 1
            par = 0
            while peek() in ("(", "-"):
                if take() == "(":
                    par += 1
                else:
                    s = -s
            e = take()
            if not e or not e.isdigit():
                raise ValueError("exponent %r" % e)
            for _ in range(par):
                take(")")
            e = s * int(e)
            if e < 0:
                if v == 0:
                    raise Pole()
                return pow(inv(v), -e, P)
            return pow(v, e, P)
        return v

    def atom():
        t = take()
        if t == "(":
            v = expr()
            take(")")
            return v
        if t is None:
            raise ValueError("unexpected end")
        if t.isdigit():
            return int(t) % P
        if t in env:
            return env[t] % P
        raise ValueError("unknown token %r" % t)

    import sys
    sys.setrecursionlimit(100000)
    v = expr()
    if pos != len(toks):
        raise ValueError("trailing tokens %r" % toks[pos:pos + 5])
    return v


# ---- Ehrhart series ----------------------------------------------------------------------------

def ehrhart_value(counts, q, d, t):
    """Value mod P at t of sum_n counts[n] t^n, the counts being a quasi-polynomial of degree <= d
    and period q from n = 0 on (counts[0..q(d+1)-1] given)."""
    n = q * (d + 1)
    h = list(counts[:n])
    # multiply by (1-t^q)^(d+1), truncated: exact because deg numerator < q(d+1)
    for _ in range(d + 1):
        for i in range(n - 1, q - 1, -1):
            h[i] -= h[i - q]
    num = 0
    for c in reversed(h):
        num = (num * t + c) % P
    den = pow((1 - pow(t, q, P)) % P, d + 1, P)
    if den == 0:
        raise Pole()
    return num * inv(den) % P


# ---- multivariate generating functions ---------------------------------------------------------

def parse_mgf(text, d):
    """-> [(sign, numerator [(coef, exps)], denominators [exps])]. Raises ValueError."""
    text = re.sub(r"\s+", "", text)
    if text in ("", "0"):
        return []
    terms = []
    depth, cur = 0, ""
    for i, ch in enumerate(text):
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        if ch == "+" and depth == 0 and cur:
            terms.append(cur)
            cur = ""
        else:
            cur += ch
    terms.append(cur)
    out = []
    for t in terms:
        depth = 0
        k = None
        for i, ch in enumerate(t):
            if ch == "(":
                depth += 1
            elif ch == ")":
                depth -= 1
            elif ch == "/" and depth == 0:
                k = i
                break
        num, den = (t, "") if k is None else (t[:k], t[k + 1:])
        nums = _poly(num, d)
        dens = []
        if den:
            if den[0] == "(" and den[-1] == ")":
                den = den[1:-1] if _wrapped(den) else den
            for f in _factors(den):
                m = re.match(r"^\(?1-(.*?)\)?$", f) if not f.endswith(")") else re.match(r"^\(1-(.*)\)$", f)
                if not m:
                    raise ValueError("denominator factor %r" % f)
                c, e = _mono(m.group(1), d)
                if c != 1:
                    raise ValueError("denominator coefficient %r" % f)
                dens.append(e)
        out.append((nums, dens))
    return out


def _wrapped(s):
    depth = 0
    for i, ch in enumerate(s):
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
            if depth == 0 and i != len(s) - 1:
                return False
    return True


def _factors(s, sep="*"):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch == "(":
            depth += 1
        elif ch == ")":
            depth -= 1
        if ch == sep and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    out.append(cur)
    return out


def _poly(s, d):
    """Product of monomials, integers and parenthesised sums of monomials."""
    res = [(1, (0,) * d)]
    for f in _factors(s):
        if f.startswith("(") and f.endswith(")") and not re.match(r"^\(-?\d+\)$", f):
            inner = f[1:-1]
            alt = []
            for g in _factors(inner, "+"):
                alt += _poly(g, d)
        else:
            alt = [_mono(f, d)]
        res = [(a * b, tuple(x + y for x, y in zip(e1, e2))) for a, e1 in res for b, e2 in alt]
    return res


def _mono(s, d):
    c, e = 1, [0] * d
    for f in _factors(s):
        m = re.match(r"^\(?(-?\d+)\)?$", f)
        if m:
            c *= int(m.group(1))
            continue
        m = re.match(r"^(-?)x\[(\d+)\](?:\^\(?(-?\d+)\)?)?$", f)
        if not m:
            raise ValueError("monomial %r" % f)
        if m.group(1):
            c = -c
        i = int(m.group(2))
        if i >= d:
            raise ValueError("variable index %d" % i)
        e[i] += int(m.group(3) or 1)
    return c, tuple(e)


def mono_val(e, x, xi):
    v = 1
    for k, a, b in zip(e, x, xi):
        if k > 0:
            v = v * pow(a, k, P) % P
        elif k < 0:
            v = v * pow(b, -k, P) % P
    return v


def mgf_value(terms, x):
    xi = [inv(a) for a in x]
    s = 0
    for nums, dens in terms:
        n = sum(c * mono_val(e, x, xi) for c, e in nums) % P
        q = 1
        for e in dens:
            v = (1 - mono_val(e, x, xi)) % P
            if v == 0:
                raise Pole()
            q = q * v % P
        s = (s + n * inv(q)) % P
    return s


def points_value(pts, x):
    xi = [inv(a) for a in x]
    return sum(mono_val(p, x, xi) for p in pts) % P


def mgf_laurent(terms, y, lam, lo, hi):
    """Coefficients lo..hi (in s) of the expansion around s=0 of the terms at x_i = y_i s^lam_i.
    Raises Pole when a factor degenerates."""
    yi = [inv(a) for a in y]
    res = [0] * (hi - lo + 1)
    for nums, dens in terms:
        shift, const, facs = 0, 1, []
        for e in dens:
            k = sum(a * b for a, b in zip(e, lam))
            v = mono_val(e, y, yi)
            if k == 0:
                if v == 1:
                    raise Pole()
                const = const * inv(1 - v) % P
            elif k > 0:
                facs.append((k, v))
            else:
                w = inv(v)
                shift -= k
                const = const * (-w) % P
                facs.append((-k, w))
        ser = {}
        for c, e in nums:
            k = sum(a * b for a, b in zip(e, lam)) + shift
            if k <= hi:
                ser[k] = (ser.get(k, 0) + c * const * mono_val(e, y, yi)) % P
        if not ser:
            continue
        base = min(ser)
        arr = [0] * (hi - base + 1)
        for k, c in ser.items():
            arr[k - base] = c
        for k, v in facs:
            for i in range(k, len(arr)):
                arr[i] = (arr[i] + v * arr[i - k]) % P
        for i, c in enumerate(arr):
            if base + i >= lo:
                res[base + i - lo] = (res[base + i - lo] + c) % P
            elif c and base + i < lo:
                # must cancel over the whole sum; tracked through an extra slot
                pass
    return res
