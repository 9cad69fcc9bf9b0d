"""Driving the LattE programs on generated polytopes."""
import random, re
from fractions import Fraction as F
from math import lcm
from . import core, gen, geom as G

FORMS = ["latte", "latte", "nonneg", "cdd", "vrep"]


def rng_of(case):
    return random.Random("%s|%s" % (case.get("seed", core.SEED), case["id"]))


def cases(prop, n, **kw):
    return [dict(id="%s-%d" % (prop, i), seed=core.SEED, **kw) for i in range(n)]


OLD = {"--cdd": "cdd", "--homog": "homog", "--vrep": "vrep", "--compute-vertex-cones=lrs": "lrs"}


def old_style(rng, opts, p=None, lab=None):
    """The same options as keywords of the older versions; `+' (nonnegativity) instead of rows of the LattE file."""
    out = []
    for x in opts:
        m = re.fullmatch(r"--dilation=(\d+)", x)
        out += ["dil", m.group(1)] if m else [OLD.get(x, x)]
    if p is not None and "cdd" not in out and "vrep" not in out and p.verts and all(min(v) >= 0 for v in p.verts):
        rows = [r for r in p.ineqs if not (r[0] == 0 and sorted(r)[-1] == 1 and sum(map(abs, r)) == 1)]
        if rows:
            lab.put("p", gen.hrep_text(gen.Poly(p.kind, p.d, rows, p.eqs), rng))
            out.append("+")
    return out


def put(lab, p, rng, form, name="p"):
    """Writes the polytope in the given format -> command line options for count/integrate."""
    if form == "cdd":
        lab.put(name, p.cdd())
        return ["--cdd"]
    if form == "vrep" and p.fulldim():
        lab.put(name, p.vrep())
        return ["--vrep"]
    lab.put(name, p.latte(rng, "nonneg" if form == "nonneg" else None))
    return []


def given(opt, p):
    """The options, without --redundancy-check=none where some equations are only implied by inequalities: the
    algorithms need the affine hull, so somebody has to look for it."""
    if "--redundancy-check=none" in opt and G.rank([e[1:] for e in p.eqs]) != p.d - p.dim():
        opt = [x for x in opt if x != "--redundancy-check=none"]
    return opt


def light(p):
    """Certainly cheap for every documented algorithm."""
    return p.d <= 3 and "hull" not in p.kind and "thin" not in p.kind


def describe(p):
    return "%s d=%d dim=%d" % (p.kind, p.d, p.dim())


def count_file(res):
    f = res.file("numOfLatticePoints")
    if f is None:
        return None
    m = re.fullmatch(r"\s*(-?\d+)\s*", f)
    return int(m.group(1)) if m else "?" + f[:60]


def decimals(text, v):
    """The decimal expansions integrate prints (a floating-point number each) are those of v."""
    ds = re.findall(r"Decimal:\s*(\S+)", text)
    for x in ds:
        if not re.fullmatch(r"-?\d+(\.\d*)?(e[+-]?\d+)?", x):
            return False
        x = F(x)
        if abs(x - v) > abs(v) * F(1, 10 ** 8):
            return False
    return bool(ds)


def frac(x):
    return str(F(x))


# ---- integrands ------------------------------------------------------------------------------

def mono_text(f):
    return "[%s]\n" % ",".join("[%s,[%s]]" % (frac(c), ",".join(map(str, e))) for e, c in f.items())


def lf_text(l):
    return "[%s]\n" % ",".join("[%s,[%d,[%s]]]" % (frac(c), k, ",".join(map(str, v))) for c, k, v in l)


def plf_text(l):
    return "[%s]\n" % ",".join("[%s,[%s]]" % (frac(c), ",".join("[%d,[%s]]" % (k, ",".join(map(str, v))) for k, v in fs))
                               for c, fs in l)


def lf_poly(l, d):
    f = {}
    for c, k, v in l:
        f = G.padd(f, {e: F(c) * x for e, x in G.ppow(G.plinear(v), k, d).items()})
    return f


def plf_poly(l, d):
    f = {}
    for c, fs in l:
        t = {(0,) * d: F(c)}
        for k, v in fs:
            t = G.pmul(t, G.ppow(G.plinear(v), k, d))
        f = G.padd(f, t)
    return f


def rand_coef(r, big=False):
    c = F(r.randint(-9, 9) or 1, r.choice([1, 1, 2, 3, 7]))
    if big and r.random() < .5:
        c *= r.choice([10 ** 12 + 39, 2 ** 64 + 13, F(1, 2 ** 35 - 31), 123456789012345678901234567890])
    return c


def rand_poly(r, d, deg=5, terms=4, big=False):
    out = {}
    for _ in range(r.randint(1, terms)):
        e = [0] * d
        for _ in range(r.randint(0, deg)):
            e[r.randrange(d)] += 1
        out[tuple(e)] = rand_coef(r, big)
    return out


def rand_lf(r, d, deg=5, terms=3, big=False):
    return [(rand_coef(r, big), r.randint(0, deg), [r.randint(-3, 3) for _ in range(d)])
            for _ in range(r.randint(1, terms))]


def rand_plf(r, d, deg=3, terms=3, big=False):
    return [(rand_coef(r, big), [(r.randint(0, deg), [r.randint(-3, 3) for _ in range(d)]) for _ in range(r.randint(1, 3))])
            for _ in range(r.randint(1, terms))]
