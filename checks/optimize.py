import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D


def plane(r):
    """Simplex in the hyperplane sum x_i = s (or below it) with many different denominators: LP solutions are
    not exact in floating point."""
    d = r.choice([2, 3, 3])
    ine = []
    for i in range(d):
        e = [0] * d
        e[i] = r.choice([3, 7, 11, 13, 49, 57, 61, 97, 101, 103, 107])
        ine.append([r.randint(-e[i], 2 * e[i])] + e)
    row = [r.randint(2, 6)] + [-1] * d
    p = gen.Poly("plane", d, ine, [row]) if r.random() < .6 else gen.Poly("plane", d, ine + [row])
    return p, [r.choice([1, -1, 3, -5, 7])] * d


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    prog = r.choice(["latte-maximize", "latte-minimize"])
    bbs = r.random() < .5
    want = not bbs and r.random() < .35
    for _ in range(400):
        p = gen.wide_poly(r) if not want and r.random() < .2 else gen.any_poly(r, dmax=3 if want else 4)
        if p.dim() < 1 or p.cost() > 3000 or p.d > 6 and not bbs or "multiknap" in p.kind and p.d > 4:
            continue
        hard = "thin" in p.kind or "rathull" in p.kind
        # digging: thin polytopes make it really dig, but it may then take long
        if not bbs and (p.d > 3 and (hard or "hull" in p.kind) or hard and not p.points() or want and (not hard or p.d < 2)):
            continue
        break
    d = p.d
    m = r.choice([1, 9, 9, 9, 1000, 10 ** 10])
    if bbs and p.d > 2:
        m = min(m, 1000)            # the search takes log2(range) counts
    cost = [r.randint(-m, m) for _ in range(d)]
    if "wide" in p.kind and p.d > 4:
        cost = [max(-9, min(9, x)) for x in cost]
    if r.random() < .06:
        cost = [0] * d
    elif r.random() < .3:
        # parallel to a facet or to an equation: the optimum is attained at non-integral vertices as well
        row = r.choice(p.eqs + p.ineqs)[1:]
        k = r.choice([1, 1, -1, -1, 3, -7])
        if max(map(abs, row)) <= 1000:
            cost = [k * x for x in row]
            o.obs("costs parallel to a facet")
    if r.random() < .1:
        hard = False
        while True:
            p, cost = plane(r)
            if p.dim() >= 1:
                break
        d = p.d
        if not bbs:
            bbs = p.dim() < d
    pts = p.points()
    form = r.choice(["latte", "nonneg"])
    D.put(lab, p, r, form)
    lab.put("p.cost", "1 %d\n%s\n" % (d, " ".join(map(str, cost))))
    single = not bbs and bool(pts) and r.random() < .25
    mode = ["bbs"] if bbs else ["single"] if single else []
    res = lab.run(prog, *mode, "p", timeout=5 if single or hard and not bbs else 20, retry=not (single or hard and not bbs))
    o.see("families", p.kind.split("+")[0])
    o.see("dims", (p.d, p.dim()))
    o.obs(prog + (" bbs" if bbs else " digging"))
    if "Digging [" in res.err:
        o.obs("runs which dig below the leading terms")
    if single and res.rc == 1 and "without a single cone method" in res.err:
        o.obs("single cone method declined")
        return o
    if not o.ended(res, light=D.light(p) and bbs):
        return o
    what = "%s %sp, cost %s (%s)" % (prog, "".join(m + " " for m in mode), cost, D.describe(p))
    text = res.out + res.err
    files = res.files_text()
    val = re.findall(r"The optimal value(?: is)?:\s*(-?\d+)", text)
    if not pts:
        o.obs("no lattice points")
        num = re.findall(r"(?:The number of optimal solutions: *|\n)(-?\d+)\nTime:", text)
        if bbs and num and num[-1] != "0" or not bbs and val:
            o.viol("%s: reports an optimum %s %s, there is no lattice point\n%s" % (what, val, num, files))
        return o
    vals = [sum(a * b for a, b in zip(cost, x)) for x in pts]
    exp = max(vals) if prog == "latte-maximize" else min(vals)
    if len(pts) == 1 and not val and re.search(r"number of lattice points is\D*1\b", text):
        o.obs("single points")
        return o
    if not val or int(val[-1]) != exp:
        o.viol("%s: optimal value %s, the optimum over the %d lattice points is %d\n%s" % (what, val, len(pts), exp, files))
        return o
    if bbs:
        num = re.findall(r"(?:The number of optimal solutions: *|\n)(-?\d+)\nTime:", text)
        if not num or int(num[-1]) != vals.count(exp):
            o.viol("%s: number of optimal solutions %s, it is %d\n%s" % (what, num, vals.count(exp), files))
    else:
        num = re.findall(r"There (?:is|are) (\S+) optimal solution", text)
        if num and not single:
            o.obs("digging: number of optimal solutions")
            if num[-1].replace("one", "1") != str(vals.count(exp)):
                o.viol("%s: number of optimal solutions %s, it is %d\n%s" % (what, num, vals.count(exp), files))
        sol = re.findall(r"An optimal solution for .* is:\s*\[([^\]]*)\]", text)
        x = tuple(map(int, sol[-1].split())) if sol else None
        if x is None or x not in pts or sum(a * b for a, b in zip(cost, x)) != exp:
            o.viol("%s: solution %s is not a lattice point of the polytope with the optimal value %d\n%s" % (what, x, exp, files))
        # the linear relaxation, printed with 10 digits
        best = max if prog == "latte-maximize" else min
        lps = [sum(a * b for a, b in zip(cost, v)) for v in p.verts]
        lp = best(lps)
        for name, rx, e in (("LP optimal value", r"The LP optimal value is: (\S+)", lp), ("gap", r"The gap is: (\S+)", abs(lp - exp))):
            g = re.findall(rx, text)
            if g:
                o.obs("printed: " + name)
                if not re.fullmatch(r"-?\d+(\.\d+)?(e[+-]?\d+)?", g[-1]) or abs(float(g[-1]) - float(e)) > 1e-8 * abs(float(e)) + 1e-12 * (1 + abs(float(lp))):
                    o.viol("%s: %s %s, it is %s\n%s" % (what, name, g[-1], e, files))
        g = re.findall(r"A vertex which we found via LP is: \[([^\]]*)\]", text)
        if g:
            x = list(map(float, g[-1].split()))
            near = [v for v, l in zip(p.verts, lps) if l == lp and len(x) == d and all(abs(a - float(b)) < 1e-8 * (1 + abs(float(b))) for a, b in zip(x, v))]
            o.obs("printed: LP vertex")
            if not near:
                o.viol("%s: %s is no vertex with the LP optimum %s\n%s" % (what, x, lp, files))
    if len(set(vals)) > 1:
        o.nontrivial()
    o.sample("%s: %d" % (what, exp))
    return o


core.drive("C10", "latte-maximize and latte-minimize find the integer optimum",
           "seeded random polytopes of dimension 1-4 in LattE H-representation with cost vectors up to 10^10, digging and "
           "binary search, against enumeration of the lattice points (value, feasibility of the solution, number of optimal "
           "solutions). Non-trivial: the cost function is not constant on the lattice points",
           ["latte-maximize", "latte-minimize", "count"], case,
           lambda ck: D.cases(ck.prop, ck.n(1400, 14000)), min_nontrivial=250)
