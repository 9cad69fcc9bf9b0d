import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import core, gen, geom as G, drive as D

JUNK = ["x", "1.5", "1e3", "0x10", "#", "--1", "3y", "'", "1,"]
IDX = ["0", "-1", "-2147483648", "2147483648", "99999999999999999999"]
ALL = "missing empty truncated junk rowsmore rowsless colsmore neghdr junkhdr kwindex kwcount kwname unbounded".split()
# the older readers ignore whatever follows the matrix and is no keyword
OLD = [k for k in ALL if k not in ("rowsless", "kwname")]
# program, arguments, how the file is given, corruptions that make the input invalid for it
H = [("count", [], ALL), ("count", ["--homog"], ALL), ("count", ["--ehrhart-polynomial"], ALL), ("count", ["--dilation=2"], ALL),
     ("count", ["--irrational-primal"], ALL), ("count", ["--ehrhart-series"], ALL), ("count", ["--redundancy-check=full-cddlib"], ALL),
     ("integrate", ["--valuation=volume"], ALL), ("integrate", ["--valuation=integrate", "--monomials=f"], ALL),
     ("latte-maximize", [], OLD), ("latte-minimize", [], OLD), ("ehrhart", [], [k for k in OLD if k != "unbounded"]),
     ("latte2ine", None, [k for k in ALL if k not in ("unbounded", "missing")]),
     ("latte2ext", None, [k for k in ALL if k not in ("unbounded", "missing")])]
# cddlib's reader takes junk for numbers and indices out of range as they come: not LattE's to refuse
C = ["missing", "empty", "truncated", "rowsmore", "colsmore", "junkhdr", "nobegin", "type", "unbounded"]
V = ["missing", "empty", "truncated", "junk", "rowsmore", "colsmore", "neghdr", "junkhdr", "lead0"]


def body(p):
    return [list(map(str, r)) for r in list(p.eqs) + list(p.ineqs)]


def unbounded(r, p):
    """Rows of p which a random direction satisfies: an unbounded polyhedron with the lattice points of p."""
    while True:
        u = [r.randint(-2, 2) for _ in range(p.d)]
        if not any(u):
            continue
        dot = lambda row: sum(a * b for a, b in zip(row[1:], u))
        ine = [x for x in p.ineqs if dot(x) >= 0]
        eqs = [x for x in p.eqs if dot(x) == 0]
        return (gen.Poly("unbounded", p.d, ine, eqs) if ine or eqs else
                gen.Poly("unbounded", p.d, [[r.randint(0, 3)] + [int(i == 0) for i in range(p.d)]]))


def corrupt_matrix(r, rows, n, kind, last=True):
    """-> header words and rows of a matrix file, invalid in the way asked for."""
    h = [str(len(rows)), str(n)]
    rows = [list(x) for x in rows]
    if kind == "truncated":
        cut = r.randrange(len(rows) * n)
        rows = rows[:cut // n] + [rows[cut // n][:cut % n]]
    elif kind == "junk":
        # where nothing may follow the matrix, the rest of the last number is not looked at
        i = r.randrange(len(rows) * n - (0 if last else 1))
        rows[i // n][i % n] = r.choice(JUNK)
    elif kind == "rowsmore":
        h[0] = str(len(rows) + r.choice([1, 1, 2, 100]))
    elif kind == "rowsless":
        h[0] = str(len(rows) - 1)
    elif kind == "colsmore":
        h[1] = str(n + r.choice([1, 1, 2, 50]))
    elif kind == "neghdr":
        i = r.randrange(2)
        h[i] = r.choice(["-" + h[i], "-1"])
    elif kind == "junkhdr":
        h[r.randrange(2)] = r.choice(["x", "begin", "#"])
    return h, rows


def latte(r, p, kind, last):
    rows, n = body(p), p.d + 1
    if kind == "rowsless" and len(rows) < 2:
        kind = "rowsmore"
    h, rows2 = corrupt_matrix(r, rows, n, kind, last)
    t = " ".join(h) + "\n" + "\n".join(" ".join(x) for x in rows2) + "\n"
    ne = len(p.eqs)
    kws = []
    if ne and kind not in ("truncated", "rowsmore", "colsmore"):
        kws.append("linearity %d %s" % (ne, " ".join(str(i + 1) for i in range(ne))))
    m = len(rows)
    if kind == "kwindex":
        kw, top = r.choice([("linearity", m), ("nonnegative", n - 1)])
        l = [r.randint(1, top) for _ in range(r.randint(0, 2))]
        l = list(dict.fromkeys(l))
        l.insert(r.randint(0, len(l)), r.choice(["0", str(top + 1), r.choice(IDX + [str(top + 2), str(top + 40)])]))
        kws = [k for k in kws if kw not in k] + ["%s %d %s" % (kw, len(l), " ".join(map(str, l)))]
    elif kind == "kwcount":
        kw, top = r.choice([("linearity", m), ("nonnegative", n - 1)])
        l = list(range(1, r.randint(1, top) + 1))
        cnt = r.choice([len(l) + 1, len(l) + 7, -1, -len(l)])
        kws = ["%s %d %s" % (kw, cnt, " ".join(map(str, l)))]
    elif kind == "kwname":
        kws.insert(r.randint(0, len(kws)), r.choice(["linearty 1 1", "equations 1 1", "foo", "nonneg 1 1", "end", "integer 1 1", "0 0 0"]))
    return t + "".join(k + "\n" for k in kws)


def cdd(r, p, kind):
    rows, n = body(p), p.d + 1
    h, rows2 = corrupt_matrix(r, rows, n, kind)
    ne = len(p.eqs)
    lin = [i + 1 for i in range(ne)]
    if kind == "kwindex":
        lin = lin + [r.choice(IDX + [str(len(rows) + 1), str(len(rows) + 30)])]
    t = "H-representation\n"
    if lin:
        t += "linearity %d %s\n" % (len(lin), " ".join(map(str, lin)))
    if kind != "nobegin":
        t += "begin\n"
    t += " ".join(h) + " " + ("foo" if kind == "type" else "integer") + "\n"
    return t + "\n".join(" ".join(x) for x in rows2) + "\nend\n"


def vrep(r, p, kind):
    rows = [l.split() for l in p.vrep().split("\n")[1:] if l]
    if kind == "lead0":
        rows[r.randrange(len(rows))][0] = "0"
    h, rows2 = corrupt_matrix(r, rows, p.d + 1, kind, False)
    return " ".join(h) + "\n" + "\n".join(" ".join(x) for x in rows2) + "\n"


def cost(r, d, kind):
    c = [str(r.randint(-9, 9)) for _ in range(d)]
    if kind == "short":
        return "1 %d\n%s\n" % (d, " ".join(c[:-1]))
    if kind == "hdr":
        return "1 %s\n%s\n" % (r.choice([d + 1, d - 1, -d, "x"]) if d > 1 else -1, " ".join(c))
    if kind == "junk":
        c[r.randrange(d)] = r.choice(["x", "#", "'"])
        return "1 %d\n%s\n" % (d, " ".join(c))
    return ""                       # empty


def knap(r, kind):
    N = r.randint(2, 5)
    a = [r.randint(1, 12) for _ in range(N)]
    a[0] = 1
    n = str(N)
    if kind == "short":
        a = a[:-1]
    elif kind == "gcd":
        g = r.randint(2, 5)
        a = [g * x for x in a]
    elif kind == "zero":
        a[r.randrange(N)] = 0
    elif kind == "neg":
        a[r.randrange(N)] *= -1
    elif kind == "junk":
        a[r.randrange(N)] = r.choice(["x", "#", "'"])
    elif kind == "hdr":
        n = r.choice(["-%d" % N, "0", "x", "-1"])
    elif kind == "empty":
        return ""
    return "%s %s\n" % (n, " ".join(map(str, a)))


def cones(r, kind):
    d = r.randint(2, 3)
    k = r.randint(d, d + 2)
    rows = [["1"] + [str(r.randint(0, 3)) for _ in range(d - 1)] for _ in range(k)]
    h, rows = corrupt_matrix(r, rows, d, kind)
    return "" if kind == "empty" else " ".join(h) + "\n" + "\n".join(" ".join(x) for x in rows) + "\n"


OPTS = [("count", o) for o in ("--foo", "-x", "--dualization=foo", "--triangulation=foo", "--compute-vertex-cones=", "--smith-form=x",
                               "--redundancy-check=all", "--ehrhart-taylor=-1", "--ehrhart-taylor=0", "stray")] + [("ehrhart", o) for o in ("0", "-3")] + \
       [("integrate", o) for o in ("--foo", "--valuation=foo", "--valuation=", "--triangulation=foo", "--dualization=foo")]


def case(lab, c, labs):
    o = core.Out()
    r = D.rng_of(c)
    mode = r.choices(["H", "cdd", "vrep", "cost", "knap", "opt", "conv", "cones"], [12, 4, 4, 2, 2, 1, 1, 2])[0]
    while True:
        p = gen.any_poly(r, dmax=3)
        if p.dim() >= 1 and p.cost() < 300 and "thin" not in p.kind and "rathull" not in p.kind and p.points():
            break
    lab.put("f", "[[1,[%s]]]\n" % ",".join(["1"] * p.d))
    lab.put("p.cost", "1 %d\n%s\n" % (p.d, " ".join(["1"] * p.d)))
    inp, out = "", None
    if c.get("finding"):            # the known finding, on a fixed input
        prog, argv, kind, text = "count", ["--homog", "p"], "unbounded", "2 3\n0 1 0\n0 0 1\n"
        lab.put("p", text)
    elif mode == "H":
        prog, args, kinds = r.choices(H, [1] * (len(H) - 2) + [3, 3])[0]
        kind = r.choice(kinds + ["kwindex"] * 2)
        if prog == "integrate" and not p.fulldim():
            p = gen.box(r, 2)
            lab.put("f", "[[1,[1,1]]]\n")
        q = unbounded(r, p) if kind == "unbounded" else p
        text = "" if kind == "empty" else q.latte() if kind == "unbounded" else latte(r, q, kind, prog in ("count", "integrate"))
        if args is None:
            argv, inp = [], text
        else:
            argv = args + ["p"]
            if kind != "missing":
                lab.put("p", text)
    elif mode in ("cdd", "vrep"):
        prog, args = r.choice([("count", []), ("integrate", ["--valuation=volume"]), ("count", ["--irrational-primal"])])
        kind = r.choice(C if mode == "cdd" else V)
        if not p.fulldim():
            p = gen.hull(r, 2)
        q = unbounded(r, p) if kind == "unbounded" else p
        text = "" if kind == "empty" else q.cdd() if kind == "unbounded" else (cdd if mode == "cdd" else vrep)(r, q, kind)
        if kind != "missing":
            lab.put("p", text)
        argv = args + ["--" + mode, "p"]
    elif mode == "cost":
        prog, argv = r.choice(["latte-maximize", "latte-minimize"]), r.choice([["p"], ["bbs", "p"]])
        kind = r.choice(["missing", "empty", "short", "hdr", "junk"])
        lab.put("p", p.latte(r))
        text = cost(r, p.d, kind)
        if kind == "missing":
            os.unlink(os.path.join(lab.dir, "p.cost"))
        else:
            lab.put("p.cost", text)
        kind = "cost " + kind
    elif mode == "knap":
        prog = "top-ehrhart-knapsack"
        kind = r.choice(["missing", "empty", "short", "gcd", "zero", "neg", "junk", "hdr", "k"])
        text = knap(r, kind)
        k = str(r.choice([0, -1, 50, 7])) if kind == "k" else "1"
        argv, out = ["-f", "k", "-o", "out", r.choice(["-k", "--all-k"]), k], "out"
        if kind != "missing":
            lab.put("k", text)
        kind = "knapsack " + kind
    elif mode == "opt":
        prog, x = r.choice(OPTS)
        kind = "option"
        text = p.latte(r) if prog != "integrate" else gen.box(r, 2).latte()
        lab.put("p", text)
        argv = [x, "p"] if x.startswith("--val") or prog != "integrate" else ["--valuation=volume", x, "p"]
    elif mode == "conv":
        prog, argv, out = "ConvertCDDineToLatte", ["p", "q"], "q"
        kind = r.choice([k for k in C if k not in ("type", "unbounded")])
        text = "" if kind == "empty" else cdd(r, p, kind)
        if kind != "missing":
            lab.put("p", text)
    else:
        prog, argv = r.choice([("triangulate", ["k.rays"]), ("hilbert-from-rays", ["k.rays"])])
        kind = r.choice(["missing", "empty", "truncated", "junk", "rowsmore", "colsmore", "neghdr", "junkhdr"])
        text = cones(r, kind)
        if kind != "missing":
            lab.put("k.rays", text)
    res = lab.run(prog, *argv, stdin=inp, timeout=20)
    what = "%s, invalid input (%s)" % (" ".join([prog] + argv), kind)
    o.see("programs", prog)
    o.see("kinds of invalid input", mode + ": " + kind)
    o.obs("executions")
    if res.timeout:
        o.viol("%s: no end within %d s\n%s" % (what, res.limit, text[:800]), sig="hang:%s:%s" % (prog, kind), hang=True)
        return o
    cr = res.crash()
    lattexc = res.rc == -6 and re.search(r"terminate called after throwing an instance of 'LattException'", res.err)
    # An assertion of the program or an error NTL itself raises is a refusal (ugly, but deliberate)
    deliberate = res.rc == -6 and re.search(r"Assertion `|bad conversion from char|can't change this vector's length|negative length", res.err) \
        and "libstdc++" not in res.err
    if cr and not lattexc and not deliberate:
        o.viol("%s: abnormal end: %s at %s\n%s" % (what, cr, res.site(), text[:1500]), sig="crash:%s:%s" % (prog, res.site() or cr[:60]))
        return o
    ans = D.count_file(res)
    shown = re.findall(r"(?:Answer|optimal value(?: is)?): *(-?\d\S*)", res.out + res.err)
    if res.rc == 0:
        o.viol("%s: exit status 0, answer %s %s\n%s" % (what, ans, shown, text[:1500]),
               sig="unbounded-homogenized" if kind == "unbounded" and prog == "count" and argv[0] in ("--homog", "--ehrhart-series") else None)
    elif ans is not None and prog in ("count",):
        o.viol("%s: refused (%d) but left the answer %s in numOfLatticePoints\n%s" % (what, res.rc, ans, text[:1500]))
    o.obs("refused" if res.rc > 0 else "aborted")
    o.nontrivial()
    o.sample("%s: %d, %s" % (what, res.rc, (res.err.strip().split("\n") or [""])[-1][:80]))
    return o


core.drive("C16", "invalid input is refused",
           "random valid instances of every input format, made invalid by one seeded corruption (missing, empty or truncated "
           "file, junk word, wrong header, keyword index or count out of range, unknown keyword, unbounded polyhedron, wrong cost "
           "or knapsack file, unknown option); each must end with a nonzero status, without an answer and without a memory error. "
           "Every case is non-trivial",
           ["count", "integrate", "latte-maximize", "latte-minimize", "ehrhart", "latte2ine", "latte2ext", "top-ehrhart-knapsack",
            "ConvertCDDineToLatte", "triangulate", "normalize/hilbert-from-rays"], case,
           
           lambda ck: [dict(id="C16-finding", finding=1)] + D.cases(ck.prop, ck.n(4000, 30000)), min_nontrivial=2000)
