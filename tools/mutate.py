"""tools/mutate.py FILE_REGEX N [SEED]: applies N random one-line mutations to lines the checks execute and runs the checks
that execute the line; prints the survivors (development aid, works in private copies of /repo)."""
import json, glob, os, random, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rx, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3] if len(sys.argv) > 3 else "1"
COST = dict(line.split() for line in """volume 8
generating-function 8
knapsack 9
dilation 10
format-conversion 11
ehrhart-polynomial 11
triangulation 12
cone-pipeline 13
hilbert-basis 14
invalid-input 8
top-ehrhart 15
count-large 17
integrate 22
count-exact 23
optimize 24
ehrhart-series 34
count-algorithms 42""".split("\n"))
cov = {os.path.basename(p)[:-5]: json.load(open(p)) for p in glob.glob(V + "/build/cov/*.json") if os.path.basename(p)[0].islower()}
lines = {}
for c, d in cov.items():
    for f, l in d.items():
        if re.search(rx, f):
            for k, v in l.items():
                if v:
                    lines.setdefault((f, int(k)), []).append((v, c))
r = random.Random(seed)


def mutate(s):
    opts = []
    code = re.sub(r'"[^"]*"', lambda m: "\0" * len(m.group(0)), s.split("//")[0])
    if re.search(r"cerr|cout|assert|#|OUT *<<|\*\*|^\s*\*|const |printf|timer|time_|clock|sc\d?=|delete|extern|template|class |operator|delete|free|Free", code):
        return None
    for a, b in (("<=", "<"), (">=", ">"), ("==", "!="), ("!=", "=="), ("&&", "||"), ("||", "&&"), ("++", "--"), ("+=", "-="), ("-=", "+="), ("*=", "/=")):
        for m in re.finditer(re.escape(a), code):
            opts.append((m.start(), m.end(), b))
    for m in re.finditer(r"(?<![<\->=])<(?![<=])(?=[^>]*$)|(?<=[\w)\] ])>(?![>=])(?=[^<]*$)", code):
        opts.append((m.start(), m.end(), code[m.start()] + "="))
    for m in re.finditer(r"(?<=[\w)\]]) ?([+\-*]) ?(?=[\w(])", code):
        t = {"+": "-", "-": "+", "*": "+"}[m.group(1)]
        if m.group(1) != "*" or "=" in code[:m.start()]:
            opts.append((m.start(1), m.end(1), t))
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", code):
        v = int(m.group(1))
        opts.append((m.start(), m.end(), str(v + 1)))
        if v:
            opts.append((m.start(), m.end(), str(v - 1)))
    if re.match(r"^\s*[\w>.\-\[\]\(\)\*]+\s*([+\-*/]?=[^=]|\().*;\s*$", code) and not re.match(r"^\s*(return|int|long|ZZ|vec_ZZ|mat_ZZ|for|if|while|else|switch|using|struct|char|bool)\b", code):
        opts += [(len(s) - len(s.lstrip()), len(s), ";")] * 2
    for m in re.finditer(r"\bif ?\(", code):
        opts.append((m.end(), m.end(), "!"))
    for m in re.finditer(r"\b(true|false)\b", code):
        opts.append((m.start(), m.end(), {"true": "false", "false": "true"}[m.group(1)]))
    if not opts:
        return None
    a, b, t = r.choice(opts)
    return s[:a] + t + s[b:]


S = "/tmp/sb/mut-%s" % re.sub(r"\W", "", rx + seed)
os.makedirs("/tmp/sb", exist_ok=True)
subprocess.run("rm -rf %s %s.build; cp -a /repo %s; cp -al %s/build %s.build; rm -rf %s.build/bin-* %s.build/cov" % (S, S, S, V, S, S, S), shell=True)
keys = sorted(lines)
done = killed = 0
print(len(keys), "lines", flush=True)
while done < n and keys:
    f, k = r.choice(keys)
    src = open("%s/%s" % (S, f), errors="replace").read().split("\n")
    if k > len(src):
        continue
    m = mutate(src[k - 1])
    if m is None or m == src[k - 1]:
        keys.remove((f, k))
        continue
    orig = open("%s/%s" % (S, f), "rb").read()
    src2 = list(src)
    src2[k - 1] = m
    open("%s/%s" % (S, f), "w").write("\n".join(src2))
    cs = sorted({c for v, c in lines[f, k]}, key=lambda c: int(COST.get(c, 20)))
    script = "mount --bind %s /repo; cd %s; for c in %s; do VERIF_SEED=1 VERIF_EVIDENCE=/tmp/sb/ev VERIF_BUILD=%s.build VERIF_SCALE=%s timeout 300 python3 checks/$c.py > %s.out 2>&1; rc=$?; echo $c $rc; [ $rc = 0 ] || break; done" % (
        S, V, " ".join(cs), S, os.environ.get("VERIF_SCALE", ".6"), S)
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", script], capture_output=True, text=True)
    last = p.stdout.strip().split("\n")[-1].split()
    if not last or len(last) < 2 or last[1] == "2":
        pass
    else:
        done += 1
        if last[1] == "0":
            print("SURVIVED %s:%d [%s]\n-%s\n+%s" % (f, k, " ".join(cs), src[k - 1], m), flush=True)
        else:
            killed += 1
            if last[1] != "1":
                print("(rc %s by %s) %s:%d +%s" % (last[1], last[0], f, k, m.strip()), flush=True)
    open("%s/%s" % (S, f), "wb").write(orig)
print("%d mutants, %d killed" % (done, killed))
shutil.rmtree(S, ignore_errors=True)
shutil.rmtree(S + ".build", ignore_errors=True)
