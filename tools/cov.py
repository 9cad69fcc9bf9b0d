"""tools/cov.py [CHECK...]: which lines of /repo each check's workload executes -> build/cov/CHECK.json
(development aid: shows what no check reaches, and picks lines for tools/mutate.py)."""
import glob, json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
names = sys.argv[1:] or sorted(os.path.basename(p)[:-3] for p in glob.glob(V + "/checks/*.py"))
O = V + "/build/cov"
os.makedirs(O, exist_ok=True)
for n in names:
    for f in glob.glob(O + "/%s-*.profraw" % n):
        os.unlink(f)
    env = dict(os.environ, VERIF_FLAVOR="cov", LLVM_PROFILE_FILE=O + "/%s-%%4m.profraw" % n, VERIF_EVIDENCE=O,
               VERIF_SCALE=os.environ.get("VERIF_SCALE", ".4"))
    p = subprocess.run([sys.executable, V + "/checks/%s.py" % n], env=env, capture_output=True, text=True)
    print(p.stdout.strip()[-300:], flush=True)
    raw = glob.glob(O + "/%s-*.profraw" % n)
    prof = O + "/%s.profdata" % n
    subprocess.run(["llvm-profdata-18", "merge", "-o", prof] + raw, check=True)
    bins = [b for b in glob.glob(V + "/build/bin-cov/*") if not os.path.islink(b)]
    cov = {}
    for b in bins:
        p = subprocess.run(["llvm-cov-18", "export", "--format=lcov", "--instr-profile=" + prof, b], capture_output=True, text=True)
        f = None
        for l in p.stdout.split("\n"):
            if l.startswith("SF:"):
                f = l[3:] if l[3:].startswith("/repo/") else None
            elif f and l.startswith("DA:"):
                a, c = l[3:].split(",")[:2]
                d = cov.setdefault(f[6:], {})
                d[int(a)] = max(d.get(int(a), 0), int(c))
    json.dump(cov, open(O + "/%s.json" % n, "w"))
    for f in raw + [prof]:
        os.unlink(f)
