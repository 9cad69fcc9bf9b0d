"""Builds instrumented LattE binaries from /repo's working tree, outside /repo.

Every object file is addressed by the hash of (flags, all headers, its source),
so a stale object can never be linked and repeated checks in one sandbox share work.
"""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CFG = os.path.join(VERIF, "buildcfg")

COMMON = ["-w", "-DHAVE_CONFIG_H", "-D__STDC_LIMIT_MACROS", "-D_4ti2_GMP_", "-DLATTE_VERIF_HOOKS",
          "-DINSTALLDIR=\"/usr/local/bin\""]
FLAVORS = {
    # address + undefined behaviour + libstdc++ and NTL container bounds, every report fatal
    "asan": dict(cxx="clang++", cc="clang",
                 flags=["-O1", "-gline-tables-only", "-fno-omit-frame-pointer",
                        "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern",
                        "-D_GLIBCXX_ASSERTIONS", "-DNTL_RANGE_CHECK"],
                 link=["-fsanitize=address,undefined"]),
    # for valgrind memcheck (uninitialised values)
    "plain": dict(cxx="g++", cc="gcc", flags=["-O1", "-g1", "-fno-omit-frame-pointer"], link=[]),
    # reach measurement only (not used by any verdict)
    "cov": dict(cxx="clang++", cc="clang",
                flags=["-O1", "-fprofile-instr-generate", "-fcoverage-mapping"],
                link=["-fprofile-instr-generate"]),
}
# Makefile.am conditionals of the configuration under test
COND = dict(HAVE_TOPCOM_LIB=False, HAVE_TOPCOM_BIN=True, HAVE_CDDLIB=True, HAVE_LIDIA=False,
            HAVE_FORTYTWO_LIB=True, HAVE_EXPERIMENTS=True, HAVE_CPLEX=False, HAVE_DATABASE=True,
            RELOCATABLE_VIA_LD=False)
LIBS = ["-lntl", "-lcddgmp", "-l4ti2gmp", "-lzsolve", "-lgmpxx", "-lgmp"]


class BuildError(Exception):
    pass


def parse_makefile(path):
    """-> {variable: [words]} with conditionals resolved."""
    text = open(path).read().replace("\\\n", " ")
    out, stack = {}, []
    for line in text.split("\n"):
        line = line.split("#")[0].rstrip()
        s = line.strip()
        m = re.match(r"if\s+(!?)(\w+)$", s)
        if m:
            v = COND.get(m.group(2), False)
            stack.append((not v) if m.group(1) else v)
        elif s == "else" or s.startswith("else "):
            stack[-1] = not stack[-1]
        elif s == "endif" or s.startswith("endif "):
            stack.pop()
        elif all(stack):
            m = re.match(r"(\w+)\s*(\+?=)\s*(.*)$", s)
            if m:
                words = m.group(3).split()
                if m.group(2) == "=":
                    out[m.group(1)] = words
                else:
                    out.setdefault(m.group(1), []).extend(words)
    return out


def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


_hdr = {}


def headers_hash():
    if REPO not in _hdr:
        parts = []
        files = []
        for root in (os.path.join(REPO, "code"), CFG):
            for d, dn, fn in os.walk(root):
                dn.sort()
                for f in sorted(fn):
                    if re.search(r"\.(h|hpp|hin)$", f):
                        files.append(os.path.join(d, f))
        # sources that other sources #include
        for f in files:
            parts.append(os.path.basename(f))
            parts.append(open(f, "rb").read())
        _hdr[REPO] = _hash(*parts)
    return _hdr[REPO]


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])


def compile_obj(flavor, src, extra=()):
    f = FLAVORS[flavor]
    isc = src.endswith(".c")
    inc = ["-I" + CFG, "-I" + os.path.join(CFG, "latte"), "-I" + os.path.join(REPO, "code"),
           "-I" + os.path.join(REPO, "code/latte"),
           "-I/usr/include/4ti2", "-I/usr/include/x86_64-linux-gnu/4ti2"]
    if isc:
        inc.append("-I" + os.path.join(REPO, "code/gnulib"))
    flags = f["flags"] + COMMON + inc + list(extra)
    content = open(src, "rb").read()
    # a .cpp that includes another .cpp: hash that one too
    for m in re.findall(rb'#\s*include\s+"([^"]+\.cpp)"', content):
        q = os.path.join(os.path.dirname(src), m.decode())
        if os.path.exists(q):
            content += open(q, "rb").read()
    key = _hash(flavor, " ".join(flags), headers_hash(), src, content)
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        run([f["cc" if isc else "cxx"]] + flags + ["-c", src, "-o", tmp])
        os.rename(tmp, obj)
    return obj


NORMALIZ = "normalize/"


def program_sources(mk, name):
    var = re.sub(r"[^A-Za-z0-9]", "_", name)
    return [s for s in mk.get(var + "_SOURCES", []) + mk.get("nodist_" + var + "_SOURCES", []) if s.endswith(".cpp")]


def build(flavor, programs=(), harnesses=(), quiet=False):
    """programs: names of /repo programs; harnesses: (name, [source paths in /verif]).
    -> directory holding the executables."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        L = os.path.join(REPO, "code/latte")
        mk = parse_makefile(os.path.join(L, "Makefile.am"))
        lib = [s for s in mk["liblatte_la_SOURCES"] + mk["nodist_liblatte_la_SOURCES"] if s.endswith(".cpp")]
        norm = None
        if any(p in ("normalize_commalg",) for p in programs):
            pass
        libsrc = [os.path.join(L, s) for s in lib] + [os.path.join(REPO, "code/gnulib/progname.c")]
        progs = {}
        for p in programs:
            if p.startswith(NORMALIZ):
                d = os.path.join(L, "normalize")
                nmk = parse_makefile(os.path.join(d, "Makefile.am"))
                ss = [os.path.join(d, s) for s in program_sources(nmk, p[len(NORMALIZ):])]
                ls = [os.path.join(d, s) for v in nmk for s in nmk[v]
                      if v.startswith("lib") and v.endswith("_SOURCES") and s.endswith(".cpp")]
                progs[p[len(NORMALIZ):]] = ss + ls
            else:
                ss = program_sources(mk, p)
                if not ss:
                    raise BuildError("no sources for program " + p)
                progs[p] = [os.path.join(L, s) for s in ss]
        for n, ss in harnesses:
            progs[n] = list(ss)
        allsrc = list(dict.fromkeys(libsrc + [s for ss in progs.values() for s in ss]))
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = dict(zip(allsrc, ex.map(lambda s: compile_obj(flavor, s), allsrc)))
        libobjs = [objs[s] for s in libsrc]
        shim = compile_obj(flavor, os.path.join(CFG, "rand_shim.c"))
        arc = os.path.join(BUILD, "obj", _hash("archive", *sorted(libobjs)) + ".a")
        if not os.path.exists(arc):
            tmp = arc + ".tmp"
            if os.path.exists(tmp):
                os.unlink(tmp)
            run(["ar", "rcs", tmp] + libobjs)
            os.rename(tmp, arc)
        f = FLAVORS[flavor]
        bindir = os.path.join(BUILD, "bin-" + flavor)
        os.makedirs(bindir, exist_ok=True)

        def link(item):
            n, ss = item
            os_ = [objs[s] for s in ss]
            os_.append(shim)
            key = _hash(n, arc, *os_)
            out = os.path.join(bindir, n + "-" + key[:16])
            if not os.path.exists(out):
                tmp = out + ".tmp"
                run([f["cxx"]] + f["link"] + os_ + [arc] + LIBS + ["-lsqlite3", "-o", tmp])
                for old in glob.glob(os.path.join(bindir, n + "-" + "?" * 16)):
                    os.unlink(old)
                os.rename(tmp, out)
            lnk = os.path.join(bindir, n)
            if os.path.lexists(lnk):
                os.unlink(lnk)
            os.symlink(os.path.basename(out), lnk)
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            list(ex.map(link, progs.items()))
        # bound the object cache
        olds = sorted(glob.glob(os.path.join(BUILD, "obj", "*")), key=os.path.getmtime)
        if len(olds) > 1500:
            for o in olds[:500]:
                if o not in (arc,) and o not in objs.values():
                    os.unlink(o)
    return bindir


if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
