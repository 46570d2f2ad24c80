"""Common driver: configure headers from /repo, compile sources to IR, run the analyser."""
import glob, json, os, re, subprocess, sys, tempfile, shutil, time, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("RSA_REPO", "/repo")
WORKERS = int(os.environ.get("RSA_WORKERS", str(os.cpu_count() or 4)))

class Broken(Exception):
    """The analysis could not be carried out (not a verdict on the property)."""

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise Broken("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def read(p):
    with open(p, encoding="utf-8", errors="surrogateescape") as f:
        return f.read()

class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="rsa.")
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.dir, ignore_errors=True)
    def path(self, *a): return os.path.join(self.dir, *a)

def engine():
    sh(["bash", os.path.join(VERIF, "engine", "build.sh")])
    b = os.path.join(VERIF, "build")
    c = [f for f in os.listdir(b) if f.startswith("rsa-")]
    if not c: raise Broken("analyser did not build")
    h = hashlib.sha256()
    return os.path.join(b, max(c, key=lambda f: os.path.getmtime(os.path.join(b, f))))

def version():
    m = re.search(r"project\(cppp-reiconv\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", read(REPO + "/CMakeLists.txt"))
    if not m: raise Broken("no project version")
    return m.groups()

def configure(w):
    """configure_file() of the header templates, as the build does it."""
    inc = w.path("inc")
    ver = version()
    def sub(src, dst, **kv):
        t = read(src)
        kv.setdefault("CPPP_API", ""); kv.setdefault("PROJECT_VERSION", ".".join(ver))
        for n, v in zip(("MAJOR", "MINOR", "PATCH"), ver): kv.setdefault("PROJECT_VERSION_" + n, v)
        t = re.sub(r"@(\w+)@|\$\{(\w+)\}", lambda m: kv.get(m.group(1) or m.group(2), ""), t)
        t = re.sub(r"#cmakedefine01 (\w+)", r"#define \1 0", t)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        with open(dst, "w", encoding="utf-8", errors="surrogateescape") as f: f.write(t)
    I = REPO + "/include"
    sub(I + "/cppp/reiconv.hpp.in", inc + "/cppp/reiconv.hpp")
    sub(I + "/cppp/reiconv.h.in", inc + "/cppp/reiconv.h")
    sub(I + "/cppp/encodings/reiconv.hpp.in", inc + "/cppp/encodings/reiconv.hpp", INDEXES_CODE=read(REPO + "/lib/generated/indexes.hpp.shippet").strip())
    sub(I + "/cppp/encodings/reiconv.h.in", inc + "/cppp/encodings/reiconv.h", INDEXES_CODE=read(REPO + "/lib/generated/indexes.h.shippet").strip())
    sub(I + "/iconv.h.in", inc + "/iconv.h")
    return inc

def flags(w, inc):
    v = version()
    return ["-I" + REPO + "/lib", "-I" + inc, "-I" + os.path.join(VERIF, "harness"),
            "-DVERSION_MAJOR=%s" % v[0], "-DVERSION_MINOR=%s" % v[1], "-DVERSION_PATCH=%s" % v[2], "-w"]

def renames():
    """The harness names a few internals (members of the descriptor, the encoding table). If one was renamed, the old name is mapped to the
    new one: same structure, same type, same order among the members that are new."""
    t = ""
    for f in sorted(glob.glob(REPO + "/lib/*.h") + glob.glob(REPO + "/lib/*.c")):
        try: t += re.sub(r"//[^\n]*|/\*.*?\*/", " ", open(f, errors="replace").read(), flags=re.S) + "\n"
        except OSError: pass
    def members(name):
        m = re.search(r"struct\s+%s\s*\{(.*?)\}\s*;" % name, t, re.S); r = []
        for d in (m.group(1).split(";") if m else []):
            d = " ".join(d.split())
            q = re.match(r"(.*)\(\s*\*\s*(\w+)\s*\)\s*(\(.*\))$", d)
            if q: r.append((str(q.group(3).count(",")), q.group(2))); continue
            q = re.match(r"(.*?)(\w+)$", d)
            if q: r.append((re.sub(r"\b(const|struct)\b", "", q.group(1)).strip(), q.group(2)))
        return r
    ref = dict(conv_struct=[("mbtowc_funcs", "ifuncs"), ("wctomb_funcs", "ofuncs"), ("int", "iindex"), ("int", "discard_ilseq"), ("state_t", "ibyteorder"), ("state_t", "istate"), ("state_t", "ostate")],
               mbtowc_funcs=[("3", "xxx_mbtowc"), ("1", "xxx_flushwc")], wctomb_funcs=[("3", "xxx_wctomb"), ("2", "xxx_reset")])
    other = {"lfuncs", "oindex"}
    out = []
    for st, want in ref.items():
        have = members(st); names = {n for _, n in have}
        for ty in {x for x, _ in want}:
            gone = [n for x, n in want if x == ty and n not in names]
            new = [n for x, n in have if x == ty and n not in other and n not in {b for _, b in want}]
            if gone and len(gone) == len(new): out += ["-D%s=%s" % z for z in zip(gone, new)]; names |= set(gone)
        for _, n in want:
            if n in names: out.append("-DHAVE_" + n)
    if not re.search(r"\ball_encodings\b(?!\.h)", t):
        m = re.search(r"struct\s+encoding\s+(?:const\s+)?(\w+)\s*\[", t)
        if m: out.append("-Dall_encodings=" + m.group(1))
    return out

def compile_ir(w, src, name, cxx=False, extra=()):
    inc = w.path("inc")
    if not os.path.isdir(inc): configure(w)
    raw, out = w.path(name + ".raw.bc"), w.path(name + ".bc")
    cc = ["clang++-18" if cxx else "clang-18", "-std=gnu++20" if cxx else "-std=gnu17"]
    sh(cc + ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-fno-discard-value-names", "-emit-llvm", "-c", src, "-o", raw] + flags(w, inc) + renames() + list(extra))
    sh(["opt-18", "-passes=mem2reg,simplifycfg", raw, "-o", out])
    return out

def link_ir(w, parts, name):
    out = w.path(name + ".bc")
    sh(["llvm-link-18"] + list(parts) + ["-o", out])
    return out

def run_jobs(w, bc, jobs, tag="jobs", workers=None):
    """jobs: list of dict(id, func, args, init, only, paths, sec). Returns list of result dicts."""
    jf, of = w.path(tag + ".txt"), w.path(tag + ".jsonl")
    with open(jf, "w") as f:
        for j in jobs:
            f.write("\t".join([j["id"], j["func"], ",".join(map(str, j.get("args", []))), j.get("init", ""), ",".join(j.get("only", [])),
                               str(j.get("paths", 40000)), str(j.get("sec", 200)), j.get("universe", ""), str(j.get("nojoin", 0))]) + "\n")
    p = subprocess.run([engine(), bc, jf, of, str(min(workers or WORKERS, max(1, len(jobs))))], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if os.environ.get("RSA_DEBUG"): print(p.stdout)
    if p.returncode: raise Broken("analyser failed (%d): %s" % (p.returncode, p.stdout[-2000:]))
    res = []
    for l in open(of):
        try: res.append(json.loads(l))
        except ValueError: pass
    have = {r["id"] for r in res}; lost = [j for j in jobs if j["id"] not in have]
    if len(lost) > max(8, len(jobs) // 2): raise Broken("analyser lost jobs: %d of %d: %s" % (len(lost), len(jobs), p.stdout[-500:]))
    return res + [no_result(j["id"], "the analyser ran out of memory") for j in lost]
def no_result(i, why):
    return dict(id=i, incomplete=True, why=why, viol=[], undecided=[], obl={}, reach={}, states={}, collect={}, outs={}, sites=[], funcs=[], paths=0, sec=0, inexact_states=False, steps=0, merges=0, enums=0)
