"""The analysis suites: each builds the harness from the current sources and lists the obligations to decide."""
import time
from vlib import *
from drive import *
import snippet, tables

def outv(v):
    """the single value of an output, or None"""
    m = re.fullmatch(r"\{0x([0-9a-f]+)\}", v or "")
    return int(m.group(1), 16) if m else None
class Ctx:
    def __init__(self, w, tier, deadline):
        self.w, self.tier, self.deadline = w, tier, deadline
        self.quick = tier == "quick"
        self.enc, self.cps, self.idx = snippet.parse()
        self.N = len(self.enc)
        self.bcs, self.recs, self.notes, self.extra = {}, [], [], {}
        self._ist = self._ost = None
    def drive(self, name, build):
        if name not in self.bcs: self.bcs[name] = Drive(self.w, build(), self.deadline)
        return self.bcs[name]
    def harness(self, src, name=None, extra=(), cxx=False):
        return self.drive(name or src, lambda: compile_ir(self.w, os.path.join(VERIF, "harness", src), (name or src).replace(".", "_"), cxx=cxx, extra=extra))
    def add(self, suite, out):
        for j, r in out: self.recs.append((suite, j, r))
        return out
    # -- reachable states of the converters
    def ist(self):
        if self._ist is None:
            d = self.harness("conv.c")
            K, R, bad = d.fix(lambda i: dict(func="h_ist", args=[i, 1, 4], cuts=[(1, 2, 4)], pre={14: 1, 34: 1}.get(i, 0)), "i", range(self.N))
            self.add("states", R)
            self.inexact_i = bad
            for i in bad: self.notes.append("states of the decoder of %s not determined exactly" % self.name(i))
            self._ist = {i: unranges(setranges(s)) for i, s in K.items()}
        return self._ist
    def ost(self):
        if self._ost is None:
            d = self.harness("conv.c")
            K, R, bad = d.fix(lambda i: dict(func="h_ost", args=[i, 0, 0xffffffff], cuts=[(1, 2, 8)], pre={14: 4, 26: 2, 34: 2, 193: 2, 191: 1, 192: 1, 33: 1}.get(i, 0)), "o", range(self.N))
            self.add("states", R)
            self.inexact_o = bad
            for i in bad: self.notes.append("states of the encoder of %s not determined exactly" % self.name(i))
            self._ost = {i: unranges(setranges(s)) for i, s in K.items()}
        return self._ost
    def name(self, i): return self.enc[i]["names"][0] if 0 <= i < self.N else str(i)

def perenc(cx, suite, func, key, nlo, nhi, pre={}, wc=False, extra=None, only=None, skip=()):
    d = cx.harness("conv.c")
    st = cx.ist() if key == "i" else cx.ost() if key == "o" else None
    jobs = []
    for i in range(cx.N):
        if only is not None and i not in only or i in skip: continue
        a = [i, nlo, nhi if not callable(nhi) else nhi(i)] + ([0, 0xffffffff] if wc else [])
        j = dict(func=func, args=a, cuts=([(3, 4, 8)] if wc else []) + [(1, 2, 4)], pre=pre.get(i, 0), item=i)
        if extra: extra(i, j)
        if st: j["st"] = {key: st[i]}; j["keys"] = [key]
        jobs.append(j)
    return cx.add(suite, d.run(jobs))

# ---- converters
# how many bytes a step may look at: the tier's bound, and the whole of the longest form where that is longer
FORM = {14: 7, 19: 11, 20: 13}   # UTF-7, C99, JAVA
SLOW = {14, 26, 27, 33, 34, 193}   # several escape sequences in one step: UTF-7, ISO-2022-JP-2, -JP-MS, -CN, -CN-EXT, -JP-3
def deep(q, t, cx): return lambda i: max(FORM.get(i, 0), q if cx.quick else t)
def s_dec(cx): perenc(cx, "dec", "h_dec", "i", 1, lambda i: (8 if cx.quick else 12) if i in SLOW else 13, {14: 2, 26: 2, 34: 2})
def s_chunk(cx): perenc(cx, "chunk", "h_chunk", "i", 1, deep(5, 9, cx), {14: 2, 26: 1, 34: 1, 193: 1, 33: 1, 19: 1, 20: 1})
def s_redo(cx): perenc(cx, "redo", "h_redo", "i", 1, deep(6, 10, cx), {14: 2, 26: 1, 34: 1, 193: 1})
def s_prog(cx): perenc(cx, "prog", "h_prog", "i", 1, deep(3, 6, cx), {14: 1, 34: 1})
def s_flushwc(cx): perenc(cx, "flushwc", "h_flushwc", "i", 0, 0)
def s_enc(cx):
    d = cx.harness("conv.c")
    K, R, bad = d.fix(lambda i: dict(func="h_enc", args=[i, 1, 12, 0, 0xffffffff], cuts=[(3, 4, 8), (1, 2, 4)], pre={14: 4, 26: 2, 34: 2, 193: 2, 191: 1, 192: 1, 33: 1, 19: 1}.get(i, 0)), "o", range(cx.N))
    cx.add("enc", R); cx.inexact_o = bad
    for i in bad: cx.notes.append("states of the encoder of %s not determined exactly" % cx.name(i))
    cx._ost = {i: unranges(setranges(x)) for i, x in K.items()}
def s_room(cx):
    d = cx.harness("conv.c")
    K, R, bad = d.fix(lambda i: dict(func="h_room", args=[i, 1, 16, 0, 0xffffffff], cuts=[(3, 4, 8), (1, 2, 4)], pre={14: 4, 26: 2, 34: 2, 193: 2, 191: 1, 192: 1, 33: 1, 19: 2}.get(i, 0)), "o", range(cx.N))
    cx.add("room", R); cx.inexact_o = bad
    for i in bad: cx.notes.append("states of the encoder of %s not determined exactly" % cx.name(i))
    cx._ost = {i: unranges(setranges(x)) for i, x in K.items()}
def s_reset(cx): perenc(cx, "reset", "h_reset", "o", 0, 8)
def s_unit(cx):
    d = cx.harness("conv.c")
    out = cx.add("unit", d.run([dict(func="h_unit", args=[i], item=i) for i in range(cx.N)]))
    u = {}
    for j, r in out:
        v = r["outs"].get("unit")
        if outv(v) is not None: u[j["item"]] = outv(v)
    cx.units = u
def s_skip(cx):
    s_unit(cx)
    perenc(cx, "skip", "h_skip", "i", 1, 8, {34: 1}, extra=lambda i, j: (j["args"].__setitem__(1, cx.units[i]), j.__setitem__("cuts", [])), only=set(cx.units))
def s_rt(cx):
    d = cx.harness("conv.c")
    K, R, bad = d.fix(lambda i: dict(func="h_rt", args=[i, 2, 0, 0, 0x10ffff], cuts=[(3, 4, 8)], pre={14: 4, 34: 2, 26: 2, 193: 2, 33: 1, 19: 1, 191: 1, 192: 1}.get(i, 0)), "p", range(cx.N))
    cx.inexact_p = bad
    for i in bad: cx.notes.append("joint states of encoder and decoder of %s not determined exactly" % cx.name(i))
    cx.add("rt", R)
    held = {}
    for j, r in R:
        if j["item"] in bad or "inexact:held" in r["reach"]: continue
        for a, b in ranges(r["collect"].get("held", "")):
            if b < 0xe0000: held.setdefault(j["item"], set()).update(range(a, b + 1))
    cx.add("rt", d.run([dict(func="h_rt2", args=[i, w, 0, 0x10ffff], cuts=[(2, 3, 8)], item=i) for i, s in held.items() if len(s) < 300 for w in sorted(s)]))
LOOK = {14: 6, 19: 10, 20: 12, 8: 4, 9: 4, 10: 4}
def s_inv(cx):
    d = cx.harness("conv.c"); st = cx.ist()
    jobs = [dict(func="h_yields", args=[i, LOOK.get(i, 4 if cx.quick else 6)], st={"i": st[i]}, keys=["i"], item=i, pre={34: 1, 14: 1}.get(i, 0)) for i in range(cx.N)]
    jobs += [dict(func="h_accepts", args=[i, 0, 0x1fffff], cuts=[(1, 2, 8)], item=i) for i in range(cx.N)]
    cx.add("inv", d.run(jobs))

# ---- conversion loop
def loop(cx, suite, specs):
    d = cx.harness("loop.c")
    jobs = [dict(func=f, args=list(a), pre=sum(a[1:]) if f != "h_size" else a[1]) for f, *a in specs]
    return cx.add(suite, d.run(jobs, last=300))
BASE = [a | b | c for a in (0, 1) for b in (0, 8) for c in (0, 16)]
def s_loop(cx):
    q = [(0, 2), (1, 0), (1, 1), (1, 2), (2, 0), (2, 1), (2, 2)] + ([] if cx.quick else [(1, 3), (2, 3), (3, 1), (3, 2)])
    loop(cx, "loop", [("h_loop", o, i, k) for i, k in q for o in BASE if i < 3 or o in (0, 1)])
def s_resume(cx): loop(cx, "resume", [("h_resume", o, i, k) for i, k in [(1, 0), (1, 1), (2, 0), (2, 1)] + ([] if cx.quick else [(2, 2)]) for o in BASE])
def s_split(cx): loop(cx, "split", [("h_split", o, i, k) for i, k in [(1, 0), (2, 1)] + ([] if cx.quick else [(3, 1), (3, 2)]) for o in BASE if i < 3 or o in (0, 1, 9, 24)])
def s_flush(cx): loop(cx, "flush", [("h_flush", o, 0, k) for k in (0, 1, 2, 3) for o in range(32)] + [("h_zero", o) for o in range(8)])
def s_api(cx):
    n = (0, 1, 2) if cx.quick else (0, 1, 2, 3)
    O = [o | b for o in (0, 1, 2, 4) for b in (0, 32)]
    sp = [("h_size", o, i, 0) for o in O for i in n] + [("h_size", o, i, b) for o in (0, 1, 32) for i in n[:3] for b in (585, 1171)]
    sp += [("h_static", o, i, k) for o in O for i in n[:3] for k in (0, 1, 2, 3, 5)]
    sp += [("h_conv", o, i, m) for o in (0, 1, 32, 2, 4) for i in n[:3] for m in (0, 1, 2, 4, 8, 9)]
    sp += [("h_again", o, i, m) for o in (0, 1, 32) for i in n[1:3] for m in (0, 1, 2)]
    loop(cx, "api", sp)

# ---- names
def names_ref(cx):
    p = cx.w.path("names_ref.inc")
    cx.alias = [(n, e["xxx"]) for e in cx.enc for n in e["names"]]
    with open(p, "w") as f:
        for n, x in cx.alias: f.write('{ "%s", ei_%s },\n' % (n, x))
    with open(cx.w.path("index_ref.inc"), "w") as f:
        for e in cx.enc: f.write("IDX(%s, ei_%s)\n" % (e["index"], e["xxx"]))
        by = {e["index"]: e["xxx"] for e in cx.enc}
        for a, b in cx.idx:
            if b in by: f.write("IDX(%s, ei_%s)\n" % (a, by[b]))
    xs = {e["xxx"] for e in cx.enc}
    with open(cx.w.path("cps_ref.inc"), "w") as f:
        for c, n in sorted(dict(cx.cps).items()):
            if n in xs: f.write("{ %d, ei_%s },\n" % (c, n))
    return ["-I" + cx.w.dir]
def _names(cx):
    ex = names_ref(cx)
    return cx.harness("names.c", extra=ex), cx.harness("names.c", name="names_any", extra=ex + ["-DANY_STRCMP"])
def s_names(cx):
    d, a = _names(cx)
    jobs = [dict(func="h_alias", args=[k, k + 1, h], alias=cx.alias[k]) for k in range(len(cx.alias)) for h in (0, 1, 7)]
    jobs += [dict(func=f, args=[]) for f in ("h_codepages", "h_unknown", "h_count", "h_index")]
    jobs += [dict(func="h_canon", args=[k]) for k in range(0, 6)]
    jobs += [dict(func="h_edit", args=[k, p, h], edit=1) for k in range(len(cx.alias)) for h in (0, 1, 2) for p in range(len(cx.alias[k][0]) + (h == 1))]
    out = cx.add("names", d.run(jobs))
    out += cx.add("names", a.run([dict(func="h_anyname", args=[x, y]) for x, y in ((0, 0), (0, 1), (0, 2), (0, 3), (5, 2), (30, 2), (38, 3), (39, 1), (40, 0), (41, 0), (42, 1), (60, 2), (200, 1))]))
    return out
def s_open(cx):
    d, a = _names(cx)
    P = [(k, (k * 37 + 5) % cx.N) for k in range(0, cx.N, 9 if cx.quick else 1)]
    cps = {x: n for x, n in cx.cps}
    jobs = [dict(func="h_open", args=list(p)) for p in P] + [dict(func="h_unknown", args=[])]
    ex = {e["xxx"]: k for k, e in enumerate(cx.enc)}
    L = [(c, ex[n]) for c, n in sorted(cps.items()) if n in ex]
    jobs += [dict(func="h_opencp", args=[L[k][0], L[k][1], L[-1 - k][0], L[-1 - k][1]]) for k in range(len(L))]
    jobs += [dict(func="h_pairs", args=[k, 0, b, 25]) for k in range(cx.N) for b in range(0, cx.N, 25)]
    jobs += [dict(func="h_pairs", args=[k, 1, b, 8]) for k in range(cx.N) for b in range(0, cx.N, 8) if not cx.quick or b <= k < b + 8 or (b // 8 + k) % 12 == 0]
    jobs += [dict(func="h_pairscp", args=[x[0], x[1], b]) for x in L for b in range(0, len(L), 50)]
    cx.add("open", d.run(jobs))
    cx.add("open", a.run([dict(func="h_anyopen", args=[x, y]) for x, y in ((0, 0), (0, 1), (0, 2), (38, 2), (41, 1), (100, 2), (103, 1), (104, 1), (105, 1), (300, 1))]))

# ---- C++
def cxx_drive(cx):
    def build():
        names_ref(cx)
        a = compile_ir(cx.w, VERIF + "/harness/clib.c", "c")
        b = compile_ir(cx.w, VERIF + "/harness/cxx.cpp", "x", cxx=True, extra=["-D_GLIBCXX_EXTERN_TEMPLATE=0", "-I" + cx.w.dir])
        return link_ir(cx.w, [a, b], "l")
    return cx.drive("cxx", build)
def s_cxx(cx):
    d = cxx_drive(cx)
    J = [("h_cxx", [f, t, n, fl, fa]) for (f, t) in ((0, 1), (1, 49), (3, 1), (9, 1), (1, 8), (24, 1), (1, 14), (75, 0)) for n in ((0, 1, 2) if cx.quick else (0, 1, 2, 3)) for fl in (0, 1) for fa in (0, 1)]
    J += [("h_ctor", [k]) for k in range(19)] + [("h_eq", [3, 3]), ("h_eq", [3, 4]), ("h_index", [])]
    cx.add("cxx", d.run([dict(func=f, args=a) for f, a in J]))

# ---- Unicode encodings
def s_utf(cx):
    d = cx.harness("utf.c")
    J = [("h_u8dec", [0, n]) for n in range(1, 6)]
    for k in range(16):
        u = 2 if k in (0, 1, 2, 6, 7, 8, 12, 13) else 4
        for n in range(1, 8 if u == 2 else 11):
            for o in ((0, 1) if k in (0, 3, 6, 9) else (0,)): J.append(("h_udec", [k, n, o]))
    J += [("h_uenc", [k, o]) for k in range(-1, 16) for o in ((0, 1) if k in (0, 3) else (0,))]
    J += [("h_escdec", [j, n, h]) for j in (0, 1) for n in range(1, 14 if j == 0 else 13) for h in ((0, 1, 2, 3, 4, 5) if j == 0 and n >= 10 else (0,))] + [("h_escenc", [j]) for j in (0, 1)]
    cx.add("utf", d.run([dict(func=f, args=a, pre=a[1] if f == "h_escdec" else 0) for f, a in J], last=200))

# ---- shift and escape sequences
ESCN = ["ISO-2022-JP", "ISO-2022-JP-1", "ISO-2022-JP-2", "ISO-2022-JP-MS", "ISO-2022-JP-3", "ISO-2022-CN", "ISO-2022-CN-EXT", "ISO-2022-KR", "HZ", "UTF-7"]
def s_esc(cx):
    d = cx.harness("esc.c")
    o = d.run([dict(func="h_npieces", args=[])])[0][1]["outs"]
    J = []
    for e in range(10):
        m = outv(o["m%d" % e]); P = [k for k in range(64) if m >> k & 1]
        n = 5 if e != 9 else 3 if cx.quick else 4
        J += [[e, a, b, n] for a in [-1] + P for b in [-1] + (P if a >= 0 else [])]
    J.sort(key=lambda a: a[0] != 9)
    cx.add("esc", d.run([dict(func="h_esc", args=a) for a in J]))

# ---- tables
def tab_drive(cx):
    def build():
        t, cx.S, cx.D = tables.emit(cx.enc)
        with open(cx.w.path("tab_ref.inc"), "w") as f: f.write(t)
        return compile_ir(cx.w, VERIF + "/harness/tab.c", "tab", extra=["-I" + cx.w.dir])
    return cx.drive("tab", build)
def s_tab(cx):
    d = tab_drive(cx)
    J = [(f, [k], cx.S[k][0]) for k in range(len(cx.S)) for f in ("h_sdec", "h_senc", "h_sall")] + [(f, [k], cx.D[k][0]) for k in range(len(cx.D)) for f in ("h_ddec", "h_denc")]
    cx.add("tab", d.run([dict(func=f, args=a, item=i) for f, a, i in J]))
SUITES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("s_")}
