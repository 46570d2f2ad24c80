"""Reference mappings from tests/data/*.TXT, as C initialisers for harness/tab.c."""
import os, re
from vlib import REPO, read, Broken
from snippet import canon
DATA = REPO + "/tests/data"
def rows(fn):
    r = []
    for l in read(fn).splitlines():
        m = re.match(r"0x([0-9A-Fa-f]+)\s+0x([0-9A-Fa-f]+)(\s+0x[0-9A-Fa-f]+)*\s*$", l)
        if m: r.append((m.group(1), int(m.group(2), 16) if not m.group(3) else None))
    return r
def files():
    return {canon(f[:-4]): f for f in sorted(os.listdir(DATA)) if f.endswith(".TXT") and not f.endswith(".IRREVERSIBLE.TXT")}
def single(enc):
    """[(index, name, from{b:wc}, to{wc:b}, untested)] for the encodings whose reference has one-byte rows only."""
    fs = files(); out = []
    for i, e in enumerate(enc):
        f = next((fs[canon(n)] for n in e["names"] if canon(n) in fs), None)
        if not f or len(e["funcs"]) > 1 and e["funcs"][1] != "NULL": continue   # characters that may combine: several bytes matter
        R = rows(DATA + "/" + f)
        if not R or any(len(b) != 2 or w is None or w > 0xfffe for b, w in R): continue
        frm = {int(b, 16): w for b, w in R}
        s = set(frm.items())
        ir = DATA + "/" + f[:-4] + ".IRREVERSIBLE.TXT"
        if os.path.exists(ir): s ^= {(int(b, 16), w) for b, w in rows(ir) if len(b) == 2}
        to = {}
        for b, w in sorted(s):
            to.setdefault(w, b)
        out.append((i, f[:-4], frm, to))
    return out
DOUBLE = {"jisx0208": ("EUC-JP", ""), "jisx0212": ("EUC-JP", "8F"), "gb2312": ("EUC-CN", ""), "ksc5601": ("EUC-KR", "")}
def double(enc):
    out = []
    for i, e in enumerate(enc):
        if e["xxx"] not in DOUBLE: continue
        f, pre = DOUBLE[e["xxx"]]
        t = {}
        for b, w in rows(DATA + "/" + f + ".TXT"):
            b = b.upper()
            if len(b) == len(pre) + 4 and b.startswith(pre) and w is not None and w <= 0xffff and not 0xe000 <= w <= 0xf8ff:   # user-defined area: EUC only
                r, c = int(b[-4:-2], 16) - 0xa1, int(b[-2:], 16) - 0xa1
                if 0 <= r < 94 and 0 <= c < 94: t[r * 94 + c] = w
        out.append((i, f + ("/" + pre if pre else ""), t))
    return out
def emit(enc):
    S, D = single(enc), double(enc)
    o = ["#define NSINGLE %d\n#define NDOUBLE %d\n" % (len(S), len(D))]
    o.append("static const struct { int ei; } SREF[] = { %s };" % ", ".join("{ ei_%s }" % enc[i]["xxx"] for i, *_ in S))
    o.append("static const unsigned short SFROM[NSINGLE][256] = {")
    for i, n, fr, to in S: o.append("{ %s }," % ",".join("%d" % fr.get(b, 0xffff) for b in range(256)))
    o.append("};\n/* characters that encode to the byte */\nstatic const unsigned short STO[NSINGLE][256][2] = {")
    for i, n, fr, to in S:
        inv = {}
        for w, b in to.items(): inv.setdefault(b, []).append(w)
        if any(len(v) > 2 for v in inv.values()): raise Broken("reference %s: more than two characters for a byte" % n)
        o.append("{ %s }," % ",".join("{%s}" % ",".join(map(str, (inv.get(b, []) + [0xffff] * 2)[:2])) for b in range(256)))
    o.append("};")
    o.append("static const struct { int ei; } DREF[] = { %s };" % ", ".join("{ ei_%s }" % enc[i]["xxx"] for i, *_ in D))
    o.append("static const unsigned short DFROM[NDOUBLE][94 * 94] = {")
    for i, n, t in D: o.append("{ %s }," % ",".join("%d" % t.get(k, 0xffff) for k in range(94 * 94)))
    o.append("};")
    return "\n".join(o) + "\n", S, D
