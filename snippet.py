"""Reads lib/encodings.h.snippet: the declarations of names, codepages and indexes."""
import re
from vlib import REPO, read, Broken
def parse(repo=None):
    t = read((repo or REPO) + "/lib/encodings.h.snippet")
    t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t)
    enc, cps, idx = [], [], []
    for m in re.finditer(r"\b(DEFENCODING|DEFCODEPAGE|DEFINDEX)\s*\(", t):
        i = m.end(); d = 1; j = i
        while d and j < len(t):
            d += t[j] == "("; d -= t[j] == ")"; j += 1
        body = t[i:j - 1]
        if m.group(1) == "DEFENCODING":
            n = re.match(r"\s*\((.*?)\)\s*,(.*)$", body, re.S)
            if not n: raise Broken("cannot read an encoding declaration: " + body[:80])
            rest = [x.strip() for x in n.group(2).split(",")]
            enc.append(dict(names=re.findall(r'"([^"]*)"', n.group(1)), xxx=rest[0], index=rest[1], funcs=[x.strip("{} \n\t") for x in rest[2:]]))
        else:
            a, b = [x.strip() for x in body.split(",")]
            if m.group(1) == "DEFCODEPAGE": cps.append((int(a), b))
            else: idx.append((a, b))
    if len(enc) < 100: raise Broken("only %d encodings declared" % len(enc))
    return enc, cps, idx
def canon(n): return n.upper().replace("-", "").replace("_", "")
