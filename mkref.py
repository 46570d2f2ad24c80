#!/usr/bin/env python3
"""Writes ref/*.json, the frozen reference (names, units, accepted round-trip exceptions), from the tree at REPO. Run by hand only; the result is reviewed and committed; no check runs this."""
import json, time, sys
from vlib import *
from suites import *
import snippet
KNOWN = {m.group(1) for m in re.finditer(r"key=names:([^:\s]+):\w+:\w+", read(os.path.join(VERIF, "known-findings.txt")))}
with Work() as w:
    cx = Ctx(w, "quick", time.time() + 3000)
    which = sys.argv[1:] or ["units", "names", "roundtrip"]
    def put(n, d):
        with open(os.path.join(VERIF, "ref", n + ".json"), "w") as f: json.dump(d, f, indent=1, sort_keys=True); f.write("\n")
    if "units" in which:
        s_unit(cx); put("units", {cx.enc[i]["xxx"]: u for i, u in cx.units.items() if u != 1})
    if "names" in which:
        put("names", {"names": {snippet.canon(n): e["xxx"] for e in cx.enc for n in e["names"] if n not in KNOWN and snippet.canon(n) not in KNOWN}, "codepages": {str(c): x for c, x in cx.cps}})
    if "roundtrip" in which:
        s_rt(cx); s_inv(cx)
        out = {}
        Y, A, skip = {}, {}, set()
        def us(l):
            s = set()
            for a, b in l: s.update(range(a, b + 1))
            return s
        for s, j, r in cx.recs:
            if s == "rt":
                if j["item"] in cx.inexact_p: continue
                for k, t in r["collect"].items():
                    if k == "held" or "inexact:" + k in r["reach"]: print("skipped", j["item"], k); continue
                    k = k.rstrip("0F")
                    out.setdefault(cx.enc[j["item"]]["xxx"], {}).setdefault(k, set()).update(us(ranges(t)))
            if s == "inv":
                i = j["item"]
                if r["incomplete"] or any(k.startswith("inexact:") for k in r["reach"]): skip.add(i)
                for k, t in r["collect"].items(): (Y if k == "yields" else A).setdefault(i, []).extend(ranges(t))
        for i in Y:
            if i in skip or i in cx.inexact_i: print("skip", i); continue
            l = us(Y[i]) - us(A.get(i, []))
            if l: out.setdefault(cx.enc[i]["xxx"], {})["lost"] = l
        put("roundtrip", {x: {k: unranges(setranges(v)) for k, v in d.items() if v} for x, d in out.items()})
