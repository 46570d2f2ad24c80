#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decides one property of /repo's current tree by static analysis.
   check.py --replay FILE                        analyses again the case a VIOLATION line refers to."""
import json, os, sys, time
from vlib import *
from suites import *
import lint
T0 = time.time()
MEM = {"oob-read", "oob-write", "null-deref", "uninit", "use-after-free", "bad-free", "double-free", "write-const", "div-zero", "shift-range", "abort", "nontermination", "escape"}
READ, WRITE = {"oob-read"}, {"oob-write"}
ALL = None
# property -> suites and, for each, the kinds of violation that break the property (None: all of them)
PROPS = {
 "C01": {"dec": READ | {"consume", "null-deref", "uninit"}, "loop": READ | {"pre", "position"}, "api": READ | {"pre"}, "cxx": READ},
 "C02": {"enc": WRITE | {"produce", "beyond"}, "reset": WRITE | {"produce", "beyond"}, "loop": WRITE | {"pre", "position", "beyond", "bytes"}, "flush": WRITE | {"pre", "position", "beyond", "bytes"}, "api": WRITE | {"pre", "beyond"}, "cxx": WRITE},
 "C03": {"dec": MEM | {"value", "consume"}, "prog": MEM | {"progress"}, "flushwc": MEM | {"value"}, "enc": MEM | {"produce"}, "reset": MEM | {"produce"}, "loop": MEM | {"pre"}, "flush": MEM | {"pre"}, "api": MEM | {"pre"}, "cxx": MEM},
 "C04": {"dec": {"consume", "abort", "nontermination"}, "prog": {"progress", "nontermination"}, "enc": {"produce"}, "loop": {"position", "pre", "bytes", "abort", "nontermination"}, "flush": {"position", "abort", "nontermination"}},
 "C05": {"enc": {"errstate"}, "redo": {"redo"} | MEM, "loop": {"state", "position", "bytes", "result"}, "flush": {"state", "position", "bytes"}, "resume": ALL, "reset": {"errstate"}},
 "C06": {"chunk": ALL, "split": ALL},
 "C07": {"room": ALL, "reset": {"fit", "room", "produce"}, "resume": ALL, "flush": {"result", "position", "state"}, "loop": {"result", "position", "bytes", "state"}},
 "C08": {"reset": ALL, "flushwc": ALL, "flush": ALL, "rtflush": {"flush"} | MEM},
 "C09": {"names": ALL},
 "C10": {"open": ALL},
 "C11": {"api": ALL},
 "C12": {"cxx": ALL},
 "C13": {"lint": ALL},
 "C14": {"rt": ALL, "inv": ALL},
 "C15": {"skip": ALL, "discard": ALL},
 "C16": {"loop": {"result", "position"}, "flush": {"result"}, "api": {"result"}},
 "C17": {"utf": ALL},
 "C18": {"tab": ALL},
 "C19": {"esc": ALL},
}
# marks that must have been reached for the suite to have looked at anything (an analysis that reaches nothing decides nothing)
MARKS = {"dec": ["dec:char", "dec:ilseq", "dec:toofew"], "prog": ["prog:step"], "flushwc": ["flushwc:pending"], "enc": ["enc:ok", "enc:iluni", "enc:toosmall"], "reset": ["reset:ok", "reset:toosmall"],
 "loop": ["loop:full", "loop:invalid", "loop:incomplete", "loop:done"], "flush": ["flush:full", "flush:done", "zero:done"], "redo": ["redo:char", "redo:error"], "resume": ["resume:full"], "chunk": ["chunk:char", "chunk:ilseq", "chunk:toofew"],
 "split": ["split:carried", "split:clean"], "room": ["room:fits", "room:iluni", "room:toosmall"], "rt": ["rt:ok", "rt:flush", "rt:pair"], "rtflush": ["rt:flush"], "inv": ["inv:decoded", "inv:encoded"], "skip": ["skip:ilseq"], "unit": ["unit:done"],
 "api": ["size:error", "size:ok", "size:long", "static:full", "static:error", "static:ok", "conv:ok", "conv:error", "conv:nomem", "again:after-error"], "names": ["name:found", "codepage:done", "canon:done", "edit:done", "anyname:done", "index:done"],
 "open": ["open:done", "open:nomem", "anyopen:done", "opencp:done", "unknown:done"], "cxx": ["cxx:returned", "cxx:system_error", "ctor:ok", "ctor:throws", "index:done"], "utf": ["u8:char"], "esc": ["esc:char", "esc:shift", "esc:bad"], "tab": ["tab:mapped", "tab:unmapped", "tab:encoded", "tab:refused", "tab:all", "tab:mapped2", "tab:encoded2"]}
PERENC = {"dec", "prog", "enc", "redo", "chunk", "room", "rt", "unit"}

def s_rtflush(cx):
    """flushing, from every state encoder and decoder can reach together"""
    s_rt(cx); cx.recs = [("rtflush" if s == "rt" else s, j, r) for s, j, r in cx.recs]
def s_discard(cx):
    loop(cx, "discard", [("h_loop", o, i, k) for i, k in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)] for o in BASE if o & 1] + [("h_flush", o, 0, k) for k in (0, 1, 2) for o in range(1, 32, 2)])
    d, a = _names(cx)
    cx.add("discard", d.run([dict(func="h_open", args=[k, (k * 53 + 7) % cx.N]) for k in range(0, cx.N, 40)]))
SUITES.update(rtflush=s_rtflush, discard=s_discard)
from suites import _names

def known():
    """(property, key) of the findings recorded, not repaired."""
    k = {}
    for l in read(os.path.join(VERIF, "known-findings.txt")).splitlines():
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m: k[(m.group(1), m.group(2))] = m.group(3)
    return k

def short(p):
    return p.replace(REPO + "/", "").replace(VERIF + "/", "/verif/")
def describe(cx, s, j, v):
    e = ""
    if "item" in j: i = j["item"]; f = cx.enc[i]["funcs"]; e = " [encoding %s: %s]" % (cx.name(i), ", ".join(x for x in f if x != "NULL"))
    if "alias" in j: e = ' [name "%s", declared for %s in lib/encodings.h.snippet]' % j["alias"]
    w = " ".join("%s=0x%x" % (k, x) for k, x in v.get("wit", {}).items() if not k.startswith("cmp"))
    return "%s: %s at %s in %s%s%s" % (v["kind"], v["msg"].split(": ", 1)[-1], short(v["where"]), v["func"], e, " with " + w[:400] if w else "")

def extra_violations(cx, pid, kinds):
    """Obligations decided over the collected results of several jobs. Yields (key, text, job)."""
    out = []
    if "rt" in kinds or "rtflush" in kinds:
        allowed = json.load(open(os.path.join(VERIF, "ref", "roundtrip.json")))
        got = {}
        for s, j, r in cx.recs:
            if s != "rt" and s != "rtflush": continue
            for k, t in r["collect"].items():
                if k == "held" or "inexact:" + k in r["reach"]: continue
                if s == "rtflush" and k[-1] not in "0F": continue   # only text that starts after an ending, or ends
                got.setdefault((j["item"], k), []).append((t, j))
        tail = {"0": " by a decoder that has read a text that was ended", "F": " when the text ends there", "2": " after a character that is held back to be combined"}
        what = {"bad": "is written so that the decoder rejects it", "count": "is read back as no or several characters", "differs": "is read back as another character"}
        for (i, k), l in sorted(got.items()):
            if i in cx.inexact_p: continue
            ok = set(); k0 = k.rstrip("0F")
            for a, b in ranges(allowed.get(cx.enc[i]["xxx"], {}).get(k0, "")): ok.update(range(a, b + 1))
            for t, j in l:
                bad = []
                for a, b in ranges(t):
                    bad += [x for x in range(a, min(b, a + 0x110000) + 1) if x not in ok]
                if bad:
                    out.append(("rt:%s:%s" % (cx.enc[i]["xxx"], k), "roundtrip: encoding %s: U+%04X %s%s (%d such characters; %s)" % (cx.name(i), bad[0], what[k.rstrip("0F2")], tail.get(k[-1], ""), len(bad), ", ".join(cx.enc[i]["funcs"])), j)); break
    if "inv" in kinds:
        allowed = json.load(open(os.path.join(VERIF, "ref", "roundtrip.json")))
        Y, A, skip, jobs = {}, {}, set(), {}
        for s, j, r in cx.recs:
            if s != "inv": continue
            i = j["item"]
            if r["incomplete"] or any(k.startswith("inexact:") for k in r["reach"]): skip.add(i)
            for k, t in r["collect"].items(): (Y if k == "yields" else A).setdefault(i, []).extend(ranges(t))
            if j["func"] == "h_yields": jobs[i] = j
        n = 0
        for i in sorted(Y):
            if i in skip or i in cx.inexact_i: continue
            n += 1
            acc = sorted(A.get(i, [])); ok = ranges(allowed.get(cx.enc[i]["xxx"], {}).get("lost", ""))
            lost = [x for a, b in Y[i] for x in range(a, b + 1) if not any(p <= x <= q for p, q in ok)] if sum(b - a + 1 for a, b in Y[i]) < 300000 else []
            s = set()
            for a, b in acc: s.update(range(a, b + 1))
            lost = [x for x in lost if x not in s]
            if lost: out.append(("inv:" + cx.enc[i]["xxx"], "roundtrip: encoding %s: U+%04X can be decoded but not encoded (%d such characters; %s)" % (cx.name(i), lost[0], len(lost), ", ".join(cx.enc[i]["funcs"])), jobs[i]))
        cx.extra["repertoires compared"] = n
        if n < 150: raise Broken("repertoires of only %d encodings could be compared" % n)
    if "unit" in kinds or "skip" in kinds:
        want = json.load(open(os.path.join(VERIF, "ref", "units.json")))
        for s, j, r in cx.recs:
            if s != "unit" or j["item"] not in cx.units: continue
            u, x = cx.units[j["item"]], want.get(cx.enc[j["item"]]["xxx"], 1)
            if u != x: out.append(("unit:" + cx.enc[j["item"]]["xxx"], "skip: discarding invalid input of encoding %s skips %d bytes, not its unit of %d (lib/loop_unicode.h)" % (cx.name(j["item"]), u, x), j))
    if "names" in kinds:
        ref = json.load(open(os.path.join(VERIF, "ref", "names.json")))
        first = {e["xxx"]: set(map(snippet.canon, e["names"])) for e in cx.enc}
        cur = {}
        for j in cx.recs:
            if j[0] == "names" and j[1]["func"] == "h_alias" and j[1]["args"][2] == 0 and not j[2]["viol"]: cur[snippet.canon(j[1]["alias"][0])] = j[1]["alias"][1]
        ids = {e["xxx"] for e in cx.enc}
        for n, x in sorted(ref["names"].items()):
            if x not in ids: cx.notes.append("encoding %s is no longer declared under that identifier" % x); continue
            if n in cur and cur[n] != x: out.append(("name:" + n, 'name: "%s" no longer denotes the encoding %s but %s (lib/encodings.h.snippet)' % (n, x, cur[n]), None))
            if n not in cur and n not in {snippet.canon(a) for a, _ in cx.alias}: out.append(("name:" + n, 'name: "%s" is no longer declared for %s (lib/encodings.h.snippet)' % (n, x), None))
        decl, near = {}, 0
        byidx = {k: e["xxx"] for k, e in enumerate(cx.enc)}
        for a, x in cx.alias: decl.setdefault(snippet.canon(a), set()).add(x)
        for s, j, r in cx.recs:
            if s != "names" or not j.get("edit") or r["incomplete"] or "inexact:edit" in r["reach"]: continue
            (k, pos, how), near = j["args"], near + 1
            for a, b in ranges(r["collect"].get("edit", "")):
                for v in range(a, b + 1):
                    n, c = cx.alias[k][0], chr(v & 255)
                    m = n[:pos] + ("" if how == 2 else c) + n[pos + (how != 1):]
                    x = byidx.get(v >> 8)
                    if x not in decl.get(snippet.canon(m), ()): out.append(("near:" + snippet.canon(m), "name: %r, which is not declared%s, is looked up as %s (reiconv_lookup_from_name)" % (m, " for it" if snippet.canon(m) in decl else "", x), j))
        cx.extra["names one byte from a declared one, sets examined"] = near
        cps = {}
        for s, j, r in cx.recs:
            if s == "names" and j["func"] == "h_codepages":
                if "inexact:cp" in r["reach"] or r["incomplete"]: raise Broken("the codepage table could not be read off exactly")
                for a, b in ranges(r["collect"].get("cp", "")):
                    if b - a > 100000: raise Broken("codepage set too large")
                    for v in range(a, b + 1): cps[v >> 32] = v & 0xffffffff
        byx = {e["xxx"]: k for k, e in enumerate(cx.enc)}
        for c, x in cx.cps:
            if cps.get(c) != byx.get(x): out.append(("codepage:%d" % c, "codepage: %d is declared for %s but looked up as %s (lib/codepage_to_ei.h)" % (c, x, cx.name(cps[c]) if c in cps else "nothing"), None))
        decl = {c for c, _ in cx.cps}
        for c in sorted(set(cps) - decl): out.append(("codepage:%d" % c, "codepage: %d is not declared, but looked up as %s" % (c, cx.name(cps[c])), None))
        for c, x in sorted(ref["codepages"].items()):
            if x in byx and cps.get(int(c)) != byx[x]: out.append(("codepage:" + c, "codepage: %s no longer denotes %s" % (c, x), None))
        outs = {}
        for s, j, r in cx.recs:
            if s == "names": outs.update({k: outv(x) for k, x in r["outs"].items()})
        if outs.get("encodings") != outs.get("end"): out.append(("count", "count: %s encodings in the table, %s indexes" % (outs.get("encodings"), outs.get("end")), None))
        if outs.get("end") != cx.N: out.append(("count", "count: %s indexes, %d encodings declared" % (outs.get("end"), cx.N), None))
        cx.extra.update({"names": len(cx.alias), "codepages": len(cps), "index constants": outs.get("indexes")})
    if "tab" in kinds:
        for s, j, r in cx.recs:
            if s != "tab": continue
            for k, t in r["collect"].items():
                if t and "inexact:" + k not in r["reach"]:
                    a = ranges(t)[0][0]
                    out.append(("tab:%s:%s" % (cx.enc[j["item"]]["xxx"], k), "table: encoding %s: %s 0x%X (%s) disagrees with the reference table (%d in all; %s)" % (cx.name(j["item"]), "character" if k == "enc" else "byte pair", a, {"dec": "decoded", "missing": "not decoded", "enc": "encoded"}[k], sum(y - x + 1 for x, y in ranges(t)), ", ".join(cx.enc[j["item"]]["funcs"])), j))
    return out

def main():
    if sys.argv[1] == "--replay": return replay(sys.argv[2])
    pid = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if pid not in PROPS: print("unknown property", pid); return 2
    kinds = PROPS[pid]
    try:
        with Work() as w:
            engine()
            cx = Ctx(w, tier, T0 + (600 if tier == "quick" else 6 * 3600))
            lints = []
            for s in kinds:
                if s == "lint": lints = lint.run(cx)
                else: SUITES[s](cx)
            return verdict(cx, pid, tier, seed, kinds, lints)
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e)); return 2

def verdict(cx, pid, tier, seed, kinds, lints):
    KN = known(); found, undecided, incomplete = {}, [], []
    reach, obl, funcs, sites = {}, {}, set(), set()
    paths = steps = merges = 0
    seen = {}
    for s, j, r in cx.recs:
        seen.setdefault(s, set()).add(j.get("item"))
        for k, n in r["reach"].items(): reach[k] = reach.get(k, 0) + n
        for k, n in r["obl"].items(): obl[k] = obl.get(k, 0) + n
        funcs.update(f for f in r["funcs"] if not f.startswith("h_")); sites.update(r["sites"]); paths += r["paths"]; steps += r["steps"]; merges += r["merges"]
        if r["incomplete"]: incomplete.append("%s%s %s" % (j["func"], j["args"], r["why"]))
        for u in r["undecided"]: undecided.append("%s%s %s" % (j["func"], j["args"], u))
        if s not in kinds: continue
        bad = j.get("item") in (getattr(cx, "inexact_i", ()) if "i" in j.get("st", {}) else getattr(cx, "inexact_o", ()) if "o" in j.get("st", {}) else getattr(cx, "inexact_p", ()) if "p" in j.get("st", {}) else ())
        for v in r["viol"]:
            if kinds[s] is not None and v["kind"] not in kinds[s]: continue
            if v["kind"] == "harness": raise Broken(v["msg"])
            if bad: undecided.append("state set not exact: " + describe(cx, s, j, v)); continue
            key = "%s:%s:%s" % (s, "%s:%s" % tuple(j["alias"]) if "alias" in j else j.get("item", ""), v["msg"] if "alias" not in j else "missing" if v["msg"].endswith("not found") else "other")
            found.setdefault(key, (describe(cx, s, j, v), j, v))
    for key, text, j in extra_violations(cx, pid, kinds): found.setdefault(key, (text, j, None))
    for key, text in lints: found.setdefault(key, (text, None, None))
    if not found:   # nothing to report: then the analysis must have seen what it is about
        for s in kinds:
            for m in MARKS.get(s, []):
                if not reach.get(m): raise Broken("suite %s never reached %s" % (s, m))
            if s in PERENC and len(seen.get(s, ())) < cx.N: raise Broken("suite %s covered %d of %d encodings" % (s, len(seen.get(s, ())), cx.N))
        if cx.N < 198: raise Broken("only %d encodings declared" % cx.N)
        if cx.recs and len(incomplete) > len(cx.recs) // 4: raise Broken("%d of %d analyses did not complete: %s" % (len(incomplete), len(cx.recs), incomplete[0]))
    ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    for f in os.listdir(ev):
        if f.startswith(pid + ".violation"): os.unlink(os.path.join(ev, f))
    viol, knownhit = [], []
    for key, (text, j, v) in sorted(found.items()):
        k = re.sub(r"\s+", "_", key)
        if (pid, k) in KN: knownhit.append((k, text)); continue
        viol.append((k, text, j, v))
    for k, t in knownhit: print("KNOWN-FINDING: property=%s %s" % (pid, t))
    for n, (k, t, j, v) in enumerate(viol[:20]):
        fn = os.path.join(ev, "%s.violation-%d.json" % (pid, n))
        with open(fn, "w") as f: json.dump(dict(property=pid, key=k, text=t, job={x: y for x, y in (j or {}).items() if x in ("func", "args", "st", "init", "universe", "alias", "item")}, detail=v, replay="python3 /verif/check.py --replay " + fn), f, indent=1)
        print(t); 
        if v: 
            for q in v["stack"][:6]: print("    " + short(q))
        print("VIOLATION property=%s replay=%s" % (pid, fn))
    if len(viol) > 20: print("... and %d more" % (len(viol) - 20))
    for x in (undecided + incomplete)[:10]: print("UNDECIDED " + x[:300])
    cov = dict(explanation=EXPL[pid], suites=sorted(kinds), encodings=cx.N, analyses=len(cx.recs), functions_analysed=len(funcs), obligations_discharged=obl, obligation_sites=len(sites),
               partitions=paths, joins=merges, abstract_steps=steps, converter_states=dict(decoder=sum(len(values(x)) for x in cx._ist.values()) if cx._ist else 0, encoder=sum(len(values(x)) for x in cx._ost.values()) if cx._ost else 0),
               reached={k: v for k, v in reach.items() if not k.startswith("check:") and not k.startswith("inexact")}, undecided=(undecided + incomplete)[:50], notes=cx.notes[:50], sample_sites=sorted(map(short, sites))[:8], sample_functions=sorted(funcs)[:12], known_findings=[t for _, t in knownhit], **cx.extra)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=tier, seed=seed, level="other", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - T0, 1), violations=len(viol)), f, indent=1)
    print("%s: %d analyses, %d functions, %d obligations discharged, %d undecided, %d violations, %.0f s" % (pid, len(cx.recs), len(funcs) or cx.extra.get("functions", 0), sum(obl.values()), len(undecided) + len(incomplete), len(viol), time.time() - T0))
    return 1 if viol else 0

def replay(fn):
    d = json.load(open(fn)); j = d["job"]; print(d["text"])
    if not j: return main_with(d["property"])
    src = next(p for p in ("conv.c", "loop.c", "names.c", "utf.c", "tab.c", "esc.c", "cxx.cpp") if re.search(r"\b%s\(" % j["func"], read(os.path.join(VERIF, "harness", p))))
    with Work() as w:
        cx = Ctx(w, "quick", time.time() + 600)
        if src == "names.c": dr = _names(cx)[1 if j["func"] in ("h_anyname", "h_anyopen") else 0]
        elif src == "tab.c": dr = tab_drive(cx)
        elif src == "cxx.cpp": dr = cxx_drive(cx)
        else: dr = cx.harness(src)
        r = dr._run([dict(j, sec=300, paths=1000000)])[0]
        for v in r["viol"]: print(json.dumps(v, indent=1))
        for k, t in r["collect"].items(): print("collected %s: %s" % (k, t[:400]))
        return 1 if r["viol"] or r["collect"] else 0
def main_with(p): sys.argv = [sys.argv[0], p]; return main()

ASSUME = ["clang 18's translation of the sources to LLVM IR at -O0 preserves their meaning; x86-64, little-endian, char signed",
          "the analyser's transfer functions (engine/) are right; a violation is only reported after it was confirmed on a point partition, an undecided obligation is never reported as a violation",
          "malloc, realloc, free, memcpy, memset, memcmp, strcmp, strlen behave as their C definitions in harness/builtins.h"]
_E = "Abstract interpretation of the LLVM IR of the current sources (trace-partitioned, value sets per byte and exact finite evaluation of table look-ups) from every reachable converter state: "
EXPL = {
 "C01": _E + "each decoder is analysed for all inputs up to the length bound (8 bytes quick, 12 thorough), with the input object exactly that long, so that each read is an obligation; the loop is analysed over a most general converter.",
 "C02": _E + "each encoder and reset is analysed for every 32-bit character value, every room of 1..12 bytes (reset 0..8) with the output object exactly that long; each store is an obligation, and bytes reported must have been stored.",
 "C03": _E + "every load, store, call, shift and division on every path of converters and loop is an obligation (bounds, initialisation, null, lifetime), as is leaving each loop.",
 "C04": _E + "what each converter claims to consume or produce lies within what it was given; the loop's pointers and counts are compared with an independent description of the loop.",
 "C05": _E + "a failing step is analysed twice in a row and compared; the loop's state after each kind of failure is compared with the description, and a conversion continued after a full buffer with an uninterrupted one.",
 "C06": _E + "two analyses of the same symbolic input, one with one more byte visible, must agree; the loop is analysed with input handed over in two pieces.",
 "C07": _E + "two analyses of the same character, one with ample room and one with any room of 1..16 bytes, must agree, and too-small is only reported where it does not fit.",
 "C08": _E + "reset and flush functions from every reachable state; the ending sequence is fed to the decoder of the same encoding; the loop's flush is compared with the description.",
 "C09": _E + "look-up of each declared name in three spellings, of all 2^32 codepages, and of arbitrary bytes; index constants of both headers; against the declarations and the frozen list of names.",
 "C10": _E + "the open functions for declared names, codepages and indexes, suffixes, unknown names, arbitrary bytes and failing allocation.",
 "C11": _E + "the whole-string functions over a most general converter, all short inputs, result lengths and failing allocation, against the description.",
 "C12": _E + "the C++ functions linked with the C library, including exceptional edges and failing allocation, against the C interface on the same input.",
 "C13": "Effect analysis of the LLVM IR of iconv.c and reiconv.cpp: which module-level objects code reachable from the API can write (through any derived pointer, across calls), and which external functions it calls.",
 "C14": _E + "every character is encoded from every state encoder and decoder reach together, the bytes are decoded and compared; the exceptions found are compared with the frozen list. Repertoires of decoder and encoder are compared as exact sets.",
 "C15": _E + "the unit skipped per encoding, that it never exceeds the input, and the loop in discarding mode against the description.",
 "C16": _E + "return value and error code for each kind of outcome of the loop, flush and whole-string functions.",
 "C17": _E + "decoders and encoders of the Unicode encodings against independent definitions written from the standards, for all inputs up to the longest sequence and all 32-bit values.",
 "C18": _E + "each byte (or byte pair) and each 32-bit character value against the reference tables in tests/data.",
 "C19": _E + "after every sequence of up to two shift or escape sequences, line ends or characters, 5 arbitrary bytes (UTF-7: 3) are decoded and compared with an independent description of the escape sequences, whose characters are those of the component encodings.",
}
if __name__ == "__main__": sys.exit(main())
