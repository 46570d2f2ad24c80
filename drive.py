"""Runs analysis jobs, splitting those that exceed their partition budget, and computes reachable converter states."""
import time
from vlib import *
FULL = "0-18446744073709551615"
def ranges(t):
    r = []
    for x in t.split(","):
        if x: a = x.split("-"); r.append((int(a[0]), int(a[-1])))
    return r
def unranges(r): return ",".join("%d" % a if a == b else "%d-%d" % (a, b) for a, b in r)
def values(t, cap=None):
    o = []
    for a, b in ranges(t):
        if cap and b - a > cap: raise Broken("state set too large: " + t[:200])
        o += range(a, b + 1)
    return o
def setranges(s):
    r = []
    for v in sorted(s):
        if r and r[-1][1] == v - 1: r[-1][1] = v
        else: r.append([v, v])
    return [tuple(x) for x in r]

class Drive:
    def __init__(self, w, bc, deadline):
        self.w, self.bc, self.deadline, self.n = w, bc, deadline, 0
    def _run(self, jobs):
        for k, j in enumerate(jobs): j["id"] = str(k)
        self.n += 1
        rs = run_jobs(self.w, self.bc, jobs, tag="j%d" % self.n)
        out = [None] * len(jobs)
        for r in rs: out[int(r["id"])] = r
        return out
    @staticmethod
    def split(j):
        """Smaller jobs that together cover j, or None."""
        for key in j.get("keys", []):
            v = values(j["st"][key])
            if len(v) > 1:
                h = max(1, len(v) // 8) if len(v) > 8 else 1
                return [dict(j, st={key: unranges(setranges(v[i:i + h]))}) for i in range(0, len(v), h)]
        a = j["args"]
        for lo, hi, k in j.get("cuts", []):
            x, y = a[lo], a[hi]
            if x <= 0xffff and y > 0x10ffff: c = [x, 0x10000, 0x110000, y + 1]; k = 3
            elif x < y:
                k = min(k, y - x + 1); c = [x + (y - x + 1) * i // k for i in range(k + 1)]
            else: continue
            o = []
            for i in range(k):
                b = list(a); b[lo], b[hi] = c[i], c[i + 1] - 1; o.append(dict(j, args=b))
            return o
        return None
    def run(self, jobs, sec=12, paths=6000, last=120):
        """[(job, result)] ; results are complete unless r['incomplete']"""
        done, todo, rnd = [], [], 0
        for j in jobs:   # j["pre"]: how often to split before the first attempt (a hint about cost, no more)
            l = [j]
            for _ in range(j.get("pre", 0)): l = [y for x in l for y in (self.split(x) or [x])]
            todo += l
        todo.sort(key=lambda j: -j.get("pre", 0))
        while todo:
            left = self.deadline - time.time()
            if left < 5:
                done += [(j, no_result("", "not started: time")) for j in todo]
                break
            for j in todo:
                s = self.split(j)
                j["sec"] = min(left, sec * (rnd + 1) if s else last); j["paths"] = paths if s else 1000000
                if "st" in j:
                    j["init"] = ";".join("%s=%s" % x for x in j["st"].items()); j["universe"] = ";".join("%s=%s" % (k, FULL) for k in j["st"])
            rs = self._run(todo)
            nxt = []
            for j, r in zip(todo, rs):
                s = self.split(j) if r["incomplete"] and "budget" in r["why"] or r["undecided"] and not r["viol"] else None
                if s: nxt += s
                else: done.append((j, r))
            todo = nxt; rnd += 1
        # what is still undecided: once more without joining partitions after loops and calls, then without any joining
        for mode in (1, 2):
            again = [k for k, (j, r) in enumerate(done) if r["undecided"] and not r["viol"]]
            left = self.deadline - time.time()
            if not again or left < 60: break
            again = again[:200]
            rs = self._run([dict(done[k][0], nojoin=mode, sec=min(left / 4, 30), paths=200000) for k in again])
            for k, r in zip(again, rs):
                if not r["incomplete"] and len(r["undecided"]) < len(done[k][1]["undecided"]): done[k] = (dict(done[k][0], nojoin=mode), r)
        return done
    def fix(self, mk, key, items, cap=4096):
        """Least fixpoint of the states under `key` from 0. mk(item, states-string) -> job. Returns {item: states}, [(job, result)], set(inexact items)"""
        known = {i: {0} for i in items}; new = {i: {0} for i in items}; res = []; bad = set()
        for rnd in range(60):
            jobs = []
            for i in items:
                if new[i] and i not in bad:
                    j = mk(i); j["st"] = {key: unranges(setranges(new[i]))}; j["keys"] = [key]; j["item"] = i; jobs.append(j)
            if not jobs: break
            out = self.run(jobs)
            new = {i: set() for i in items}
            for j, r in out:
                i = j["item"]; res.append((j, r))
                if r["incomplete"] or r["inexact_states"]: bad.add(i)
                t = r["states"].get(key, "")
                try: v = set(values(t, cap))
                except Broken: bad.add(i); continue
                new[i] |= v - known[i]
            for i in items:
                known[i] |= new[i]
                if len(known[i]) > cap: bad.add(i); new[i] = set()
        return known, res, bad
