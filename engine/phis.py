"""Merge points seen as a graph: which values are carried round a loop, and what a value can be at the end of a round."""
from base import *


class Phis:
    def __init__(self, I):
        self.I, self.memo, self.cyc, self.pts = I, {}, None, None

    def phis(self, t):
        return {a for a in allsubs(t) if a.op == "phi" and a in self.I.phi_info}

    def reach(self, p):
        """the merge values that p's value depends on"""
        if p not in self.memo:
            seen, todo = set(), [p]
            while todo:
                for v, _, _ in self.I.phi_info[todo.pop()].values():
                    for a in self.phis(v):
                        if a not in seen:
                            seen.add(a)
                            todo.append(a)
            self.memo[p] = seen
        return self.memo[p]

    def single(self, p):
        vs = [(v, b) for v, _, b in self.I.phi_info[p].values()]
        return len(vs) == 1 and p not in self.phis(vs[0][0])

    def carried(self, p):
        if p.op != "phi" or p not in self.I.phi_info:
            return False
        if self.cyc is None:
            self.cyc = set()
            for pt, qs in self.points().items():
                fl = [b for _, _, b in self.I.phi_info[qs[0]].values()]
                if any(fl) and not all(fl):
                    self.cyc |= set(qs)
                elif len(fl) > 1:
                    # a loop head: some ways into it come from its own round, others do not
                    ar = [self.around(qs[0], ed) for ed in self.I.phi_info[qs[0]]]
                    if any(ar) and not all(ar):
                        self.cyc |= set(qs)
        return p in self.cyc

    def point(self, p):
        return p.args[:2] + (frozenset(self.I.phi_info[p]),)

    def steps(self, p):
        """({edge: (start value, facts)}, {edge: (value after a round, facts)})"""
        info = self.I.phi_info[p]
        fl = [b for _, _, b in info.values()]
        s, k = {}, {}
        for ed, (v, f, b) in info.items():
            back = b if any(fl) and not all(fl) else self.around(p, ed)
            (k if back else s)[ed] = (v, f)
        return s, k

    def points(self):
        if self.pts is None:
            self.pts = {}
            for q in self.I.phi_info:
                self.pts.setdefault(self.point(q), []).append(q)
        return self.pts

    def around(self, p, ed):
        """the edge comes back from p's own round"""
        pt = self.point(p)
        for q in self.points()[pt]:
            v, f, _ = self.I.phi_info[q][ed]
            for x in [v] + list(f):
                for a in self.phis(x):
                    if a is q or self.point(a) == pt or any(self.point(c) == pt for c in self.reach(a)):
                        return True
        return False

    def settle(self, t):
        """without values that never change in their loop"""
        for _ in range(12):
            m = {}
            for p in self.phis(t):
                vs = {v for v, _, _ in self.I.phi_info[p].values() if v is not p}
                if len(vs) == 1 and not all(b for _, _, b in self.I.phi_info[p].values()):
                    m[p] = vs.pop()
            if not m:
                return t
            t = subst(t, m)
        return t

    def expand(self, t, facts=frozenset()):
        """all the ways t and the facts can have come about: [(value, facts)], with loop-carried values left in"""
        out, todo, steps = [], [(t, frozenset(facts))], 0
        while todo:
            v, f = todo.pop()
            steps += 1
            if steps > 300:
                out.append((v, f))
                continue
            v = self.settle(v)
            f = frozenset(self.settle(g) for g in f) - {TRUE}
            if FALSE in f or clash(f) or entail.inconsistent(f):
                continue
            ps = [p for x in [v] + sorted(f, key=lambda g: g.id) for p in self.phis(x) if not self.carried(p)]
            if not ps:
                out.append((v, f))
                continue
            p = min(ps, key=lambda a: -a.id)
            same = [q for x in [v] + list(f) for q in self.phis(x) if q.args[:2] == p.args[:2] and not self.carried(q)]
            for ed, (_, g, _) in self.I.phi_info[p].items():
                m = {q: self.I.phi_info[q][ed][0] for q in same if ed in self.I.phi_info[q]}
                todo.append((subst(v, m), frozenset(subst(h, m) for h in f) | frozenset(g)))
        return out

    def counters(self, p):
        """values of p's loop that start at zero and go up by one"""
        out = []
        for q in self.I.phi_info:
            if q.args[:2] == p.args[:2] and self.carried(q):
                s, b = self.steps(q)
                if s and b and all(isint_const(x, 0) for v, f in s.values() for x, _ in self.expand(v, f)) and \
                        all(isint_const(sub(x, q), 1) for v, f in b.values() for x, _ in self.expand(v, f)):
                    out.append(q)
        return out
