"""Loader for the MIR dumps written by /verif/driver, plus CFG utilities."""
import json
import re
import sys

sys.setrecursionlimit(20000)

_norm = re.compile(r"(?<![\w:])(?:(?:xdvdfs|ciso|std)::)?(?:core|alloc)::")
_norm2 = re.compile(r"(?<![\w:])(?:xdvdfs|ciso)::std::")


def norm(p):
    """canonical spelling of std paths (core::, alloc:: and re-exports -> std::)"""
    return _norm2.sub("std::", _norm.sub("std::", p)).replace("futures::Future::", "std::future::Future::")


class Ty:
    __slots__ = ("k", "s", "p", "a", "e", "mut", "bits", "signed", "n", "box", "ctor")

    def __repr__(self):
        return self.s

    def range(self):
        if self.k == "int":
            if self.signed:
                return -(1 << (self.bits - 1)), (1 << (self.bits - 1)) - 1
            return 0, (1 << self.bits) - 1
        if self.k == "char":
            return 0, 0x10FFFF
        return None

    def is_adt(self, p):
        return self.k == "adt" and self.p == p


class Fn:
    pass


class Block:
    __slots__ = ("stmts", "term", "span", "cleanup", "succ")


class Program:
    def __init__(self):
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.consts = {}
        self.crates = []

    def load(self, fname, prefix=None):
        d = json.load(open(fname))
        raw = d["types"]
        tys = [Ty() for _ in raw]
        for t, r in zip(tys, raw):
            t.k = r["k"]
            t.s = norm(r["s"])
            t.p = norm(r["p"]) if "p" in r else None
            t.a = [tys[x] if isinstance(x, int) else x for x in r.get("a", [])]
            e = r.get("e")
            t.e = tys[e] if e is not None else None
            t.mut = r.get("mut", False)
            t.bits = r.get("bits")
            t.signed = r.get("signed")
            t.n = r.get("n")
            t.box = r.get("box", False)
            c = r.get("ctor")
            t.ctor = (norm(c[0]), c[1]) if c else None
        crate = d["crate"]
        self.crates.append(crate)
        for p, a in d["adts"].items():
            p = norm(p)
            if p in self.adts and not a["local"]:
                continue
            for v in a["variants"]:
                for f in v["fields"]:
                    f["ty"] = tys[f["ty"]] if f["ty"] is not None else None
                if v["discr"] is not None:
                    v["discr"] = int(v["discr"])
            self.adts[p] = a
        for i in d["impls"]:
            i = dict(i)
            i["self"] = tys[i["self"]]
            if "trait" in i:
                i["trait"] = norm(i["trait"])
                i["trait_args"] = [tys[x] if isinstance(x, int) else x for x in i["trait_args"]]
            i["methods"] = {k: norm(v) for k, v in i["methods"].items()}
            i["crate"] = crate
            self.impls.append(i)
        for p, c in d["consts"].items():
            self.consts[norm(p)] = (tys[c["ty"]], c["v"])
        for p, f in d["fns"].items():
            fn = Fn()
            fn.path = norm(p)
            fn.kind = f["kind"]
            fn.span = f["span"]
            fn.pub = f["pub"]
            fn.method = f.get("method")
            fn.trait = norm(f["trait"]) if "trait" in f else None
            fn.trait_default = norm(f["trait_default"]) if "trait_default" in f else None
            fn.trait_args = [tys[x] if isinstance(x, int) else x for x in f.get("trait_args", [])]
            fn.self_ty = tys[f["self"]] if "self" in f else None
            fn.derived = f.get("derived", False)
            fn.ret = tys[f["ret"]] if "ret" in f else None
            fn.argnames = f.get("argnames")
            fn.upvars = f.get("upvars")
            fn.parent = norm(f["parent"]) if "parent" in f else None
            fn.crate = crate
            fn.tys = tys
            self._body(fn, f["body"], tys)
            fn.promoted = []
            for pb in f["promoted"]:
                q = Fn()
                q.path = fn.path + "::{promoted}"
                q.tys = tys
                q.crate = crate
                self._body(q, pb, tys)
                fn.promoted.append(q)
            self.fns[fn.path] = fn

    def _body(self, fn, b, tys):
        fn.nargs = b["args"]
        fn.locals = [tys[l["ty"]] for l in b["locals"]]
        fn.names = {i: l["name"] for i, l in enumerate(b["locals"]) if "name" in l}
        fn.blocks = []
        for bl in b["blocks"]:
            B = Block()
            B.stmts = bl["s"]
            B.term = bl["t"]
            B.span = bl["sp"]
            B.cleanup = bl["cl"]
            B.succ = succs(bl["t"])
            fn.blocks.append(B)
        fn._cfg = None

    def subst_info(self, fn):
        if fn._cfg is None:
            fn._cfg = CFG(fn)
        return fn._cfg


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        out = [x[1] for x in t[2]]
        out.append(t[3])
        return out
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    if k == "yield":
        return [t[2]]
    return []


def place_uses(p, uses):
    uses.add(p[0])
    for e in p[1:]:
        if isinstance(e, list) and e[0] == "i":
            uses.add(e[1])


def op_uses(o, uses):
    if o[0] in ("c", "m"):
        place_uses(o[1], uses)


def rv_uses(r, uses, borrowed):
    k = r[0]
    if k in ("use", "repeat"):
        op_uses(r[1], uses)
    elif k == "cast":
        op_uses(r[2], uses)
    elif k == "bin":
        op_uses(r[2], uses)
        op_uses(r[3], uses)
    elif k == "un":
        op_uses(r[2], uses)
    elif k == "ref":
        place_uses(r[2], uses)
        if "*" not in r[2]:
            borrowed.add(r[2][0])
    elif k == "discr":
        place_uses(r[1], uses)
    elif k == "agg":
        for o in r[2]:
            op_uses(o, uses)


class CFG:
    """reachable blocks, loop-nesting order (weak topological order), liveness"""

    def __init__(self, fn):
        self.fn = fn
        n = len(fn.blocks)
        # reachable without unwind edges
        seen = {0}
        st = [0]
        while st:
            b = st.pop()
            for s in fn.blocks[b].succ:
                if s not in seen:
                    seen.add(s)
                    st.append(s)
        self.reach = seen
        self.preds = {b: [] for b in seen}
        for b in seen:
            for s in set(fn.blocks[b].succ):
                self.preds[s].append(b)
        self.order = {}
        self.loops = {}  # header -> set of blocks
        self._wto(seen, 0)
        self._liveness()

    def _wto(self, nodes, entry):
        cnt = [0]
        fn = self.fn

        def scc(nodes, entry_first):
            index = {}
            low = {}
            onst = set()
            st = []
            out = []
            ctr = [0]

            def visit(v0):
                work = [(v0, iter([s for s in fn.blocks[v0].succ if s in nodes]))]
                index[v0] = low[v0] = ctr[0]
                ctr[0] += 1
                st.append(v0)
                onst.add(v0)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in index:
                            index[w] = low[w] = ctr[0]
                            ctr[0] += 1
                            st.append(w)
                            onst.add(w)
                            work.append((w, iter([s for s in fn.blocks[w].succ if s in nodes])))
                            adv = True
                            break
                        elif w in onst:
                            low[v] = min(low[v], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        out.append((comp, v))

            for e in entry_first:
                if e in nodes and e not in index:
                    visit(e)
            for v in sorted(nodes):
                if v not in index:
                    visit(v)
            out.reverse()
            return out

        def rec(nodes, entries):
            for comp, root in scc(nodes, entries):
                cs = set(comp)
                if len(comp) == 1:
                    b = comp[0]
                    self.order[b] = cnt[0]
                    cnt[0] += 1
                    if b in fn.blocks[b].succ:
                        self.loops[b] = {b}
                    continue
                # head: member with a predecessor outside (first in dfs = root)
                head = root
                self.order[head] = cnt[0]
                cnt[0] += 1
                self.loops[head] = cs
                rest = cs - {head}
                ent = [s for s in fn.blocks[head].succ if s in rest]
                rec_nodes(rest, ent, head)

        def rec_nodes(rest, ent, head):
            # remove edges into head: head not in rest so they vanish
            for comp, root in scc(rest, ent):
                cs = set(comp)
                if len(comp) == 1:
                    b = comp[0]
                    self.order[b] = cnt[0]
                    cnt[0] += 1
                    if b in fn.blocks[b].succ:
                        self.loops[b] = {b}
                    continue
                self.order[root] = cnt[0]
                cnt[0] += 1
                self.loops[root] = cs
                r2 = cs - {root}
                rec_nodes(r2, [s for s in fn.blocks[root].succ if s in r2], root)

        rec(set(nodes), [entry])

    def _liveness(self):
        fn = self.fn
        use = {}
        deff = {}
        borrowed = set()
        for b in self.reach:
            B = fn.blocks[b]
            u, d = set(), set()

            def addu(x):
                for l in x:
                    if l not in d:
                        u.add(l)

            for s in B.stmts:
                if s[0] == "=":
                    us = set()
                    rv_uses(s[2], us, borrowed)
                    if len(s[1]) > 1:
                        place_uses(s[1], us)
                    addu(us)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == "setd":
                    us = set()
                    place_uses(s[1], us)
                    addu(us)
                elif s[0] == "dead":
                    d.add(s[1])
            t = B.term
            us = set()
            if t[0] == "switch":
                op_uses(t[1], us)
            elif t[0] == "call":
                for o in t[2]:
                    op_uses(o, us)
                if "op" in t[1]:
                    op_uses(t[1]["op"], us)
                if len(t[3]) > 1:
                    place_uses(t[3], us)
            elif t[0] == "assert":
                op_uses(t[1], us)
                for o in t[4]:
                    op_uses(o, us)
            elif t[0] == "ret":
                us.add(0)
            elif t[0] == "yield":
                op_uses(t[1], us)
            addu(us)
            if t[0] == "call" and len(t[3]) == 1:
                d.add(t[3][0])
            use[b] = u
            deff[b] = d
        live = {b: set() for b in self.reach}
        ch = True
        order = sorted(self.reach, key=lambda b: -self.order[b])
        while ch:
            ch = False
            for b in order:
                o = set()
                for s in fn.blocks[b].succ:
                    o |= live[s]
                n = use[b] | (o - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = live
        self.borrowed = borrowed


def _droplive(cfg):
    """liveness in which drops count as uses"""
    fn = cfg.fn
    use, kill = {}, {}
    for b in cfg.reach:
        B = fn.blocks[b]
        u, d = set(), set()
        for s in B.stmts:
            if s[0] == "dead":
                d.add(s[1])
            elif s[0] == "=" and len(s[1]) == 1:
                d.add(s[1][0])
        if B.term[0] == "drop" and B.term[1][0] not in d:
            u.add(B.term[1][0])
        if B.term[0] == "call" and len(B.term[3]) == 1:
            d.add(B.term[3][0])
        use[b], kill[b] = u, d
    live = {b: set() for b in cfg.reach}
    ch = True
    order = sorted(cfg.reach, key=lambda b: -cfg.order[b])
    while ch:
        ch = False
        for b in order:
            o = set()
            for s in fn.blocks[b].succ:
                o |= live[s]
            n = use[b] | (o - kill[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return live


_oinit = CFG.__init__


def _init(self, fn):
    _oinit(self, fn)
    self.droplive = _droplive(self)


CFG.__init__ = _init


def _alias(self, name):
    """re-exported spellings: match by last two path segments (type::method) when unique"""
    if not hasattr(self, "_al"):
        self._al = {}
        for p in self.fns:
            if p.startswith("<") or "{" in p:
                continue
            q = p.split("::")
            if len(q) >= 2:
                import re as _re
                k = _re.sub(r"<.*?>", "", "::".join(q[-2:]))
                self._al.setdefault((q[0], simp_tail(p)), []).append(p)
        self.traits = {f.trait for f in self.fns.values() if f.trait} | {f.trait_default for f in self.fns.values() if f.trait_default} \
            | {i["trait"] for i in self.impls if "trait" in i}
    if name.startswith("<"):
        return None
    c = self._al.get((name.split("::")[0], simp_tail(name)))
    if c and len(c) == 1 and name.split("::")[0] in ("xdvdfs", "xdvdfsd"):
        return self.fns[c[0]]
    return None


def simp_tail(p):
    import lib
    return "::".join(lib.simp(p).split("::")[-2:])


Program.alias = _alias
Program.traits = frozenset()
