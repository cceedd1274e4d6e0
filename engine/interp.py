"""Interprocedural forward dataflow analysis over the compiler's MIR.

Abstract interpretation with a term (value-number) domain.  Each program point
holds, per partition (enum variants / boolean constants of the live locals),
one abstract state: an abstract memory, a set of facts that hold on every path
reaching the point, the sets of effects that must / may have happened, and the
set of possible states of the rule's typestate automaton.  States are joined at
every merge; loops are iterated to a fixpoint.  Nothing is executed and no path
is handed to a solver.
"""
import heapq
import os
import sys

from terms import *
from mir import norm, CFG

CAP = 40          # partitions per block before collapsing
DEPTH = 40
SPLIT_DEPTH = 3


class AnalysisError(Exception):
    pass


class State:
    __slots__ = ("mem", "facts", "must", "may", "mon")

    def __init__(self, mem=None, facts=frozenset(), must=frozenset(), may=frozenset(), mon=frozenset()):
        self.mem = mem if mem is not None else {}
        self.facts = facts
        self.must = must
        self.may = may
        self.mon = mon

    def copy(self):
        return State(dict(self.mem), self.facts, self.must, self.may, self.mon)

    def same(self, o):
        return (self.facts == o.facts and self.must == o.must and self.may == o.may
                and self.mon == o.mon and self.mem == o.mem)


class Event:
    __slots__ = ("name", "args", "snap", "facts", "must", "may", "mon", "ctx", "bb", "span", "ret",
                 "id", "argtys", "kind", "goal", "callee", "fn", "state", "dest", "self_ty")

    def __repr__(self):
        return "%s(%s) @%s" % (self.name, ", ".join(show(a) for a in self.args), self.span)


def int_or_none(n):
    try:
        return int(n)
    except (TypeError, ValueError):
        return None


class Call:
    __slots__ = ("name", "args", "argtys", "destty", "ctx", "bb", "key", "fn", "span", "callee", "rname", "line")


class Opts:
    def __init__(self, opaque=None, monitor=None, mon0=(None,), esp=False, inline=None, drop_types=(), depth=DEPTH,
                 intercept=None, keep_state=False, inline_all=True, cap=CAP, pure=(), result=None, exact=False, learned=None, disj=False):
        self.disj = disj            # remember at a merge which of the two branch conditions held, as a disjunction
        self.learned = learned      # (monitor value, state, interp) -> None | [values]: called with what a branch has taught
        self.exact = exact          # refuse branches whose condition contradicts the facts taken together
        self.opaque = opaque or (lambda p: False)
        self.monitor = monitor
        self.mon0 = frozenset(mon0)
        self.esp = esp
        self.drop_types = drop_types
        self.depth = depth
        self.intercept = intercept
        self.keep_state = keep_state
        self.cap = cap
        self.pure = set(pure)
        self.result = result        # (interp, state, event, value) -> None | [(state, value)]: case split on a call's outcome


class Interp:
    def __init__(self, prog, opts=None):
        self.p = prog
        self.o = opts or Opts()
        self.ctxs = []          # id -> (parent, bb, path, key)
        self.ctxid = {}
        self.children = {}
        self.ev = {}            # ctx -> {(bb,key): [Event]}
        self.phi_info = {}      # phi -> {edge: (value, facts)}
        self.phi_loop = {}
        self.opaque_seen = {}   # name -> count (coverage)
        self.inlined = {}
        self.notes = []
        self.steps = 0
        self.loopcache = {}
        self.recursions = set()
        import lib
        self.lib = lib.Lib(self)

    # ---------------------------------------------------------------- contexts
    def ctx(self, parent, bb, path, key):
        k = (parent, bb, path, key)
        i = self.ctxid.get(k)
        if i is None:
            i = len(self.ctxs)
            self.ctxid[k] = i
            self.ctxs.append(k)
            self.children.setdefault((parent, bb, key), []).append(i)
            d = 0 if parent is None else self.depth(parent) + 1
            self._depth = getattr(self, "_depth", {})
            self._depth[i] = d
        return i

    def depth(self, c):
        return self._depth[c]

    def stack(self, c):
        out = []
        while c is not None:
            out.append(self.ctxs[c][2])
            c = self.ctxs[c][0]
        return out

    def clear_events(self, ctx):
        if ctx in self.ev:
            for (bb, key) in list(self.ev[ctx]):
                self.clear_block(ctx, bb, key)
        self.ev[ctx] = {}

    def clear_block(self, ctx, bb, key):
        self.ev.get(ctx, {}).pop((bb, key), None)
        for c in self.children.get((ctx, bb, key), ()):
            self.clear_events(c)

    def events(self):
        for c, d in self.ev.items():
            for k, l in d.items():
                yield from l

    def ctx_in_loop(self, actx, abb, ctx, loop):
        """is (actx, abb) inside `loop` (blocks of the function instance ctx)?"""
        while actx is not None and actx != ctx:
            abb = self.ctxs[actx][1]
            actx = self.ctxs[actx][0]
        return actx == ctx and abb in loop

    def atom_site(self, a):
        if a.op == "phi":
            return a.args[0], a.args[1]
        if a.op == "sym" and a.args[0] in ("call", "hv", "new"):
            return a.args[1], a.args[2]
        return None

    def has_loop_atom(self, t, ctx, head, loop, cache):
        r = cache.get(t)
        if r is None:
            r = False
            for a in subs(t):
                s = cache.get(("a", a))
                if s is None:
                    x = self.atom_site(a)
                    s = bool(x) and self.ctx_in_loop(x[0], x[1], ctx, loop)
                    cache[("a", a)] = s
                if s:
                    r = True
                    break
            cache[t] = r
        return r

    # ---------------------------------------------------------------- keys
    def shape(self, v, d=0):
        if v.op == "agg":
            k = v.args[0]
            if k in ("closure", "coroutine"):
                return None
            if k in ("#IterV", "#IterR", "std::ops::Range"):
                # loops over a short constant sequence are unrolled: the position is part of the partition key
                a, b = v.args[2] if len(v.args[2]) == 2 else (None, None)
                if k == "std::ops::Range":
                    i, n = int_val(a), int_val(b)
                else:
                    i = int_val(b)
                    n = int_val(length(a)) if k == "#IterV" else None
                    if k == "#IterR" and a.op == "ref" and i is not None and self._kst is not None:
                        n = int_val(length(self.load(self._kst, a)))
                if i is not None and n is not None and 0 <= i <= n <= 8:
                    return ("at", i)
                return None
            a = self.p.adts.get(k)
            if k in ("tuple",):
                if d >= 2:
                    return None
                r = tuple(self.shape(x, d + 1) for x in v.args[2])
                return r if any(x is not None for x in r) else None
            if k in self.lib.nosplit:
                return None
            if a is not None and a["kind"] == "enum" or k in self.lib.enums:
                if d >= SPLIT_DEPTH:
                    return None
                r = tuple(self.shape(x, d + 1) for x in v.args[2])
                return (v.args[1],) + (r if any(x is not None for x in r) else ())
            if d >= 2:
                return None
            r = tuple(self.shape(x, d + 1) for x in v.args[2])
            return r if any(x is not None for x in r) else None
        if v.op == "bool":
            return v.args[0]
        return None

    _kst = None

    def key(self, st, ctx, bb, cfg):
        out = []
        self._kst = st
        for l in cfg.keylive[bb]:
            v = st.mem.get(("L", ctx, l))
            if v is not None:
                s = self.shape(v)
                if s is not None:
                    out.append((l, s))
        k = tuple(out)
        if self.o.esp:
            k = (k, tuple(sorted(map(repr, st.mon))))
        return k

    # ---------------------------------------------------------------- joins
    def join(self, ctx, bb, key, edges, header, cfg):
        """edges: {edge_id: State}; edge_id[0] = source block"""
        if len(edges) == 1 and not header:
            return next(iter(edges.values()))
        ids = sorted(edges, key=repr)
        sts = [edges[i] for i in ids]
        loop = cfg.loops.get(bb) if header else None
        back = [loop is not None and i[0] in loop for i in ids]
        cache = {}
        out = State()
        roots = set(sts[0].mem)
        for s in sts[1:]:
            roots |= set(s.mem)
        sticky = self._sticky
        self._newphis = []
        for r in roots:
            vals = []
            miss = False
            if r[0] == "D" and any(back) and self.has_loop_atom(r[1], ctx, bb, loop, cache):
                continue
            for s in sts:
                v = s.mem.get(r)
                if v is None:
                    if r[0] == "D":
                        v = self.default(r)
                    else:
                        miss = True
                        break
                vals.append(v)
            if miss:
                continue
            ty = None
            if r[0] == "L" and r[1] == ctx:
                ty = cfg.fn.locals[r[2]]
            out.mem[r] = self.join_val(ctx, bb, key, (r,), vals, ids, sts, back, loop, cache, ty, sticky)
        fs = None
        for s, b in zip(sts, back):
            f = s.facts
            if b:
                f = frozenset(x for x in f if not self.has_loop_atom(x, ctx, bb, loop, cache))
            fs = f if fs is None else fs & f
        lifted = self.lift(sts, self._newphis, ctx, bb, loop, cache) if len(sts) > 1 else ()
        out.facts = fs | lifted if lifted else fs
        if self.o.disj and len(sts) == 2 and not header:
            lost = [[x for x in s.facts - out.facts if x.op in ("le", "eq") or x.op == "not" and x.args[0].op == "eq"] for s in sts]
            if all(0 < len(l) <= 4 for l in lost):
                conj = []
                for l in lost:
                    c = TRUE
                    for x in sorted(l, key=lambda x: x.id):
                        c = andb(c, x)
                    conj.append(c)
                out.facts = out.facts | {orb(*conj)}
        must = sts[0].must
        may = sts[0].may
        mon = sts[0].mon
        for s in sts[1:]:
            must = must & s.must
            may = may | s.may
            mon = mon | s.mon
        out.must, out.may, out.mon = must, may, mon
        return out

    def join_val(self, ctx, bb, key, loc, vals, ids, sts, back, loop, cache, ty, sticky):
        v0 = vals[0]
        pk = (ctx, bb, key, loc)
        if pk not in sticky:
            forced = loop is not None and any(
                b and self.has_loop_atom(v, ctx, bb, loop, cache) for v, b in zip(vals, back))
            if all(v is v0 for v in vals) and not forced:
                return v0
            if all(v.op == "agg" and v.args[:2] == v0.args[:2] and len(v.args[2]) == len(v0.args[2]) for v in vals) \
                    and len(loc) < 8:
                if not forced or v0.args[2]:
                    fs = []
                    ft = None
                    a = self.p.adts.get(v0.args[0])
                    if a is not None and v0.args[1] is not None and v0.args[1] < len(a["variants"]):
                        ft = a["variants"][v0.args[1]]["fields"]
                    for i in range(len(v0.args[2])):
                        t = ft[i]["ty"] if ft is not None and i < len(ft) else None
                        if t is not None and t.k not in ("array", "int", "bool"):
                            t = None
                        fs.append(self.join_val(ctx, bb, key, loc + (i,), [v.args[2][i] for v in vals], ids, sts, back,
                                                loop, cache, t, sticky))
                    return mk("agg", v0.args[0], v0.args[1], tuple(fs), ty=v0.ty)
            if all(v.op == "ref" and v.args[0] == v0.args[0] and len(v.args[1]) == len(v0.args[1])
                   and v.args[2] == v0.args[2] for v in vals):
                # same root, same path shape
                ok_ = True
                for j in range(len(v0.args[1])):
                    st0 = v0.args[1][j]
                    for v in vals:
                        s = v.args[1][j]
                        if s[0] != st0[0] or (s[0] == "f" and s != st0):
                            ok_ = False
                if ok_ and not (forced and self.has_loop_root(v0.args[0], ctx, bb, loop, cache)):
                    path = []
                    for j in range(len(v0.args[1])):
                        st0 = v0.args[1][j]
                        if st0[0] == "f":
                            path.append(st0)
                        else:
                            path.append((st0[0],) + tuple(
                                self.join_val(ctx, bb, key, loc + (j, k), [v.args[1][j][k] for v in vals], ids, sts,
                                              back, loop, cache, None, sticky) for k in range(1, len(st0))))
                    return mk("ref", v0.args[0], tuple(path), v0.args[2])
            if loop is not None:
                sticky.add(pk)
        if ty is None:
            for v in vals:
                if v.ty is not None:
                    ty = v.ty
                    break
        phi = mk("phi", ctx, bb, key, loc, ty=ty)
        self.phi_info[phi] = {i: (v, s.facts, b) for i, v, s, b in zip(ids, vals, sts, back)}
        self.phi_loop[phi] = loop
        self._newphis.append((phi, vals))
        return phi

    def lift(self, sts, phis, ctx, bb, loop, cache):
        """facts that hold of the merged value on every incoming edge, restated for the merged value"""
        out = set()
        for phi, vals in phis:
            piv = next((k for k, v in enumerate(vals) if v.op in ("sym", "phi")), None)
            if piv is None:
                continue
            v0 = vals[piv]
            for f in sts[piv].facts:
                if v0 not in subs(f):
                    continue
                g = subst(f, {v0: phi})
                if loop is not None and any(a is not phi and self.has_loop_atom(a, ctx, bb, loop, cache) for a in subs(g)):
                    continue
                for v, s in zip(vals, sts):
                    h = subst(g, {phi: v})
                    if h is not TRUE and h not in s.facts:
                        break
                else:
                    out.add(g)
        return out

    def has_loop_root(self, r, ctx, bb, loop, cache):
        return r[0] == "D" and self.has_loop_atom(r[1], ctx, bb, loop, cache)

    # ---------------------------------------------------------------- memory
    def default(self, root):
        if root[0] == "D":
            return mk("deref", root[1], ty=None)
        if root[0] == "C":
            return root[1]
        return mk("sym", "uninit", root)

    def get(self, st, root):
        v = st.mem.get(root)
        if v is None:
            v = self.default(root)
        return v

    def read(self, st, root, path, ty=None):
        v = self.get(st, root)
        for i, s in enumerate(path):
            v = proj(v, s, ty if i == len(path) - 1 else None)
        if ty is not None and v.ty is None and v.op != "lin":
            v.ty = ty
        return v

    def write(self, st, root, path, val):
        if root[0] == "C":
            return
        st.mem[root] = store(self.get(st, root), path, val)

    def ptr_loc(self, st, p):
        """pointer value -> (root, path)"""
        if p.op == "ref":
            return p.args[0], p.args[1]
        return ("D", p), ()

    def load(self, st, p, ty=None):
        if p.op == "agg" and p.args[0] in ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc"):
            return p.args[2][0]
        r, path = self.ptr_loc(st, p)
        return self.read(st, r, path, ty)

    def set(self, st, p, v):
        r, path = self.ptr_loc(st, p)
        self.write(st, r, path, v)

    def deep(self, st, v, n=4):
        """value behind any chain of references"""
        while n and (v.op == "ref" or v.op == "agg" and v.args[0] in
                     ("std::boxed::Box", "std::sync::Arc", "std::rc::Rc")):
            v = self.load(st, v)
            n -= 1
        return v

    @staticmethod
    def extend(path, step):
        if path and path[-1][0] == "s":
            a = path[-1][1]
            if step[0] == "e":
                return path[:-1] + (("e", add(a, step[1])),)
            if step[0] == "s":
                return path[:-1] + (("s", add(a, step[1]), add(a, step[2])),)
        return path + (step,)

    def sub_ptr(self, p, step, mut=None):
        if p.op == "ref":
            return mk("ref", p.args[0], self.extend(p.args[1], step), p.args[2] if mut is None else mut)
        return mk("ref", ("D", p), (step,), True if mut is None else mut)

    def place(self, st, ctx, fn, pl):
        root = ("L", ctx, pl[0])
        path = ()
        ty = fn.locals[pl[0]]
        variant = None
        tys = fn.tys
        for e in pl[1:]:
            if e == "*":
                if ty is not None and ty.box:
                    path = self.extend(path, ("f", None, 0))
                    ty = ty.a[0] if ty.a and not isinstance(ty.a[0], str) else None
                else:
                    p = self.read(st, root, path)
                    if p.op == "agg" and p.args[0] == "std::boxed::Box":
                        path = self.extend(path, ("f", None, 0))
                    else:
                        root, path = self.ptr_loc(st, p)
                    ty = ty.e if ty is not None else None
                variant = None
            elif e[0] == "f":
                path = self.extend(path, ("f", variant, e[1]))
                ty = tys[e[2]]
                variant = None
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                i = self.read(st, ("L", ctx, e[1]), (), fn.locals[e[1]])
                path = self.extend(path, ("e", i))
                ty = ty.e if ty is not None else None
            elif e[0] == "ci":
                if e[2]:
                    n = length(self.read(st, root, path))
                    path = self.extend(path, ("e", sub(n, INT(e[1]))))
                else:
                    path = self.extend(path, ("e", INT(e[1])))
                ty = ty.e if ty is not None else None
            elif e[0] == "ss":
                n = length(self.read(st, root, path))
                b = sub(n, INT(e[2])) if e[3] else INT(e[2])
                path = self.extend(path, ("s", INT(e[1]), b))
            else:
                raise AnalysisError("place elem %r" % (e,))
        if variant is not None:
            pass
        return root, path, ty

    # ---------------------------------------------------------------- constants
    def const(self, fn, c, st=None, ctx=None):
        ty = fn.tys[c["ty"]]
        if "promoted" in c:
            try:
                return self.promoted(fn, c)
            except AnalysisError:
                return mk("sym", "promoted", fn.path, c["promoted"], ty=ty)
        v = c.get("v")
        if v is None or "opaque" in v:
            if c.get("name"):
                n = norm(c["name"])
                if n in self.p.consts:
                    cty, cv = self.p.consts[n]
                    if cv is not None and "opaque" not in cv:
                        return self.constval(cv, ty, fn)
                return mk("sym", "const", n, ty=ty)
            return mk("sym", "const", ty.s, ty=ty)
        return self.constval(v, ty, fn)

    def constval(self, v, ty, fn):
        if "int" in v:
            x = int(v["int"])
            return INT(x)
        if "bool" in v:
            return BOOL(v["bool"])
        if "char" in v:
            c = v["char"]
            return INT(c if isinstance(c, int) else ord(c))
        if "str" in v:
            s = STR(v["str"])
            if ty is not None and ty.k == "ref":
                return mk("ref", ("C", s), (), False)
            return s
        if "zst" in v:
            if ty.k == "fndef" or ty.k == "closure":
                return mk("fn", ty.p, ty.ctor, tuple(a.s if not isinstance(a, str) else a for a in ty.a))
            if ty.k == "tuple":
                return UNIT
            if ty.k == "adt":
                return agg(ty.p, 0, ())
            return mk("sym", "zst", ty.s)
        if "ref" in v:
            inner = self.constval(v["ref"], ty.e if ty is not None else None, fn)
            return mk("ref", ("C", inner), (), False)
        if "arr" in v:
            e = ty.e if ty is not None else None
            return mk("arr", tuple(self.constval(x, e, fn) for x in v["arr"]))
        if "agg" in v:
            fs = []
            key = "tuple"
            var = v.get("variant", 0) or 0
            ftys = [None] * len(v["agg"])
            if ty is not None and ty.k == "adt":
                key = ty.p
                a = self.p.adts.get(key)
                if a:
                    ftys = [f["ty"] for f in a["variants"][var]["fields"]]
            elif ty is not None and ty.k == "tuple":
                ftys = ty.a
            for x, t in zip(v["agg"], ftys):
                fs.append(self.constval(x, t if not isinstance(t, str) else None, fn))
            return agg(key, var, fs)
        if "static" in v:
            return mk("ref", ("D", mk("sym", "static", norm(v["static"]))), (), False)
        return mk("sym", "const", repr(v)[:60], ty=ty)

    def promoted(self, fn, c):
        """evaluate a promoted body (straight-line constants)"""
        pf = fn
        of = c.get("of")
        if of and norm(of) != fn.path and norm(of) in self.p.fns:
            pf = self.p.fns[norm(of)]
        idx = c["promoted"]
        q = pf.promoted[idx]
        st = State()
        pctx = ("P", pf.path, idx)
        b = 0
        for _ in range(50):
            B = q.blocks[b]
            for s in B.stmts:
                if s[0] == "=":
                    self.assign(st, pctx, q, s)
            if B.term[0] == "ret":
                v = self.get(st, ("L", pctx, 0))
                return self.freeze(st, v, pctx)
            if B.term[0] in ("goto", "drop"):
                b = B.succ[0]
            elif B.term[0] == "assert":
                b = B.succ[0]
            elif B.term[0] == "call":
                call = self.mkcall(st, pctx, b, (), q, B)
                if call.callee and call.callee.get("ctor_ty") is not None:
                    pass
                r = self.lib.builtin(st, call)
                if r is None or len(r) != 1:
                    v = app(call.name, *[self.freeze(st, a, pctx) for a in call.args])
                else:
                    st, v = r[0]
                root, path, ty = self.place(st, pctx, q, B.term[3])
                self.write(st, root, path, v)
                b = B.succ[0]
            else:
                raise AnalysisError("promoted")
        raise AnalysisError("promoted")

    def freeze(self, st, v, pctx):
        """turn refs into promoted locals into refs to constants"""
        if v.op == "ref":
            r, path = v.args[0], v.args[1]
            if r[0] == "L" and r[1] == pctx:
                return mk("ref", ("C", self.freeze(st, self.get(st, r), pctx)), path, False)
            return v
        if v.op == "agg":
            return mk("agg", v.args[0], v.args[1], tuple(self.freeze(st, x, pctx) for x in v.args[2]))
        if v.op == "arr":
            return mk("arr", tuple(self.freeze(st, x, pctx) for x in v.args[0]))
        if v.op == "app":
            return mk("app", v.args[0], tuple(self.freeze(st, x, pctx) for x in v.args[1]))
        return v

    # ---------------------------------------------------------------- operands, rvalues
    def operand(self, st, ctx, fn, o):
        if o[0] == "k":
            return self.const(fn, o[1])
        root, path, ty = self.place(st, ctx, fn, o[1])
        v = self.read(st, root, path, ty)
        if v.ty is None and ty is not None and ty.k == "int" and v.op in ("field", "elem"):
            v.ty = ty
        if o[0] == "m" and not path and root[0] == "L" and len(o[1]) == 1:
            t = fn.locals[o[1][0]]
            if not (t.k in ("int", "bool", "char") or t.k == "ref"):
                st.mem.pop(root, None)
        return v

    def optype(self, fn, o):
        if o[0] == "k":
            return fn.tys[o[1]["ty"]]
        t = fn.locals[o[1][0]]
        for e in o[1][1:]:
            if e == "*":
                t = (t.a[0] if t.box and t.a and not isinstance(t.a[0], str) else t.e) if t is not None else None
            elif e[0] == "f":
                t = fn.tys[e[2]]
            elif e[0] in ("i", "ci"):
                t = t.e if t is not None else None
        return t

    def arith(self, op, a, b, ty, facts=frozenset()):
        if ty is not None and ty.k == "bool" or a.op == "bool" or b.op == "bool":
            if op == "Eq":
                if a.op == "bool":
                    return b if a.args[0] else notb(b)
                if b.op == "bool":
                    return a if b.args[0] else notb(a)
                return eqv(a, b)
            if op == "Ne":
                return notb(self.arith("Eq", a, b, ty))
            if op == "BitAnd":
                return andb(a, b)
            if op == "BitOr":
                return orb(a, b)
            if op == "BitXor":
                return notb(self.arith("Eq", a, b, ty))
            if op in ("Lt", "Le", "Gt", "Ge"):
                return mk("cmpb", op, a, b)
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        if op == "Mul":
            return mul(a, b)
        if op == "Div":
            return div(a, b)
        if op == "Rem":
            return rem(a, b)
        isint = ty is None or ty.k in ("int", "char", "bool")
        if op in ("Eq", "Ne"):
            r = eq(a, b) if isint else eqv(a, b)
            return r if op == "Eq" else notb(r)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        x, y = int_val(a), int_val(b)
        if op == "BitAnd":
            if x is not None and y is not None:
                return INT(x & y)
            # masks: x & (2^k - 1) = x mod 2^k ; x & !(2^k-1) = x - x mod 2^k
            for u, m in ((a, y), (b, x)):
                if m is not None and m >= 0:
                    if (m & (m + 1)) == 0:
                        return rem(u, INT(m + 1))
                    if ty is not None and ty.k == "int" and not ty.signed:
                        inv = m ^ ((1 << ty.bits) - 1)
                        if (inv & (inv + 1)) == 0:
                            return sub(u, rem(u, INT(inv + 1)))
            # x & !(e) handled by 'bnot'
            for u, m in ((a, b), (b, a)):
                if m.op == "bnot" and int_val(m.args[0]) is not None:
                    k = int_val(m.args[0])
                    if k >= 0 and (k & (k + 1)) == 0:
                        return sub(u, rem(u, INT(k + 1)))
            return mk("band", *sorted((a, b)), ty=ty)
        if op == "BitOr":
            if x is not None and y is not None:
                return INT(x | y)
            if x == 0:
                return b
            if y == 0:
                return a
            return mk("bor", *sorted((a, b)), ty=ty)
        if op == "BitXor":
            if x is not None and y is not None:
                return INT(x ^ y)
            return mk("bxor", *sorted((a, b)), ty=ty)
        if op in ("Shl", "ShlUnchecked"):
            if y is not None and 0 <= y < 128:
                if ty is not None and ty.k == "int":
                    # bits shifted out are lost: exact only when the product provably fits
                    r = mul(a, INT(1 << y))
                    if ty.signed:
                        return r if int_val(r) is not None else mk("shl", a, b, ty=ty)
                    if int_val(r) is not None:
                        return INT(int_val(r) & ((1 << ty.bits) - 1))
                    import entail
                    if entail.quick_range(r, facts, ty.range()):
                        return r
                    return rem(r, INT(1 << ty.bits))
            return mk("shl", a, b, ty=ty)
        if op in ("Shr", "ShrUnchecked"):
            if y is not None and 0 <= y < 128:
                return div(a, INT(1 << y))
            return mk("shr", a, b, ty=ty)
        if op == "Offset":
            return mk("offset", a, b)
        if op == "Cmp":
            return mk("cmp3", a, b)
        return mk("bin", op, a, b)

    def rvalue(self, st, ctx, fn, r):
        k = r[0]
        if k == "use":
            return self.operand(st, ctx, fn, r[1])
        if k == "repeat":
            v = self.operand(st, ctx, fn, r[1])
            n = r[2]
            if isinstance(n, int):
                return mk("fill", v, INT(n))
            try:
                return mk("fill", v, INT(int(n)))
            except (TypeError, ValueError):
                return mk("fill", v, mk("sym", "constn", str(n)))
        if k == "ref":
            root, path, ty = self.place(st, ctx, fn, r[2])
            if ty is not None and ty.k == "array" and int_or_none(ty.n) is not None:
                n = length(self.read(st, root, path))
                if int_val(n) is None:
                    self.assume(st, eq(n, INT(int_or_none(ty.n))))
            if root[0] == "D" and not path and "*" in r[2]:
                return root[1]  # reborrow of an opaque pointer
            return mk("ref", root, path, bool(r[1]))
        if k == "cast":
            v = self.operand(st, ctx, fn, r[2])
            if r[1] == "IntToInt":
                return self.intcast(st, v, fn.tys[r[3]], fn.tys[r[4]])
            if r[1].startswith("Coerce") or r[1] in ("PtrToPtr", "Transmute", "FnPtrToPtr", "Subtype") or r[1].startswith("Pointer"):
                return v
            return mk("cast", r[1], v, ty=fn.tys[r[3]])
        if k == "bin":
            a = self.operand(st, ctx, fn, r[2])
            b = self.operand(st, ctx, fn, r[3])
            ty = fn.tys[r[4]]
            op = r[1]
            if op.endswith("WithOverflow"):
                base = op[:-len("WithOverflow")]
                v = self.arith(base, a, b, ty)
                rng = ty.range()
                okc = andb(le(INT(rng[0]), v), le(v, INT(rng[1])))
                if v.op in ("mul", "divt", "remt") and v.ty is None:
                    v.ty = ty
                return tup(v, notb(okc))
            if op in ("AddUnchecked", "SubUnchecked", "MulUnchecked"):
                op = op[:-len("Unchecked")]
            v = self.arith(op, a, b, ty, st.facts)
            if v.op not in ("lin", "bool") and v.ty is None and op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                v.ty = ty
            return v
        if k == "un":
            v = self.operand(st, ctx, fn, r[2])
            if r[1] == "Not":
                t = fn.tys[r[3]] if len(r) > 3 and r[3] is not None else None
                if t is not None and t.k == "int":
                    x = int_val(v)
                    if x is not None:
                        return INT(x ^ ((1 << t.bits) - 1)) if not t.signed else INT(~x)
                    return mk("bnot", v, ty=t)
                return notb(v)
            if r[1] == "Neg":
                return scale(v, -1)
            if r[1] == "PtrMetadata":
                return length(self.load(st, v))
            return mk("un", r[1], v)
        if k == "discr":
            root, path, ty = self.place(st, ctx, fn, r[1])
            v = self.read(st, root, path, ty)
            return self.discr_of(v, ty)
        if k == "agg":
            ops = [self.operand(st, ctx, fn, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "array":
                return mk("arr", tuple(ops))
            if kk[0] == "tuple":
                return agg("tuple", 0, ops)
            if kk[0] == "adt":
                p = norm(kk[1])
                if p == "std::pin::Pin":
                    return ops[0]
                if len(ops) > 1 and ops[0].op == "field" and p not in ("std::ops::Range",):
                    # a struct taken apart and put together again is that struct
                    b, vr = ops[0].args[0], ops[0].args[1]
                    a = self.p.adts.get(p)
                    if a is not None and a["kind"] == "struct" \
                            and all(o.op == "field" and o.args == (b, vr, i) for i, o in enumerate(ops)) \
                            and (b.ty is None or b.ty.k == "adt" and norm(b.ty.p) == p):
                        return b
                return agg(p, kk[2], ops)
            if kk[0] in ("closure", "coroutine"):
                return mk("agg", kk[0], norm(kk[1]), tuple(ops))
            return mk("sym", "new", ctx, "agg", kk[0])
        if k == "len":
            root, path, ty = self.place(st, ctx, fn, r[1])
            return length(self.read(st, root, path))
        return mk("rv", repr(r)[:80])

    def discr_of(self, v, ty):
        adt = ty.p if ty is not None and ty.k == "adt" else None
        if v.op == "agg" and isinstance(v.args[1], int):
            a = self.p.adts.get(v.args[0])
            if a and a["kind"] == "enum":
                return INT(a["variants"][v.args[1]]["discr"])
            return INT(v.args[1])
        if v.op == "cmp3":
            pass
        return mk("discr", v, adt)

    def intcast(self, st, v, to, fr):
        if v.op == "bool":
            return INT(1 if v.args[0] else 0)
        rt = to.range() if to is not None else None
        rf = fr.range() if fr is not None else None
        x = int_val(v)
        if x is not None and rt:
            if rt[0] <= x <= rt[1]:
                return v
            m = 1 << to.bits
            x %= m
            if to.signed and x >= m // 2:
                x -= m
            return INT(x)
        if fr is not None and fr.k == "bool":
            return mk("b2i", v, ty=to)
        if rt and rf and rt[0] <= rf[0] and rf[1] <= rt[1]:
            return v
        if rt and v.op != "discr":
            import entail
            if entail.quick_range(v, st.facts, rt):
                return v
        return mk("trunc", v, to.s if to is not None else "?", ty=to)

    def assign(self, st, ctx, fn, s):
        v = self.rvalue(st, ctx, fn, s[2])
        root, path, ty = self.place(st, ctx, fn, s[1])
        self.write(st, root, path, v)

    # ---------------------------------------------------------------- facts
    def assume(self, st, c):
        """add fact c (in place); False if contradictory"""
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c.op == "andb":
            return self.assume(st, c.args[0]) and self.assume(st, c.args[1])
        if c.op == "not" and c.args[0].op == "andb":
            a, b = c.args[0].args
            # not(a and b): if one is known true, the other is false
            if a in st.facts:
                return self.assume(st, notb(b))
            if b in st.facts:
                return self.assume(st, notb(a))
        n = notb(c)
        if n in st.facts:
            return False
        if c.op in ("eq", "le") or (c.op == "not" and c.args[0].op == "eq"):
            import entail
            if entail.contradicts(c, st.facts):
                return False
            if self.o.exact and entail.prove(st.facts, n, 1):
                return False
        st.facts = st.facts | {c}
        if c.op == "eqv":
            # equality with an enum/aggregate constant refines
            pass
        return True

    def refine(self, st, x, adt, k):
        """assume enum value x has variant k; substitute it by the constructor"""
        for f in st.facts:
            if f.op == "isvar" and f.args[0] is x and f.args[1] != k:
                return False
            if f.op == "notvar" and f.args[0] is x and f.args[1] == k:
                return False
        a = self.p.adts.get(adt)
        if a is None or a["kind"] != "enum":
            st.facts = st.facts | {mk("isvar", x, k)}
            return True
        fs = []
        for i, f in enumerate(a["variants"][k]["fields"]):
            t = f["ty"]
            fs.append(field(x, k, i, t if t is not None and t.k in ("int", "bool", "adt") else None))
        new = agg(adt, k, fs)
        m = {x: new}
        c = {}
        for r, v in list(st.mem.items()):
            nv = subst(v, m, c)
            if nv is not v:
                st.mem[r] = nv
        st.facts = frozenset(subst(f, m, c) for f in st.facts) | {mk("isvar", x, k)}
        if FALSE in st.facts:
            return False
        if TRUE in st.facts:
            st.facts = st.facts - {TRUE}
        return True

    # ---------------------------------------------------------------- events
    def emit(self, st, call_or_site, name, args, kind="call", goal=None, ret=None, snap=None):
        c = call_or_site
        e = Event()
        e.name = name
        e.kind = kind
        e.args = args
        e.goal = goal
        e.ctx = c.ctx
        e.bb = c.bb
        e.span = c.span
        e.fn = c.fn.path
        e.argtys = c.argtys
        e.callee = c.callee
        e.facts = st.facts
        e.must = st.must
        e.may = st.may
        e.mon = st.mon
        e.ret = ret
        e.snap = snap if snap is not None else [self.deep(st, a) for a in args]
        e.state = st.copy() if self.o.keep_state else None
        l = self.ev.setdefault(c.ctx, {}).setdefault((c.bb, c.key), [])
        e.id = (c.ctx, c.bb, c.key, len(l))
        l.append(e)
        if kind != "panic":
            st.must = st.must | {e.id}
            st.may = st.may | {e.id}
        if self.o.monitor:
            new = set()
            for m in st.mon:
                r = self.o.monitor(m, e, st, self)
                if r is None:
                    new.add(m)
                else:
                    new |= set(r)
            st.mon = frozenset(new)
        return e

    def event(self, eid):
        c, bb, key, n = eid
        try:
            return self.ev[c][(bb, key)][n]
        except (KeyError, IndexError):
            return None

    def newsym(self, call, tag, ty=None):
        return mk("sym", "call", call.ctx, call.bb, tag, ty=ty)

    def havoc_ptr(self, st, call, p, tag, keep_len, seen=None, depth=0):
        if seen is None:
            seen = set()
        if p in seen or depth > 4:
            return
        seen.add(p)
        if p.op == "phi":
            for v, _, _ in list(self.phi_info.get(p, {}).values()):
                if v.op in ("ref",):
                    self.havoc_ptr(st, call, v, (tag, "p", len(seen)), keep_len, seen, depth + 1)
        r, path = self.ptr_loc(st, p)
        if r[0] == "C":
            return
        old = self.read(st, r, path)
        self.havoc_inner(st, call, old, tag, seen, depth + 1)
        s = mk("sym", "hv", call.ctx, call.bb, tag)
        if old.op == "agg" and old.args[0] == "std::boxed::Box":
            return self.write(st, r, path + (("f", None, 0),), s)
        self.write(st, r, path, mk("hav", old, s) if keep_len else s)

    def havoc_inner(self, st, call, v, tag, seen, depth):
        """havoc memory reachable through &mut inside a value handed to unknown code"""
        if depth > 4:
            return
        if v.op == "ref":
            if v.args[2]:
                self.havoc_ptr(st, call, v, (tag, len(seen)), False, seen, depth)
        elif v.op == "agg":
            for x in v.args[2]:
                self.havoc_inner(st, call, x, tag, seen, depth + 1)
        elif v.op == "fut":
            for x in v.args[1]:
                self.havoc_inner(st, call, x, tag, seen, depth + 1)
        elif v.op == "upd":
            self.havoc_inner(st, call, v.args[0], tag, seen, depth + 1)
            self.havoc_inner(st, call, v.args[2], tag, seen, depth + 1)

    def opaque_call(self, st, call, name, args, argtys, destty):
        """unknown effect: record the event, havoc what it can write, return a fresh value"""
        self.opaque_seen[name] = self.opaque_seen.get(name, 0) + 1
        ret = mk("sym", "call", call.ctx, call.bb, name, ty=destty)
        e = self.emit(st, call, name, args, ret=ret)
        e.argtys = argtys
        for i, (a, t) in enumerate(zip(args, argtys)):
            if t is not None and t.k == "ref" and t.mut or (t is not None and t.k == "ptr"):
                pt = t.e
                keep = pt is not None and pt.k in ("slice", "array", "str")
                self.havoc_ptr(st, call, a, (name, i), keep)
            elif t is not None and t.k in ("ref",) and not t.mut:
                # a shared reference may still lead to &mut inside (not writable) : nothing
                pass
            else:
                self.havoc_inner(st, call, a, (name, i), set(), 0)
        if destty is not None and destty.k == "never":
            return []
        if destty is not None and destty.k == "tuple" and not destty.a:
            ret = UNIT
        if self.o.result:
            r = self.o.result(self, st, e, ret)
            if r is not None:
                return r
        return [(st, ret)]

    # ---------------------------------------------------------------- blocks
    def mkcall(self, st, ctx, bb, key, fn, B):
        t = B.term
        c = Call()
        c.ctx, c.bb, c.key, c.fn, c.span = ctx, bb, key, fn, B.span
        c.callee = t[1]
        c.argtys = [fn.tys[x] if x is not None else None for x in t[5]] if len(t) > 5 and t[5] is not None else []
        c.destty = fn.tys[t[6]] if len(t) > 6 and t[6] is not None else None
        c.args = [self.operand(st, ctx, fn, o) for o in t[2]]
        if "p" in t[1]:
            c.name = norm(t[1]["p"])
            c.rname = norm(t[1]["r"]) if t[1].get("r") else None
        else:
            c.name = None
            c.rname = None
        return c

    def exec_block(self, ctx, fn, cfg, bb, key, st):
        """-> list of (edge index, target bb, State); returns appended to self._rets"""
        self.steps += 1
        B = fn.blocks[bb]
        for s in B.stmts:
            k = s[0]
            if k == "=":
                self.assign(st, ctx, fn, s)
            elif k == "dead":
                st.mem.pop(("L", ctx, s[1]), None)
            elif k == "setd":
                pass
        t = B.term
        k = t[0]
        if k == "goto":
            return [(0, t[1], st)]
        if k == "drop":
            root, path, ty = self.place(st, ctx, fn, t[1])
            if self.o.drop_types and root in st.mem:
                tt = fn.tys[t[3]] if len(t) > 3 and t[3] is not None else ty
                if tt is not None and any(x in tt.s for x in self.o.drop_types):
                    c = Call()
                    c.ctx, c.bb, c.key, c.fn, c.span = ctx, bb, key, fn, B.span
                    c.callee = None
                    c.argtys = [tt]
                    self.emit(st, c, "drop", [self.read(st, root, path)], kind="drop")
            if not path and root[0] == "L":
                st.mem.pop(root, None)
            return [(0, t[2], st)]
        if k == "ret":
            v = self.get(st, ("L", ctx, 0))
            self._rets[-1].setdefault((bb, key), []).append((st, v))
            return []
        if k in ("unreachable", "resume", "abort"):
            return []
        if k == "yield":
            root, path, ty = self.place(st, ctx, fn, t[3])
            self.write(st, root, path, mk("sym", "resume"))
            return [(0, t[2], st)]
        if k == "switch":
            out = self.do_switch(st, ctx, fn, bb, t)
            if self.o.learned:
                for _, _, s in out:
                    if s.facts is not st.facts:
                        self.fresh = s.facts - st.facts
                        s.mon = frozenset(x for m in s.mon for x in (lambda r: [m] if r is None else r)(self.o.learned(m, s, self)))
            return out
        if k == "assert":
            c = self.operand(st, ctx, fn, t[1])
            goal = c if t[2] else notb(c)
            if goal is not TRUE:
                site = Call()
                site.ctx, site.bb, site.key, site.fn, site.span = ctx, bb, key, fn, B.span
                site.callee = None
                site.argtys = []
                ops = [self.operand(st, ctx, fn, o) for o in t[4]]
                self.emit(st, site, "assert:" + t[3], ops, kind="panic", goal=goal)
                if not self.assume(st, goal):
                    return []
            return [(0, t[5], st)]
        if k == "call":
            call = self.mkcall(st, ctx, bb, key, fn, B)
            known = st.facts
            outs = self.do_call(st, call)
            res = []
            for i, (s2, v) in enumerate(outs):
                if self.o.learned and s2.facts is not known:
                    self.fresh = s2.facts - known
                    s2.mon = frozenset(x for m in s2.mon for x in (lambda r: [m] if r is None else r)(self.o.learned(m, s2, self)))
                if t[4] is None:
                    continue
                root, path, ty = self.place(s2, ctx, fn, t[3])
                if v.ty is None and v.op in ("sym", "app", "field", "elem", "deref", "phi"):
                    v.ty = call.destty
                self.write(s2, root, path, v)
                res.append((i, t[4], s2))
            return res
        raise AnalysisError("terminator " + k)

    def do_switch(self, st, ctx, fn, bb, t):
        v = self.operand(st, ctx, fn, t[1])
        cases = [(int(x[0]), x[1]) for x in t[2]]
        other = t[3]
        x = int_val(v)
        if v.op == "bool":
            x = 1 if v.args[0] else 0
        if x is not None:
            for i, (c, b) in enumerate(cases):
                if c == x:
                    return [(i, b, st)]
            return [(len(cases), other, st)]
        if v.op == "discr":
            return self.switch_discr(st, v.args[0], v.args[1], cases, other)
        ty = self.optype(fn, t[1])
        out = []
        if ty is not None and ty.k == "bool":
            for i, (c, b) in enumerate(cases):
                s = st.copy()
                f = v if c else notb(v)
                if self.assume_b(s, f):
                    out.append((i, b, s))
            s = st.copy()
            f = v if cases[0][0] == 0 else notb(v)
            if self.assume_b(s, f):
                out.append((len(cases), other, s))
            return out
        for i, (c, b) in enumerate(cases):
            s = st.copy()
            if self.assume(s, eq(v, INT(c))):
                out.append((i, b, s))
        s = st.copy()
        okk = True
        for c, b in cases:
            okk = okk and self.assume(s, notb(eq(v, INT(c))))
        if okk and fn.blocks[other].term[0] != "unreachable":
            out.append((len(cases), other, s))
        return out

    def assume_b(self, s, f):
        """assume a boolean; resolve is-variant tests to refinements"""
        neg = False
        g = f
        if g.op == "not":
            neg = True
            g = g.args[0]
        if g.op == "testvar":
            x, adt, k = g.args
            if x.op == "agg":
                return (x.args[1] == k) != neg
            if not neg:
                return self.refine(s, x, adt, k)
            a = self.p.adts.get(adt)
            if a and len(a["variants"]) == 2:
                return self.refine(s, x, adt, 1 - k)
            s.facts = s.facts | {mk("notvar", x, k)}
            return True
        if not self.assume(s, f):
            return False
        if g.op not in ("andb", "orb", "bool"):
            # variables that hold this very condition are settled with it
            for r, v in s.mem.items():
                if v is g and r[0] == "L":
                    s.mem[r] = FALSE if neg else TRUE
        return True

    def switch_discr(self, st, x, adt, cases, other):
        a = self.p.adts.get(adt) if adt else None
        out = []
        if a is None or a["kind"] != "enum":
            for i, (c, b) in enumerate(cases):
                s = st.copy()
                if self.assume(s, eq(mk("discr", x, adt), INT(c))):
                    out.append((i, b, s))
            s = st.copy()
            out.append((len(cases), other, s))
            return out
        d2v = {v["discr"]: i for i, v in enumerate(a["variants"])}
        seen = set()
        for i, (c, b) in enumerate(cases):
            kk = d2v.get(c)
            if kk is None:
                continue
            seen.add(kk)
            s = st.copy()
            if self.refine(s, x, adt, kk):
                out.append((i, b, s))
        rest = [k for k in range(len(a["variants"])) if k not in seen]
        n = len(cases)
        if len(rest) <= 6:
            for j, kk in enumerate(rest):
                s = st.copy()
                if self.refine(s, x, adt, kk):
                    out.append((n + j, other, s))
        elif not any(f.op == "isvar" and f.args[0] is x and f.args[1] in seen for f in st.facts):
            s = st.copy()
            s.facts = s.facts | {mk("notvar", x, kk) for kk in seen}
            out.append((n, other, s))
        return out

    # ---------------------------------------------------------------- calls
    def do_call(self, st, call):
        if call.name is None:
            f = self.operand(st, call.ctx, call.fn, call.callee["op"])
            return self.call_value(st, call, f, call.args)
        return self.invoke(st, call)

    def resolve(self, name):
        """map a callee path to an analysed function"""
        fns = self.p.fns
        if name in fns:
            return fns[name]
        return self.p.alias(name)

    def invoke(self, st, call):
        o = self.o
        if o.intercept:
            r = o.intercept(self, st, call)
            if r is not None:
                return r
        for n in (call.rname, call.name):
            if n is not None and o.opaque(n):
                return self.maybe_future(st, call, n)
        r = self.lib.builtin(st, call)
        if r is not None:
            return r
        for n in (call.rname, call.name):
            if n is None:
                continue
            f = self.resolve(n)
            if f is not None:
                # trait default method reached through a trait path with unresolved receiver: dispatch by value first
                if call.rname is None and call.callee.get("trait"):
                    continue
                return self.inline(st, call, f, call.args)
        if call.callee.get("trait"):
            f = self.dispatch(st, call)
            if f is not None:
                if o.opaque(f.path):
                    return self.maybe_future(st, call, f.path)
                return self.inline(st, call, f, call.args)
        m = self.lib.model(call)
        if m is not None:
            return self.inline(st, call, m, call.args)
        return self.maybe_future(st, call, call.name)

    def is_future_ty(self, t):
        if t is None:
            return False
        s = t.s
        return t.k == "coroutine" or "dyn std::future::Future" in s or "Future<" in s and t.k in ("alias", "adt") \
            or "async fn body" in s or "impl Future" in s or s.startswith("impl std::future::Future")

    def maybe_future(self, st, call, name):
        if call.name in self.o.pure or (call.rname in self.o.pure if call.rname else False):
            return [(st, app(name, *[self.deep(st, a) for a in call.args], ty=call.destty))]
        if self.is_future_ty(call.destty):
            tys = tuple(call.argtys)
            f = mk("fut", name, tuple(call.args), call.ctx, call.bb)
            self.futinfo = getattr(self, "futinfo", {})
            self.futinfo[f] = (call, tys)
            return [(st, f)]
        return self.opaque_call(st, call, name, call.args, call.argtys, call.destty)

    def dispatch(self, st, call):
        """trait method on a receiver whose concrete type is visible in its abstract value"""
        trait = norm(call.callee["trait"])
        m = call.callee["method"]
        if not call.args:
            return None
        a = self.deep(st, call.args[0])
        key = None
        if a.op == "agg" and isinstance(a.args[0], str) and a.args[0] not in ("tuple", "closure", "coroutine"):
            key = a.args[0]
        elif a.ty is not None and a.ty.k == "adt":
            key = a.ty.p
        if key is None:
            return None
        for imp in self.p.impls:
            if imp.get("trait") == trait and imp["self"].k == "adt" and imp["self"].p == key and m in imp["methods"]:
                return self.p.fns.get(imp["methods"][m])
        # provided method of a local trait
        return None

    def call_value(self, st, call, f, args, tuple_args=False):
        """call a closure / fn item / fn pointer value; args already spread"""
        g = f
        ptr = None
        n = 0
        while n < 5:
            if g.op == "ref":
                ptr = g
                g = self.load(st, g)
            elif g.op == "agg" and g.args[0] == "std::boxed::Box":
                ptr = None
                g = g.args[2][0]
            else:
                break
            n += 1
        if g.op == "fn":
            path, ctor = g.args[0], g.args[1]
            if ctor:
                return [(st, agg(ctor[0], ctor[1], args))]
            sub_ = Call()
            for s in Call.__slots__:
                if hasattr(call, s):
                    setattr(sub_, s, getattr(call, s))
            sub_.name = path
            sub_.rname = path
            sub_.args = list(args)
            sub_.argtys = [a.ty for a in args]
            sub_.callee = {"p": path, "r": path}
            if "::" in path:
                base, meth = path.rsplit("::", 1)
                sub_.callee["method"] = meth
                if base in self.p.traits:
                    sub_.callee["trait"] = base
                    sub_.rname = None
            return self.invoke(st, sub_)
        if g.op == "agg" and g.args[0] == "closure":
            fn = self.p.fns.get(g.args[1])
            if fn is not None:
                t = fn.locals[1]
                if t.k == "ref":
                    if ptr is None:
                        # materialise the closure environment
                        root = ("L", ("env", call.ctx, call.bb), 0)
                        st.mem[root] = g
                        ptr = mk("ref", root, (), True)
                    self_arg = ptr
                else:
                    self_arg = g
                return self.inline(st, call, fn, [self_arg] + list(args))
        if g.op == "phi" and g in self.phi_info and len(self.phi_info[g]) <= 4:
            outs = []
            for v, facts, b in list(self.phi_info[g].values()):
                if b:
                    outs = None
                    break
                outs += self.call_value(st.copy(), call, v, args)
            if outs is not None:
                return outs
        nm = "call:" + (call.callee.get("p") if call.callee and call.callee.get("p") else "fnptr")
        return self.opaque_call(st, call, nm, [f] + list(args), [None] + [a.ty for a in args], call.destty)

    def inline(self, st, call, fn, args):
        path = fn.path
        if path in self.stack(call.ctx) or self.depth(call.ctx) >= self.o.depth:
            if path in self.stack(call.ctx):
                self.recursions.add(path)
            return self.maybe_future(st, call, path)
        c = self.ctx(call.ctx, call.bb, path, call.key)
        self.inlined[path] = self.inlined.get(path, 0) + 1
        return self.exec_fn(fn, args, st, c)

    def poll(self, st, call, f, dest_ready=True):
        """drive a future value to completion -> [(state, output)]"""
        n = 0
        g = f
        while n < 6 and (g.op == "ref" or g.op == "agg" and g.args[0] == "std::boxed::Box"):
            g = self.load(st, g)
            n += 1
        if g.op == "agg" and g.args[0] == "coroutine":
            fn = self.p.fns.get(g.args[1])
            if fn is None:
                raise AnalysisError("no body for coroutine " + str(g.args[1]))
            if fn.path in self.stack(call.ctx):
                self.recursions.add(fn.path)
                ret = mk("sym", "call", call.ctx, call.bb, "rec:" + fn.path, ty=call.destty)
                e = self.emit(st, call, "rec:" + fn.path, [g], ret=ret)
                self.havoc_inner(st, call, g, "rec", set(), 0)
                return [(st, ret)]
            return self.inline(st, call, fn, [g, mk("sym", "resume")])
        if g.op == "fut":
            orig, tys = self.futinfo[g]
            c = Call()
            for s in Call.__slots__:
                setattr(c, s, getattr(orig, s, None))
            c.ctx, c.bb, c.key, c.fn, c.span = call.ctx, call.bb, call.key, call.fn, call.span
            outty = self.future_output(orig.destty)
            if outty is None and call.destty is not None and call.destty.k == "adt" and call.destty.p == POLL:
                outty = call.destty.a[0]
            c.callee = orig.callee
            r = self.lib.future_result(st, c, g)
            if r is not None:
                return r
            return self.opaque_call(st, c, g.args[0], list(g.args[1]), list(tys), outty)
        if g.op == "phi" and g in self.phi_info:
            outs = []
            for v, facts, b in list(self.phi_info[g].values()):
                outs += self.poll(st.copy(), call, v)
            return outs
        nm = "poll"
        return self.opaque_call(st, call, nm, [g], [None], None)

    def future_output(self, t):
        return None

    # ---------------------------------------------------------------- function fixpoint
    def exec_fn(self, fn, args, st, ctx):
        cfg = self.cfg(fn)
        self.clear_events(ctx)
        save = getattr(self, "_sticky", None)
        self._sticky = sticky = set()
        self._rets = getattr(self, "_rets", [])
        self._rets.append({})
        try:
            st = st.copy()
            for i, a in enumerate(args):
                st.mem[("L", ctx, i + 1)] = a
            edges = {}           # (bb,key) -> {edge: State}
            done = {}            # (bb,key) -> State
            outs = {}            # (bb,key) -> set of (target bb, key, edge)
            collapsed = set()
            visits = {}
            heap = []
            inq = set()

            def push(b, k):
                if (b, k) not in inq:
                    inq.add((b, k))
                    heapq.heappush(heap, (cfg.order[b], b, repr(k), k))

            def keyof(s, b):
                return "*" if b in collapsed else self.key(s, ctx, b, cfg)

            def prune(s, b):
                ret = cfg.retain[b]
                for r in [r for r in s.mem if r[0] == "L" and r[1] == ctx and r[2] not in ret]:
                    del s.mem[r]

            def collapse(b):
                collapsed.add(b)
                alle = {}
                for (bb2, k2) in [x for x in edges if x[0] == b]:
                    for e, s in edges.pop((bb2, k2)).items():
                        alle[e] = s
                    done.pop((bb2, k2), None)
                    if (bb2, k2) in self._rets[-1]:
                        del self._rets[-1][(bb2, k2)]
                    remove_outs(bb2, k2, set())
                    self.clear_block(ctx, bb2, k2)
                edges[(b, "*")] = alle
                for tgt in alle:
                    outs.setdefault((tgt[0], tgt[1]), set())
                # fix outs bookkeeping of sources
                for src, os_ in outs.items():
                    new = set()
                    for (tb, tk, e) in os_:
                        new.add((tb, "*" if tb == b else tk, e))
                    outs[src] = new
                push(b, "*")

            def remove_outs(b, k, keep):
                for (tb, tk, e) in outs.get((b, k), set()) - keep:
                    d = edges.get((tb, tk))
                    if d is not None and e in d:
                        del d[e]
                        push(tb, tk)
                outs[(b, k)] = keep

            prune(st, 0)
            k0 = keyof(st, 0)
            edges[(0, k0)] = {(-1, None, 0): st}
            push(0, k0)
            iters = 0

            def retire():
                """forget copies of blocks that only loops of forgotten copies still lead to"""
                k = "*" if 0 in collapsed else k0
                seen, todo = {(0, k)}, [(0, k)]
                while todo:
                    for tb, tk, e in outs.get(todo.pop(), ()):
                        if (tb, tk) not in seen:
                            seen.add((tb, tk))
                            todo.append((tb, tk))
                for bk in [x for x in done if x not in seen]:
                    del done[bk]
                    self.clear_block(ctx, *bk)
                    self._rets[-1].pop(bk, None)
                    remove_outs(bk[0], bk[1], set())
                    edges.pop(bk, None)

            while heap or retire() or heap:
                _, b, _, k = heapq.heappop(heap)
                inq.discard((b, k))
                d = edges.get((b, k))
                if not d:
                    if (b, k) in done:
                        del done[(b, k)]
                        self.clear_block(ctx, b, k)
                        self._rets[-1].pop((b, k), None)
                        remove_outs(b, k, set())
                    continue
                header = b in cfg.loops
                s = self.join(ctx, b, k, d, header, cfg)
                old = done.get((b, k))
                if old is not None and old.same(s):
                    continue
                visits[(b, k)] = visits.get((b, k), 0) + 1
                iters += 1
                if visits[(b, k)] > 60 or iters > 150000:
                    raise AnalysisError("no convergence in %s bb%d" % (fn.path, b))
                if header and old is not None and visits[(b, k)] > 3:
                    # must/facts only decrease at loop heads
                    s.facts = s.facts & old.facts
                    s.must = s.must & old.must
                    s.may = s.may | old.may
                    s.mon = s.mon | old.mon
                    if old.same(s):
                        continue
                done[(b, k)] = s
                self.clear_block(ctx, b, k)
                self._rets[-1].pop((b, k), None)
                res = self.exec_block(ctx, fn, cfg, b, k, s.copy())
                keep = set()
                news = []
                for idx, tb, s2 in res:
                    prune(s2, tb)
                    tk = keyof(s2, tb)
                    e = (b, k, idx)
                    keep.add((tb, tk, e))
                    news.append((tb, tk, e, s2))
                remove_outs(b, k, keep)
                for tb, tk, e, s2 in news:
                    if tb in collapsed:
                        tk = "*"
                    dd = edges.setdefault((tb, tk), {})
                    o = dd.get(e)
                    if o is not None and o.same(s2) and (tb, tk) in done:
                        continue
                    dd[e] = s2
                    push(tb, tk)
                    if tb not in collapsed:
                        n = sum(1 for x in edges if x[0] == tb)
                        if n > self.o.cap:
                            collapse(tb)
            # returns
            rets = self._rets[-1]
            flat = []
            for (b, k) in sorted(rets, key=repr):
                for s, v in rets[(b, k)]:
                    flat.append((b, k, s, v))
            out = []
            for b, k, s, v in flat:
                s = s.copy()
                for r in [r for r in s.mem if r[0] == "L" and r[1] == ctx]:
                    del s.mem[r]
                out.append((s, v))
            return out
        finally:
            self._rets.pop()
            self._sticky = save

    def cfg(self, fn):
        if fn._cfg is None:
            fn._cfg = CFG(fn)
        c = fn._cfg
        if not hasattr(c, "keylive"):
            c.keylive = {b: sorted(x for x in (c.live[b] | c.borrowed)) for b in c.reach}
            c.retain = {b: c.live[b] | c.borrowed | c.droplive[b] | set() for b in c.reach}
        return c

    # ---------------------------------------------------------------- roots
    def run(self, path, args=None, st=None, poll=True):
        """analyse function `path` from symbolic arguments; returns [(state, result)]"""
        fn = self.resolve(path)
        if fn is None:
            raise AnalysisError("anchor function not found: " + path)
        if st is None:
            st = State(mon=self.o.mon0)
        self.rootfn = fn
        c = self.ctx(None, 0, "root:" + path, ())
        call = Call()
        call.ctx, call.bb, call.key, call.fn, call.span = c, 0, (), fn, fn.span
        call.callee = {"p": path, "r": path}
        call.name = path
        call.rname = path
        call.argtys = [fn.locals[i + 1] for i in range(fn.nargs)]
        call.destty = fn.locals[0]
        if args is None:
            args = self.params(fn)
        self.rootargs = args
        call.args = args
        self.ev[c] = {}
        outs = self.inline(st, call, fn, args)
        res = []
        for i, (s, v) in enumerate(outs):
            w = v
            n = 0
            while n < 3 and w.op == "agg" and w.args[0] == "std::boxed::Box":
                w = w.args[2][0]
                n += 1
            if poll and (w.op == "fut" or w.op == "agg" and w.args[0] == "coroutine"):
                call2 = Call()
                for sl in Call.__slots__:
                    setattr(call2, sl, getattr(call, sl, None))
                call2.bb = 1 + i
                call2.destty = None
                res += self.poll(s, call2, v)
            else:
                res.append((s, v))
        self.results = res
        return res

    def params(self, fn):
        out = []
        for i in range(fn.nargs):
            t = fn.locals[i + 1]
            nm = fn.argnames[i] if fn.argnames and i < len(fn.argnames) else "arg%d" % i
            out.append(mk("sym", "param", nm, t.s, ty=t))
        return out
