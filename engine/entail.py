"""Small linear-arithmetic reasoning over facts (Fourier-Motzkin elimination)."""
from terms import *


def quick_range(v, facts, rng):
    return prove(facts, le(v, INT(rng[1])), depth=0) and prove(facts, le(INT(rng[0]), v), depth=0)


def contradicts(c, facts):
    """cheap: does some single fact contradict c?"""
    def bounds(f):
        # returns (linear part key, lo, hi) for single normalised constraint
        pass
    if c.op == "eq":
        d = dict(c.args[0].args[1]) if c.args[0].op == "lin" else {c.args[0]: 1}
        k = c.args[0].args[0] if c.args[0].op == "lin" else 0
        for f in facts:
            if f.op == "eq":
                d2 = dict(f.args[0].args[1]) if f.args[0].op == "lin" else {f.args[0]: 1}
                k2 = f.args[0].args[0] if f.args[0].op == "lin" else 0
                if d2 == d and k2 != k:
                    return True
            elif f.op == "le":
                c2, d2 = lin_parts(f.args[0])
                # d2 + c2 <= 0 ; with d = -k
                if d2 == d and -k + c2 > 0:
                    return True
                if d2 == {a: -v for a, v in d.items()} and k + c2 > 0:
                    return True
        # non-negative atoms: x == negative
        lo, hi = const_bounds(c.args[0])
        if lo is not None and lo > 0 or hi is not None and hi < 0:
            return True
    elif c.op == "le":
        cc, d = lin_parts(c.args[0])
        nd = {a: -v for a, v in d.items()}
        for f in facts:
            if f.op == "le":
                c2, d2 = lin_parts(f.args[0])
                if d2 == nd and cc + c2 > 0:
                    return True
            elif f.op == "eq":
                c2, d2 = lin_parts(f.args[0])
                if d2 == d and cc - c2 > 0:
                    return True
                if d2 == nd and cc + c2 > 0:
                    return True
        lo, hi = const_bounds(c.args[0])
        if lo is not None and lo > 0:
            return True
    return False


def atom_range(a):
    """inclusive bounds known from the atom itself"""
    t = a.ty
    lo = hi = None
    if t is not None and getattr(t, "k", None) in ("int", "char"):
        lo, hi = t.range()
    op = a.op
    if op == "len":
        lo = 0 if lo is None else max(lo, 0)
        if hi is None or hi > (1 << 63) - 1:
            hi = (1 << 63) - 1
    elif op == "div":
        l2, h2 = const_bounds(a.args[0])
        k = a.args[1]
        if l2 is not None:
            lo = l2 // k if lo is None else max(lo, l2 // k)
        if h2 is not None:
            hi = h2 // k if hi is None else min(hi, h2 // k)
    elif op in ("min", "max"):
        r = [const_bounds(x) for x in a.args]
        los = [x[0] for x in r]
        his = [x[1] for x in r]
        if op == "min":
            h = [x for x in his if x is not None]
            if h:
                hi = min(h) if hi is None else min(hi, min(h))
            if all(x is not None for x in los):
                lo = min(los) if lo is None else max(lo, min(los))
        else:
            l = [x for x in los if x is not None]
            if l:
                lo = max(l) if lo is None else max(lo, max(l))
            if all(x is not None for x in his):
                hi = max(his) if hi is None else min(hi, max(his))
    elif op == "b2i":
        lo, hi = 0, 1
    return lo, hi


def const_bounds(t):
    c, d = lin_parts(t)
    lo = hi = c
    for a, k in d.items():
        l, h = atom_range(a)
        if k > 0:
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        else:
            lo = None if lo is None or h is None else lo + k * h
            hi = None if hi is None or l is None else hi + k * l
    return lo, hi


def _cons(f):
    """fact -> list of constraints (const, {atom:coef}) meaning  sum + const <= 0"""
    if f.op == "le":
        return [lin_parts(f.args[0])]
    if f.op == "eq":
        c, d = lin_parts(f.args[0])
        return [(c, d), (-c, {a: -k for a, k in d.items()})]
    if f.op == "andb":
        return _cons(f.args[0]) + _cons(f.args[1])
    if f.op == "not" and f.args[0].op == "eq":
        # an excluded end point of the value's range
        x = f.args[0].args[0]
        lo, hi = const_bounds(x)
        c, d = lin_parts(x)
        rems = [sub(a.args[0], scale(a, a.args[1])) for a in d if a.op == "div"]
        if x in rems:
            lo = 0
        elif scale(x, -1) in rems:
            hi = 0
        if lo == 0:
            return [(1 - c, {a: -k for a, k in d.items()})]
        if hi == 0:
            return [(c + 1, dict(d))]
    return []


def axioms(atoms, seen):
    """constraints implied by the structure of atoms; may introduce new atoms"""
    out = []
    new = set()
    todo = list(atoms)
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        lo, hi = atom_range(a)
        if lo is not None:
            out.append((lo, {a: -1}))
        if hi is not None:
            out.append((-hi, {a: 1}))
        more = []
        if a.op == "div":
            x, k = a.args
            c, d = lin_parts(x)
            # k*a <= x  ;  x <= k*a + k-1
            d1 = {t: -v for t, v in d.items()}
            d1[a] = d1.get(a, 0) + k
            out.append((-c, d1))
            d2 = dict(d)
            d2[a] = d2.get(a, 0) - k
            out.append((c - (k - 1), d2))
            more = list(d)
            # quotients of sums that differ by a constant
            for b in seen:
                if b is not a and b.op == "div" and b.args[1] == k:
                    c2, e = lin_parts(b.args[0])
                    if e == d:
                        out.append(((c - c2) // k, {a: -1, b: 1}))
                        out.append(((c2 - c) // k, {a: 1, b: -1}))
        elif a.op == "min":
            for x in a.args:
                c, d = lin_parts(x)
                d1 = {t: -v for t, v in d.items()}
                d1[a] = d1.get(a, 0) + 1
                out.append((-c, d1))
                more += list(d)
        elif a.op == "max":
            for x in a.args:
                c, d = lin_parts(x)
                d1 = dict(d)
                d1[a] = d1.get(a, 0) - 1
                out.append((c, d1))
                more += list(d)
        elif a.op == "trunc":
            c, d = lin_parts(a.args[0])
            lo2, hi2 = const_bounds(a.args[0])
            if lo2 is not None and lo2 >= 0 and a.ty is not None and not a.ty.signed:
                # truncation never increases a non-negative value
                d1 = {t: -v for t, v in d.items()}
                d1[a] = d1.get(a, 0) + 1
                out.append((-c, d1))
                more = list(d)
        elif a.op == "len":
            pass
        todo += [m for m in more if m not in seen]
    return out


def _norm(c, d):
    from math import gcd
    d = {a: k for a, k in d.items() if k}
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        c = -((-c) // g)
        d = {a: k // g for a, k in d.items()}
    return c, d


def infeasible(cons, limit=2000):
    if fourier(cons, limit):
        return True
    # integer tightening depends on the order of elimination: quotients last
    return len({a for _, d in cons for a in d if a.op == "div"}) > 2 and fourier(cons, limit, True)


def fourier(cons, limit, last=False):
    """Fourier-Motzkin with integer tightening; True if constraints are unsatisfiable"""
    cs = {}
    for c, d in cons:
        c, d = _norm(c, d)
        if not d:
            if c > 0:
                return True
            continue
        key = frozenset(d.items())
        if key not in cs or cs[key] < c:
            cs[key] = c
    while True:
        vars_ = {}
        for key in cs:
            for a, k in key:
                p, n = vars_.get(a, (0, 0))
                vars_[a] = (p + 1, n) if k > 0 else (p, n + 1)
        if not vars_:
            return False
        a = min(vars_, key=lambda x: (last and x.op == "div", vars_[x][0] * vars_[x][1], x.id))
        P, N, R = [], [], {}
        for key, c in cs.items():
            d = dict(key)
            k = d.get(a, 0)
            if k > 0:
                P.append((c, d, k))
            elif k < 0:
                N.append((c, d, k))
            else:
                R[key] = c
        if len(P) * len(N) > limit:
            return False
        for c1, d1, k1 in P:
            for c2, d2, k2 in N:
                c = c1 * -k2 + c2 * k1
                d = {}
                for t, v in d1.items():
                    d[t] = v * -k2
                for t, v in d2.items():
                    d[t] = d.get(t, 0) + v * k1
                d.pop(a, None)
                c, d = _norm(c, d)
                if not d:
                    if c > 0:
                        return True
                    continue
                key = frozenset(d.items())
                if key not in R or R[key] < c:
                    R[key] = c
        if len(R) > limit:
            return False
        cs = R


def relevant(facts, atoms):
    """facts connected to the given atoms (transitively through shared atoms)"""
    fl = []
    for f in facts:
        cs = _cons(f)
        for c in cs:
            at = set(c[1])
            for a in c[1]:
                if a.op == "div":
                    at |= set(lin_parts(a.args[0])[1])
            fl.append((c, at))
    cur = set(atoms)
    out = []
    ch = True
    left = fl
    rounds = 0
    while ch and rounds < 6:
        rounds += 1
        ch = False
        nl = []
        for c, s in left:
            if s & cur:
                out.append(c)
                if not s <= cur:
                    cur |= s
                    ch = True
            else:
                nl.append((c, s))
        left = nl
    return out, cur


def tighten(facts):
    """x <= 0 and x != 0 give x <= -1"""
    out = []
    for f in facts:
        if f.op == "not" and f.args[0].op == "eq":
            x = f.args[0].args[0]
            if le(x, INT(0)) in facts:
                out.append(le(x, INT(-1)))
            if le(INT(0), x) in facts:
                out.append(le(INT(1), x))
    return facts if all(g in facts for g in out) else frozenset(facts) | frozenset(out)


def prove(facts, goal, depth=2, I=None, extra=()):
    """do the facts imply goal?  (sound, incomplete)"""
    if goal is TRUE:
        return True
    if goal in facts or FALSE in facts:
        return True
    if goal is FALSE:
        if inconsistent(facts):
            return True
        ms = sorted({a for f in facts for c in _cons(f) for a in c[1] if a.op in ("min", "max")}, key=lambda t: t.id) if depth > 0 else ()
        return any(all(prove(f2, FALSE, depth - 2, I) for _, f2 in mm_split(a, facts)) for a in ms[:3])
    if goal.op == "andb":
        return prove(facts, goal.args[0], depth, I) and prove(facts, goal.args[1], depth, I)
    if goal.op == "eq":
        x = goal.args[0]
        if prove(facts, le(x, INT(0)), depth, I) and prove(facts, le(INT(0), x), depth, I):
            return True
        return False
    if goal.op == "not":
        g = goal.args[0]
        if g.op == "eq":
            x = g.args[0]
            return prove(facts, le(x, INT(-1)), 0, I) or prove(facts, le(INT(1), x), 0, I)
        if g.op == "andb":
            return prove(facts, notb(g.args[0]), depth, I) or prove(facts, notb(g.args[1]), depth, I)
        return False
    if goal.op != "le":
        return False
    facts = tighten(facts)
    c, d = lin_parts(goal.args[0])
    # negation: sum + c >= 1   ->  -sum - c + 1 <= 0
    neg = (1 - c, {a: -k for a, k in d.items()})
    atoms = set(d)
    # close atoms under axioms' atoms first
    seen = set()
    ax = axioms(atoms, seen)
    cur = set(seen)
    for _, dd in ax:
        cur |= set(dd)
    rel, cur2 = relevant(facts, cur)
    ax2 = axioms(cur2, seen)
    extra_atoms = set()
    for _, dd in ax2:
        extra_atoms |= set(dd)
    rel2, cur3 = relevant(facts, extra_atoms | cur2)
    ax3 = axioms(cur3, seen)
    cons = [neg] + ax + ax2 + ax3 + rel2
    if infeasible(cons):
        return True
    if depth <= 0:
        return False
    # case split on min/max atoms or phis
    for a in sorted(cur3 | set(d), key=lambda t: t.id):
        if a.op in ("min", "max"):
            x, y = a.args
            lo, hi = (x, y)
            c1 = le(x, y)
            c2 = lt(y, x)
            v1 = x if a.op == "min" else y
            v2 = y if a.op == "min" else x
            ok_ = True
            for cc, vv in ((c1, v1), (c2, v2)):
                if cc is FALSE:
                    continue
                m = {a: vv}
                f2 = frozenset(subst(f, m) for f in facts) | {cc}
                if not prove(f2, subst(goal, m), depth - 1, I):
                    ok_ = False
                    break
            if ok_:
                return True
    if I is not None:
        for a in sorted(d, key=lambda t: -t.id):
            if a.op == "phi" and a in I.phi_info:
                info = I.phi_info[a]
                if any(b for (_, _, b) in info.values()):
                    # loop phi: induction on the goal itself
                    ok_ = True
                    for v, ff, b in info.values():
                        g2 = subst(goal, {a: v})
                        hyp = ff | {goal} if b else ff
                        if not prove(hyp, g2, depth - 1, I):
                            ok_ = False
                            break
                    if ok_ and not other_loop_atoms(goal, a):
                        return True
                else:
                    ok_ = True
                    for v, ff, b in info.values():
                        m = {a: v}
                        f2 = frozenset(subst(f, m) for f in facts) | ff
                        if not prove(f2, subst(goal, m), depth - 1, I):
                            ok_ = False
                            break
                    if ok_:
                        return True
    return False


def mm_split(a, facts):
    """a minimum or maximum is one of its two arguments: [(which, facts)]"""
    x, y = a.args
    for v, c in ((x, le(x, y) if a.op == "min" else le(y, x)), (y, le(y, x) if a.op == "min" else le(x, y))):
        if c is not FALSE:
            yield v, frozenset(subst(f, {a: v}) for f in facts) | {c}


def other_loop_atoms(goal, a):
    """the induction is only valid when the rest of the goal does not change in the loop"""
    ctx, bb = a.args[0], a.args[1]
    for x in subs(goal):
        if x is a:
            continue
        if x.op == "phi" and x.args[0] == ctx and x.args[1] == bb:
            return True
    return False


def inconsistent(facts):
    if FALSE in facts:
        return True
    cons = []
    atoms = set()
    for f in facts:
        for c in _cons(f):
            cons.append(c)
            atoms |= set(c[1])
        if f.op == "not" and f.args[0] in facts:
            return True
    seen = set()
    return infeasible(cons + axioms(atoms, seen))
