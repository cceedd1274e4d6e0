"""Hash-consed terms: the value domain of the dataflow analysis.

A term denotes a run-time value.  Integers are kept in linear normal form
('lin'), with div/min/max/opaque values as atoms; aggregates are kept
structurally; everything the analysis does not model is an opaque symbol.
"""
import itertools

_table = {}
_ids = itertools.count()


class T:
    __slots__ = ("op", "args", "id", "ty", "_sub", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


def mk(op, *args, ty=None):
    k = (op, args)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = next(_ids)
        t._h = hash(k)
        t.ty = ty
        t._sub = None
        _table[k] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


def children(t):
    op = t.op
    if op == "lin":
        return [x for x, _ in t.args[1]]
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    out.append(b)
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, T):
                            out.append(c)
    return out


ATOMIC = ("sym", "phi")


def subs(t):
    """frozenset of all sub-terms that are sym/phi atoms (plus 'disj' helpers)."""
    if t._sub is None:
        stack = [t]
        # iterative post-order
        while stack:
            x = stack[-1]
            if x._sub is not None:
                stack.pop()
                continue
            ch = children(x)
            todo = [c for c in ch if c._sub is None]
            if todo:
                stack.extend(todo)
                continue
            acc = set()
            for c in ch:
                acc |= c._sub
            if x.op in ATOMIC:
                acc.add(x)
            x._sub = frozenset(acc)
            stack.pop()
    return t._sub


# ------------------------------------------------------------- constructors
def INT(v):
    return mk("lin", int(v), ())


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("agg", "tuple", 0, ())


def BOOL(b):
    return TRUE if b else FALSE


def STR(x):
    return mk("str", x)


def is_int(t):
    return t.op == "lin" and not t.args[1]


def int_val(t):
    if t.op == "lin" and not t.args[1]:
        return t.args[0]
    return None


def lin_parts(t):
    """(const, {atom: coef})"""
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def lin(c, d, ty=None):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda x: x[0].id))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items, ty=ty)


def add(a, b):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    return lin(c1 + c2, d)


def scale(a, k):
    c, d = lin_parts(a)
    return lin(c * k, {x: v * k for x, v in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def mul(a, b):
    if is_int(a):
        return scale(b, a.args[0])
    if is_int(b):
        return scale(a, b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a, b)


def div(a, b):
    """floor division (operands of Rust unsigned division are non-negative)"""
    k = int_val(b)
    if k is None or k <= 0:
        return mk("divt", a, b)
    if k == 1:
        return a
    c, d = lin_parts(a)
    # pull out exact multiples
    q = {}
    r = {}
    for x, v in d.items():
        if v % k == 0:
            q[x] = v // k
        else:
            r[x] = v
    qc, rc = divmod(c, k)
    if not r:
        return lin(qc, q)
    # keep remainder coefficients in [0,k)
    r2 = {}
    for x, v in r.items():
        qq, rr = divmod(v, k)
        if qq:
            q[x] = q.get(x, 0) + qq
        if rr:
            r2[x] = rr
    inner = lin(rc, r2)
    # div(div(x,m),k) = div(x, m*k)
    if inner.op == "div":
        at = mk("div", inner.args[0], inner.args[1] * k)
    else:
        at = mk("div", inner, k)
    return add(lin(qc, q), at)


def rem(a, b):
    k = int_val(b)
    if k is None or k <= 0:
        return mk("remt", a, b)
    return sub(a, scale(div(a, b), k))


def minmax(op, a, b):
    if a is b:
        return a
    x = sub(a, b)
    v = int_val(x)
    if v is not None:
        if op == "min":
            return a if v <= 0 else b
        return a if v >= 0 else b
    if a.id > b.id:
        a, b = b, a
    return mk(op, a, b)


# comparisons: canonical forms
#   ('le', t)  : t <= 0        ('eq', t) : t == 0   (t linear)
def le(a, b):
    x = sub(a, b)
    v = int_val(x)
    if v is not None:
        return BOOL(v <= 0)
    # normalise by gcd
    c, d = lin_parts(x)
    from math import gcd

    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        # sum d*x <= -c  ->  sum (d/g) x <= floor(-c/g)
        x = lin(-((-c) // g), {t: k // g for t, k in d.items()})
    return mk("le", x)


def lt(a, b):
    return le(add(a, INT(1)), b)


def eq(a, b):
    x = sub(a, b)
    v = int_val(x)
    if v is not None:
        return BOOL(v == 0)
    c, d = lin_parts(x)
    from math import gcd

    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        if c % g:
            return FALSE
        c //= g
        d = {t: k // g for t, k in d.items()}
    # sign-normalise
    first = min(d, key=lambda t: t.id)
    if d[first] < 0:
        c = -c
        d = {t: -k for t, k in d.items()}
    return mk("eq", lin(c, d))


def eqv(a, b):
    """equality of arbitrary values"""
    if a is b:
        return TRUE
    if a.id > b.id:
        a, b = b, a
    if a.op == "str" and b.op == "str":
        return BOOL(a.args[0] == b.args[0])
    if a.op == "arr" and b.op == "arr" and all(is_int(x) for x in a.args[0] + b.args[0]):
        return BOOL(a is b)
    if a.op == "arr" and b.op == "arr" and (any(is_int(x) for x in a.args[0]) or any(is_int(x) for x in b.args[0])):
        if len(a.args[0]) != len(b.args[0]):
            return FALSE
        r = TRUE
        for x, y in zip(a.args[0], b.args[0]):
            r = andb(r, eq(x, y))
        return r
    return mk("eqv", a, b)


def notb(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le":
        # not (x <= 0)  ==  x >= 1  ==  1 - x <= 0
        return le(sub(INT(1), a.args[0]), INT(0))
    return mk("not", a)


def andb(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("andb", a, b)


def orb(a, b):
    return notb(andb(notb(a), notb(b)))


def agg(key, variant, fields, ty=None):
    return mk("agg", key, variant, tuple(fields), ty=ty)


def tup(*fields):
    return agg("tuple", 0, fields)


OPTION = "std::option::Option"
RESULT = "std::result::Result"
CFLOW = "std::ops::ControlFlow"
POLL = "std::task::Poll"
NONE = agg(OPTION, 0, ())


def some(x):
    return agg(OPTION, 1, (x,))


def ok(x):
    return agg(RESULT, 0, (x,))


def err(x):
    return agg(RESULT, 1, (x,))


def app(f, *args, ty=None):
    return mk("app", f, args, ty=ty)


def field(base, variant, i, ty=None):
    """project a field out of a value"""
    op = base.op
    if op == "agg":
        fs = base.args[2]
        if variant is not None and base.args[1] != variant:
            return mk("bad", base, variant, i)
        if i < len(fs):
            return fs[i]
        return mk("field", base, variant, i, ty=ty)
    if op == "upd":
        b, step, val = base.args
        if step[0] == "f":
            if step[1] == variant and step[2] == i:
                return val
            return field(b, variant, i, ty)
    return mk("field", base, variant, i, ty=ty)


def ref(root, path=(), mut=False):
    return mk("ref", root, path, mut)


# ------------------------------------------------------------- substitution
def subst(t, m, _c=None):
    """replace terms (keys of m) inside t"""
    if _c is None:
        _c = {}
    if t in m:
        return m[t]
    if not m:
        return t
    r = _c.get(t)
    if r is not None:
        return r
    # quick rejection: every key we substitute must share symbols
    keysyms = _c.get("syms")
    if keysyms is None:
        keysyms = set()
        for k in m:
            keysyms |= subs(k)
        _c["syms"] = keysyms
    if not (subs(t) & keysyms):
        return t
    op = t.op
    if op == "lin":
        c, items = t.args
        acc = INT(c)
        for a, k in items:
            acc = add(acc, scale(subst(a, m, _c), k))
        r = acc
    else:
        def s(a):
            if isinstance(a, T):
                return subst(a, m, _c)
            if isinstance(a, tuple):
                return tuple(s(x) for x in a)
            return a

        args = tuple(s(a) for a in t.args)
        if args == t.args:
            r = t
        else:
            r = rebuild(op, args, t.ty)
    _c[t] = r
    return r


def rebuild(op, args, ty):
    if op == "div":
        return div(args[0], INT(args[1]))
    if op in ("min", "max"):
        return minmax(op, *args)
    if op == "mul":
        return mul(*args)
    if op == "le":
        return le(args[0], INT(0))
    if op == "eq":
        return eq(args[0], INT(0))
    if op == "eqv":
        return eqv(*args)
    if op == "not":
        return notb(args[0])
    if op == "andb":
        return andb(*args)
    if op == "field":
        return field(args[0], args[1], args[2], ty)
    if op == "len":
        return length(args[0])
    if op == "slice":
        return slice_(*args)
    if op == "elem":
        return elem(*args)
    if op == "discr":
        return discr(args[0])
    if op == "isvar" and args[0].op == "agg" and args[0].args[1] is not None:
        return TRUE if args[0].args[1] == args[1] else FALSE
    if op == "deref" and args[0].op == "ref" and args[0].args[0][0] == "C" and not args[0].args[1]:
        return args[0].args[0][1]
    return mk(op, *args, ty=ty)


def discr(v):
    if v.op == "agg":
        return mk("variant", v.args[0], v.args[1])
    return mk("discr", v)


# ------------------------------------------------------------- sequences
def length(v):
    if v.op in ("phi", "sym", "field") and v.ty is not None and getattr(v.ty, "k", None) == "array":
        try:
            return INT(int(v.ty.n))
        except (TypeError, ValueError):
            pass
    op = v.op
    if op == "arr":
        return INT(len(v.args[0]))
    if op == "fill":  # fill(value, n)
        return v.args[1]
    if op == "slice":
        return sub(v.args[2], v.args[1])
    if op in ("eupd", "perm"):
        return length(v.args[0])
    if op == "supd":  # supd(base,a,b,val): base with [a..b] overwritten
        return length(v.args[0])
    if op == "push":
        return add(length(v.args[0]), INT(1))
    if op == "ext":  # ext(base, other)
        return add(length(v.args[0]), length(v.args[1]))
    if op == "str":
        return INT(len(v.args[0].encode()))
    if op == "hav":  # hav(base, sym): same length, unknown contents
        return length(v.args[0])
    if op == "agg" and v.args[0] == "std::boxed::Box":
        return length(v.args[2][0])
    if op == "deref":  # slices and strings: the pointer and the pointee have one length
        return length(v.args[0])
    return mk("len", v)


def slice_(v, a, b):
    if int_val(a) == 0 and b is length(v):
        return v
    if v.op == "slice":
        return slice_(v.args[0], add(v.args[1], a), add(v.args[1], b))
    if v.op == "supd" and v.args[1] is a and v.args[2] is b:
        return v.args[3]
    if v.op == "arr":
        x, y = int_val(a), int_val(b)
        if x is not None and y is not None and 0 <= x <= y <= len(v.args[0]):
            return mk("arr", v.args[0][x:y])
    if v.op == "fill":
        return mk("fill", v.args[0], sub(b, a))
    return mk("slice", v, a, b)


def elem(v, i, ty=None):
    if v.op == "arr":
        k = int_val(i)
        if k is not None and 0 <= k < len(v.args[0]):
            return v.args[0][k]
    if v.op == "fill":
        return v.args[0]
    if v.op == "slice":
        return elem(v.args[0], add(v.args[1], i), ty)
    if v.op == "eupd":
        b, j, val = v.args
        d = int_val(sub(i, j))
        if d == 0:
            return val
        if d is not None:
            return elem(b, i, ty)
    if v.op == "push":
        d = int_val(sub(i, length(v.args[0])))
        if d == 0:
            return v.args[1]
        if d is not None and d < 0:
            return elem(v.args[0], i, ty)
    return mk("elem", v, i, ty=ty)


def proj(v, step, ty=None):
    k = step[0]
    if k == "f":
        return field(v, step[1], step[2], ty)
    if k == "e":
        return elem(v, step[1], ty)
    return slice_(v, step[1], step[2])


def store(v, path, val):
    if not path:
        return val
    step = path[0]
    new = val if len(path) == 1 else store(proj(v, step), path[1:], val)
    k = step[0]
    if k == "f":
        if v.op == "agg" and (step[1] is None or step[1] == v.args[1]) and step[2] < len(v.args[2]):
            fs = list(v.args[2])
            fs[step[2]] = new
            return mk("agg", v.args[0], v.args[1], tuple(fs), ty=v.ty)
        if v.op == "upd" and v.args[1] == step:
            v = v.args[0]
        return mk("upd", v, step, new)
    if k == "e":
        n = int_val(step[1])
        if v.op == "arr" and n is not None and 0 <= n < len(v.args[0]):
            fs = list(v.args[0])
            fs[n] = new
            return mk("arr", tuple(fs))
        if v.op == "eupd" and v.args[1] is step[1]:
            v = v.args[0]
        return mk("eupd", v, step[1], new)
    if int_val(step[1]) == 0 and step[2] is length(v):
        return new
    if v.op == "slice":
        # storing inside a slice value: keep it a slice update
        pass
    return mk("supd", v, step[1], step[2], new)


# ------------------------------------------------------------- printing
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 10:
        return "…"
    op = t.op
    if op == "lin":
        c, items = t.args
        s = []
        for a, k in items:
            x = show(a, depth + 1)
            if k == 1:
                s.append("+" + x)
            elif k == -1:
                s.append("-" + x)
            else:
                s.append("%+d*%s" % (k, x))
        if c or not s:
            s.append("%+d" % c if s else "%d" % c)
        r = "".join(s)
        if r.startswith("+"):
            r = r[1:]
        return r if len(items) + (1 if c else 0) <= 1 else "(" + r + ")"
    if op == "bool":
        return str(t.args[0]).lower()
    if op == "str":
        return repr(t.args[0])
    if op == "agg":
        k, v, f = t.args
        return "%s#%s(%s)" % (str(k).split("::")[-1], v, ", ".join(show(x, depth + 1) for x in f))
    if op == "sym":
        return "$" + ".".join(str(a).split("::")[-1] if not isinstance(a, tuple) else "@" for a in t.args[:1]) + "%d" % t.id
    if op == "phi":
        return "φ%d" % t.id
    if op == "field":
        b, v, i = t.args
        return "%s%s.%s" % (show(b, depth + 1), "" if v is None else "?%s" % v, i)
    if op == "app":
        return "%s(%s)" % (str(t.args[0]).split("::")[-1], ", ".join(show(x, depth + 1) for x in t.args[1]))
    if op == "arr":
        v = t.args[0]
        if len(v) > 8:
            return "[%d elems]" % len(v)
        return "[" + ",".join(show(x, depth + 1) for x in v) + "]"
    if op == "ref":
        return "&%s%s" % (t.args[0], "".join("." + str(x) for x in t.args[1]))
    return "%s(%s)" % (op, ", ".join(show(a, depth + 1) for a in t.args))
