"""The index of paths (PathPrefixTree) behind the image source and the remapping source, by induction over its loops.  A walk
is a pointer carried round two loops; every value it takes must be one child step by the next byte of the current component's
name, or one step into the record's subtree where the component's bytes are used up.  Insertion ends at the record reached by
exactly the name's bytes and never replaces a record.  Iteration expands every child of every node taken from its queue."""
from base import *
from phis import Phis

PPT = "xdvdfs::write::fs::PathPrefixTree"
PATHVEC = "xdvdfs::write::fs::PathVec"
ITER = "xdvdfs::write::fs::PPTIter"


def last(t):
    return t.args[0].rsplit("::", 1)[-1] if t.op == "app" else None


def same_text(t):
    """through conversions that keep a text"""
    while t.op == "app" and len(t.args[1]) == 1 and last(t) in ("to_owned", "to_path_buf", "into", "from", "clone", "as_path", "borrow", "as_ref", "new",
                                                               "into_path_buf", "to_string", "as_str", "deref", "into_owned"):
        t = t.args[1][0]
    return t


def element(I, t, seq):
    """the index of t among the elements of seq (by value or by reference), or None"""
    t = same_text(t)
    if t.op == "ref" and t.args[1] and t.args[1][-1][0] == "e" and t.args[0][0] == "D":
        x = mk("deref", t.args[0][1])
        for st in t.args[1][:-1]:
            if st[0] != "f":
                return None
            x = field(x, st[1], st[2])
        return t.args[1][-1][1] if x is seq else None
    if t.op == "elem" and t.args[0] is seq:
        return t.args[1]
    return element(I, t.args[0], seq) if t.op == "deref" else None


class Walk:
    """the walk(s) a function makes from `self` through an index"""

    def __init__(self, R, I, rule, what, span, seq, start, single):
        """seq: the path's components, or the one name walked when `single`"""
        self.R, self.I, self.rule, self.what, self.span = R, I, rule, what, span
        self.P = Phis(I)
        self.seq, self.start, self.single = seq, start, single
        kc, kr = R.field(PPT, "children"), R.field(PPT, "record")
        self.C = (("f", None, kc), ("e", None), ("f", 1, 0), ("f", None, 0))
        self.S = (("f", None, kr), ("f", 1, 0), ("f", None, 1), ("f", None, 0))
        self.G = (("f", None, kr), ("f", 1, 0), ("f", None, 0))
        self.memo, self.rmemo = {}, {}

    def ob(self, key, good, what, msg):
        self.R.ob(self.rule, "%s:%s" % (self.what, key), good, what, self.span, "%s: %s" % (self.what, msg))
        return good

    def parse(self, v):
        """(where it starts, steps taken)"""
        if v.op != "ref" or v.args[0][0] != "D":
            return v, []
        path, out = list(v.args[1]), []
        while path:
            for k, pat in (("S", self.S), ("C", self.C), ("G", self.G)):
                seg = tuple(path[:len(pat)])
                if len(seg) == len(pat) and all(a == b or b == ("e", None) and a[0] == "e" for a, b in zip(seg, pat)):
                    out.append((k, seg[1][1] if k == "C" else None))
                    path = path[len(pat):]
                    break
            else:
                return v, [("?", None)]
        q, more = self.parse(v.args[0][1])
        return q, more + out

    def name(self, p):
        """p is carried over the bytes of one name: (name, its bytes, index of the next byte); None when it is not"""
        if p in self.memo:
            return self.memo[p]
        P = self.P
        r = self.memo[p] = None
        if P.carried(p):
            cs = P.counters(p)
            for v, f in P.steps(p)[1].values():
                for x, g in P.expand(v, f):
                    q, st = self.parse(x)
                    if q is not p or [k for k, _ in st] != ["C"]:
                        return None
                    s, i = self.byte(st[0][1])
                    t = self.text(s) if s is not None else None
                    good = i in cs and t is not None and (r is None or r == (t, P.settle(s), i))
                    self.ob("byte", good, "each byte of a name is one child step", "a round of the walk goes to " + show(x))
                    if good:
                        r = (t, P.settle(s), i)
        self.memo[p] = r
        return r

    def byte(self, b):
        """b is a byte: (the bytes it is of, its index)"""
        while b.op == "cast" or b.op == "app" and last(b) in ("from", "into") and len(b.args[1]) == 1:
            b = b.args[0] if b.op == "cast" else b.args[1][0]
        return b.args if b.op == "elem" else (None, None)

    def text(self, s):
        """the text that s holds the bytes of"""
        s = self.P.settle(s)
        if s.op == "app" and last(s) in ("bytes", "as_bytes"):
            return s.args[1][0]
        return s.args[0] if s.op == "bytes" else s if s.op in ("deref", "elem", "sym", "field", "phi") else None

    def component(self, text, loop):
        """text is the name of the round's component: its index, as a term valid in that round"""
        P, I = self.P, self.I
        text = P.settle(text)
        j = element(I, text, self.seq)
        if j is not None:
            j = P.settle(j)
            return j if P.carried(j) and j.args[:2] == loop and j in P.counters(j) else None
        x = same_text(text)
        while x.op == "deref":
            x = x.args[0]
        if not (P.carried(x) and x.args[:2] == loop):
            return None
        for r in [q for q in I.phi_info if q.args[:2] == loop and P.carried(q) and q is not x]:
            if set(I.phi_info[r]) != set(I.phi_info[x]):
                continue
            d, good = None, True
            for ed, (v, f, _) in I.phi_info[x].items():
                w, f2, _ = I.phi_info[r][ed]
                back = ed in P.steps(x)[1]
                for y, g in P.expand(tup(v, w), f | f2):
                    c, r1 = element(I, y.args[2][0], self.seq), y.args[2][1]
                    if c is None:
                        good = False
                        break
                    k = sub(r1, c)
                    d = d or k
                    good = good and k.op == "lin" and not k.args[1] and k is d and (isint_const(sub(r1, r), 1) if back else isint_const(c, 0))
            if good and d is not None:
                return sub(r, d)
        return None

    def whole(self, q, facts):
        """the walk leaves the bytes of q's name"""
        n, s, i = self.name(q)
        return self.ob("whole", prove(self.I, facts, le(length(s), i)), "a name is walked to its last byte", "the walk leaves a name before its last byte")

    def origin(self, q):
        """where the walk over q's name starts"""
        return {x for v, f in self.P.steps(q)[0].values() for x, _ in self.P.expand(v, f)}

    def rounds(self, p):
        """p is carried over the components: every round is one whole name and, where more follows, a step below its record.
        Returns (number of components taken at the head of a round, whether the last of them is left above its record)"""
        if p in self.rmemo:
            return self.rmemo[p]
        P, I = self.P, self.I
        self.rmemo[p] = None, False
        s, b = P.steps(p)
        n = length(self.seq)
        taken, above, below = None, [], []
        for v, f in s.values():
            for x, g in P.expand(v, f):
                self.ob("root", self.parse(x) == (self.start, []), "the walk starts at the tree given", "the walk starts at " + show(x))
        for v, f in b.values():
            for x, g in P.expand(v, f):
                q, st = self.parse(x)
                st = [k for k, _ in st]
                if self.name(q) is None or st not in (["S"], []):
                    self.ob("component", False, "", "a component takes the walk to %s" % show(x))
                    continue
                self.whole(q, g)
                o = self.origin(q)
                self.ob("from", o == {p}, "a name is walked from where the component before ended", "a name's walk starts at " + ", ".join(map(show, o)))
                c = self.component(self.name(q)[0], p.args[:2])
                if self.ob("order", c is not None, "component after component", "the components walked are " + show(self.name(q)[0])):
                    taken = c
                    g = self.same(p, c, g)
                    if st:
                        below.append(prove(I, g, lt(add(c, INT(1)), n)))
                    else:
                        above.append(prove(I, g, le(n, add(c, INT(1)))))
                self.ob("component", bool(st) or c is not None and above[-1], "below the record of the component just walked",
                        "a component takes the walk to %s although more follows" % show(x))
        self.rmemo[p] = taken, bool(above) and all(above) and all(below)
        return self.rmemo[p]

    def same(self, p, c, facts):
        """all values of p's loop that count its rounds from zero are equal"""
        return frozenset(facts) | {eq(k, c) for k in self.P.counters(p)}

    def final(self, v, facts, ends):
        """v is the result of a walk along the whole path; ends: the steps after the last component's bytes"""
        for x, f in self.P.expand(v, facts):
            self.end(x, f, ends)

    def end(self, v, f, ends):
        I = self.I
        q, st = self.parse(v)
        st = [k for k, _ in st]
        below = [e for e in ends if e != "S"]
        if self.single:
            good = self.name(q) is not None
            if good:
                self.whole(q, f)
                self.ob("root", self.origin(q) == {self.start}, "the walk starts at the tree given", "the walk starts at " + ", ".join(map(show, self.origin(q))))
                self.ob("name", same_text(self.name(q)[0]) in (self.seq, mk("deref", self.seq)), "the name given is used", "the bytes are those of " + show(self.name(q)[0]))
            return self.ob("end", good and st == ends, "the walk ends at the name's record", "the walk ends at " + show(v))
        n = length(self.seq)
        if q is self.start:
            return self.ob("empty", prove(I, f, le(n, INT(0))) and st == below, "the empty path is the tree itself", "the walk ends at its start")
        if self.name(q) is not None:
            # directly behind a component's bytes
            o = self.origin(q)
            p = o.pop() if len(o) == 1 else None
            self.whole(q, f)
            if p is self.start:
                return self.ob("end", False, "", "only one component is walked")
            if not self.ob("from", p is not None and self.P.carried(p), "a name is walked from where the component before ended", "a name's walk starts at several places"):
                return
            self.rounds(p)
            c = self.component(self.name(q)[0], p.args[:2])
            self.ob("order", c is not None, "component after component", "the components walked are " + show(self.name(q)[0]))
            f = self.same(p, c, f) if c is not None else f
            return self.ob("end", st == ends and c is not None and prove(I, f, le(n, add(c, INT(1)))), "the walk ends after the last component",
                           "the walk can end at %s before the last component" % show(v))
        if self.P.carried(q):
            c, above = self.rounds(q)
            f = self.same(q, c, f) if c is not None else f
            return self.ob("end", (st == ends if above else "S" in ends and st == below) and c is not None and prove(I, f, le(n, c)), "the walk ends after the last component",
                           "the walk can end at %s before the last component" % show(v))
        return self.ob("end", False, "", "the walk ends at " + show(v))


def results(I):
    for st, v in I.results:
        for x, f in Phis(I).expand(v, st.facts):
            yield st, x, f


def lookups(R, rule):
    comp = R.field(PATHVEC, "components")
    kr, kc = R.field(PPT, "record"), R.field(PPT, "children")
    for name, ends in (("lookup_node", []), ("lookup_node_mut", []), ("lookup_subdir", ["S"]), ("get", ["G"])):
        path = PPT + "::<T>::" + name
        span = R.fn(path).span

        def learned(m, st, I):
            if m[0] == "walk" and any(g.op == "isvar" and g.args[1] == 0 and (g.args[0].op == "elem" and fld_of(g.args[0].args[0], kc) or fld_of(g.args[0], kr)) for g in st.facts):
                return [("missed",)]

        I = R.analyse(path, learned=learned, mon0=(("walk",),), esp=True)
        slf, p = I.rootargs
        W = Walk(R, I, rule, name, span, field(mk("deref", p), None, comp), slf, False)
        n = 0
        for st, x, f in results(I):
            if x.op == "agg" and x.args[1] == 1 and len(x.args[2]) == 1:
                n += 1
                gone = the_mon(st)[0] == "missed"
                R.ob(rule, name + ":missing", not gone, "nothing is found where a child or record is missing", span, name + ": the walk goes on although a step of the path is missing")
                if not gone:
                    W.final(x.args[2][0], f, ends)
            else:
                miss = the_mon(st)[0] == "missed"
                R.ob(rule, name + ":none", miss, "nothing is found only where there is no child or record", span, name + ": a path can count as missing although every step exists")
        R.ob(rule, name + ":some", n > 0, "paths can be found", span, name + ": nothing is ever found")


def fld_of(t, k):
    return t.op == "field" and t.args[-1] == k


def insertion(R, rule):
    path = PPT + "::<T>::insert_tail"
    span = R.fn(path).span
    I = R.analyse(path, esp=True)
    slf, tail, val = I.rootargs
    kr = R.field(PPT, "record")
    W = Walk(R, I, rule, "insert_tail", span, tail, slf, True)
    n = 0
    for st, x, f in results(I):
        n += 1
        W.final(x, f, ["S"])
        q = W.parse(x)[0]
        old = field(mk("deref", q), None, kr)
        now = I.load(st, mk("ref", ("D", q), (("f", None, kr),), True))
        for y, g in W.P.expand(now, f):
            fresh = any(h.op == "isvar" and h.args[0] is old and h.args[1] == 0 for h in g)
            kept = any(h.op == "isvar" and h.args[0] is old and h.args[1] == 1 for h in g)
            if kept:
                good = cong(I, y, old) or cong(I, y, mk("agg", "Option", 1, (field(old, 1, 0),))) or y.op == "agg" and y.args[1] == 1 and cong(I, y.args[2][0], field(old, 1, 0))
                R.ob(rule, "insert_tail:keep", good, "what is recorded stays", span, "insert_tail: an existing record becomes " + show(y))
            else:
                t = y.args[2][0] if y.op == "agg" and y.args[1] == 1 and y.args[2] else y
                good = fresh and t.op == "agg" and len(t.args[2]) == 2 and (t.args[2][0] is val) and empty(R, t.args[2][1])
                R.ob(rule, "insert_tail:record", good, "the value is recorded where there was none, with nothing below", span, "insert_tail: the record becomes " + show(y))
    R.ob(rule, "insert_tail:returns", n > 0, "insertion ends", span)
    I = R.analyse("<%s<T> as std::default::Default>::default" % PPT, esp=True)
    for st, v in I.results:
        R.ob(rule, "default", empty(R, v), "a new tree is empty", span, "a new tree is " + show(v))


def empty(R, t):
    t = strip_box(t)
    if t.op == "app" and t.args[0].startswith("default") and "PathPrefixTree" in show(t):
        return True     # the default of the tree, decided below
    if t.op != "agg" or t.args[0] != PPT:
        return False
    c, r = t.args[2][R.field(PPT, "children")], t.args[2][R.field(PPT, "record")]
    return r.op == "agg" and r.args[1] == 0 and c.op == "fill"


def iteration(R, rule):
    kr, kc = R.field(PPT, "record"), R.field(PPT, "children")
    path = PPT + "::<T>::iter"
    span = R.fn(path).span
    I = R.analyse(path, esp=True)
    kq = R.field(ITER, "queue")
    for st, v in I.results:
        q = field(v, None, kq)
        good = q.op == "arr" and len(q.args[0]) == 1 and q.args[0][0].op == "agg" and isint_const(length(q.args[0][0].args[2][0]), 0) and q.args[0][0].args[2][1] is I.rootargs[0]
        R.ob(rule, "iter:start", good, "iteration starts with the tree itself", span, "iteration starts with " + show(q))
    path = "<%s<'a, T> as std::iter::Iterator>::next" % ITER
    span = R.fn(path).span
    I = R.analyse(path, esp=True)
    P = Phis(I)
    queues = [p for p in I.phi_info if P.carried(p) and changes(P, p, kq)]
    R.ob(rule, "iter:grows", len(queues) == 1, "the queue grows by the children", span, "next: children are not queued in one loop")
    if len(queues) != 1:
        return
    p = queues[0]
    mine = queue(p, kq)
    cs = P.counters(p)
    src = ent = idx = None
    for v, f in P.steps(p)[0].values():
        for x, g in P.expand(v, f):
            x = queue(x, kq)
            good = x.op == "slice" and isint_const(x.args[1], 0) and sub(length(x.args[0]), x.args[2]) is INT(1)
            R.ob(rule, "iter:taken", good, "only the entry taken leaves the queue", span, "next: the queue becomes " + show(x))
            if good:
                src, ent = x.args[0], mk("elem", x.args[0], x.args[2])
    if ent is None:
        return
    node, name = mk("deref", field(ent, None, 1)), field(ent, None, 0)
    kids = field(node, None, kc)
    backs = [(queue(x, kq), g) for v, f in P.steps(p)[1].values() for x, g in P.expand(v, f)]
    for x, g in backs:
        if x is mine:
            continue
        i = pushed(P, x.args[1], node, name, kc, cs) if x.op == "push" and x.args[0] is mine else None
        if R.ob(rule, "iter:push", i is not None, "an existing child is queued under its byte", span, "next: a child is queued as " + show(x)):
            idx = i
    for x, g in backs:
        if x is mine:
            child = [h for h in g if h.op == "isvar" and h.args[1] == 0 and h.args[0].op == "elem" and P.settle(h.args[0].args[1]) in cs and
                     (P.settle(h.args[0].args[0]) is kids or fld(I, P.settle(h.args[0].args[0]), kc) is node)]
            R.ob(rule, "iter:skip", bool(child), "only children that do not exist are left out", span, "next: an existing child can be left out")
    every = frozenset({eq(length(kids), INT(256))} | {eq(k, idx) for k in cs if idx is not None})

    def through(f):
        f = frozenset(P.settle(h) for h in f)
        same = {eq(a, INT(256)) for h in f for a in allsubs(h) if a.op == "len" and fld(I, a.args[0], kc) is node}
        return idx is not None and prove(I, f | every | same, le(INT(256), idx))

    n = 0
    for st, x, f in results(I):
        if x.op == "agg" and x.args[1] == 1:
            n += 1
            t = x.args[2][0]
            nm, rec = t.args[2] if t.op == "agg" and len(t.args[2]) == 2 else (t, t)
            nm, rec = P.settle(nm), P.settle(rec)
            good = rec.op == "ref" and rec.args[0][0] == "D" and tuple(rec.args[1]) == (("f", None, kr), ("f", 1, 0), ("f", None, 0)) and mk("deref", P.settle(rec.args[0][1])) is node
            R.ob(rule, "iter:record", good, "the record of the node taken is returned", span, "next: what is returned is " + show(rec))
            R.ob(rule, "iter:name", name in allsubs(nm) and all(last(a) in ("from_utf8_lossy", "into_owned", "from_utf8", "to_owned", "unwrap", "as_slice", "clone", "from_utf8_unchecked", "to_string")
                                                                for a in allsubs(nm) if a.op == "app"), "under the name collected", span, "next: the name returned is " + show(nm))
            R.ob(rule, "iter:all", through(f), "after its children were gone through", span, "next: a record is returned before all children were queued")
        else:
            R.ob(rule, "iter:end", ended(I, P, f, kq), "the end is reported with an empty queue", span, "next: the end is reported although the queue is not empty")
    R.ob(rule, "iter:some", n > 0, "records are returned", span)
    # a node without a record is not skipped without its children: the round ends after the loop
    for q in I.phi_info:
        if q is not p and q.args[:2] != p.args[:2] and P.carried(q) and queue(q, kq) is src:
            for v, f in P.steps(q)[1].values():
                for x, g in P.expand(v, f):
                    R.ob(rule, "iter:round", queue(x, kq) is mine and through(g), "a round ends with the children queued", span, "next: a node can be dropped without its children: " + show(x))


def fld(I, s, k):
    """the node whose children array s is (by value or reference)"""
    if s.op == "deref":
        s = s.args[0]
        if s.op == "ref" and s.args[0][0] == "D" and tuple(s.args[1]) == (("f", None, k),):
            return mk("deref", s.args[0][1])
        return None
    if s.op == "ref" and s.args[0][0] == "D" and tuple(s.args[1]) == (("f", None, k),):
        return mk("deref", s.args[0][1])
    if s.op == "field" and s.args[-1] == k:
        return s.args[0]
    return None


def queue(t, kq):
    """the queue inside an iterator state (or the queue itself)"""
    if t.op in ("upd", "agg", "phi"):
        return field(t, None, kq)
    return t


def changes(P, p, kq):
    return any(x.op == "push" for v, f in P.steps(p)[1].values() for y, g in P.expand(v, f) for x in [queue(y, kq)])


def ended(I, P, f, kq):
    """the facts say that the queue of the round is empty"""
    slf = mk("deref", I.rootargs[0])
    for p in I.phi_info:
        if P.carried(p) and all(x is slf or x is field(slf, None, kq) for v, g in P.steps(p)[0].values() for x, _ in P.expand(v, g)):
            q = field(p, None, kq) if any(x is slf for v, g in P.steps(p)[0].values() for x, _ in P.expand(v, g)) else p
            if prove(I, f, le(length(q), INT(0))):
                return True
    return False


def pushed(P, x, node, name, kc, cs):
    """x is (name + byte, child) of the current child: the child's index"""
    x = P.settle(x)
    if x.op != "agg" or len(x.args[2]) != 2:
        return None
    nm, ch = x.args[2]
    if nm.op != "push" or P.settle(nm.args[0]) is not name:
        return None
    b = nm.args[1]
    while b.op in ("trunc", "cast"):
        b = b.args[0] if b.op == "trunc" else b.args[1]
    if b not in cs or ch.op != "ref":
        return None
    path = list(ch.args[1])
    base_ = P.settle(mk("deref", ch.args[0][1])) if ch.args[0][0] == "D" else None
    if path and path[0] == ("f", None, kc):
        good = base_ is node
        path = path[1:]
    else:
        good = base_ is not None and fld(P.I, base_, kc) is node
    good = good and len(path) == 3 and path[0][0] == "e" and path[0][1] in cs and tuple(path[1:]) == (("f", 1, 0), ("f", None, 0))
    return path[0][1] if good else None


def check(R, rule):
    lookups(R, rule)
    insertion(R, rule)
    iteration(R, rule)
