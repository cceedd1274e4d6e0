"""Directory tables.  Symbolic induction over the loops of the table writer: the vector of entry lengths, the array of entry
positions and the bytes of the table are loop-carried values whose one-step change is computed symbolically for every path;
with the position of entry k-1 and the lengths of entries k-1 and k arbitrary, the position of entry k must be the next
4-byte aligned place at which the entry does not cross a sector; the bytes appended for entry k must be 0xff up to that position, then
its 14 bytes, its encoded name and 0xff up to a multiple of four; the node encoded must carry the allocated sector, the entry's
own size, attributes and encoded name length and its children's positions divided by four.  The size computation must
follow the same recurrence, which determines it."""
from base import *
from rules.c13 import DTW, LISTING, DISKREPR
from rules.c20 import bitno
from rules.c12 import ENCODE, DATA, mult, lengths, encode

FLOORS = {"offsets": 5, "bytes": 6, "node": 7, "listing": 3, "total": 3, "size": 5, "length": 2, "visit": 3, "encode": 5}
M = "xdvdfs::write::"
REPR, CSIZE, SIZE = (DTW + "::" + n for n in ("disk_repr", "compute_size", "dirtab_size"))
REORDER = M + "avl::AvlTree::<T>::reorder_backing_preorder"
LEN = DATA + "::len_on_disk"
ALLOC = M + "sector::SectorAllocator::allocate_contiguous"
SER = DISKNODE + "::serialize"
TREE, ANODE = M + "avl::AvlTree", M + "avl::AvlNode"


def at(e, *tag, ty=None):
    return mk("sym", "call", e.ctx, e.bb, ("scn",) + tag, ty=ty)


# ---------------------------------------------------------------- case splits
def plain_phis(I, ts):
    out = []
    for t in ts:
        for a in sorted(allsubs(t), key=lambda x: x.id):
            if a.op == "phi" and a in I.phi_info and not any(b for _, _, b in I.phi_info[a].values()) and a not in out and a.args[0] is not None:
                out.append(a)
    return out


def split(facts):
    """resolve disjunctions among the facts"""
    for f in facts:
        if f.op == "not" and f.args[0].op == "andb":
            out = []
            for side in f.args[0].args:
                out += split(unfold((facts - {f}) | {notb(side)}))
            return [x for x in out if not entail.inconsistent(x)]
    return [facts]


def unfold(facts):
    out = set()
    for f in facts:
        if f.op == "andb":
            out |= unfold(frozenset(f.args))
        elif f.op == "not" and f.args[0].op == "not":
            out |= unfold(frozenset([f.args[0].args[0]]))
        else:
            out.add(f)
    return frozenset(out)


def lin_facts(facts):
    return [f for f in facts if f.op in ("le", "eq") or f.op == "not"]


def full_alts(I, v, facts, env=None, n=12):
    """all the ways the value and the conditions known about it can have come about: [(value, facts)]"""
    env = env or {}
    ph = (plain_phis(I, [v]) or plain_phis(I, lin_facts(facts))) if n else []
    if not ph:
        return [(v, f) for f in split(unfold(facts))]
    p = ph[0]
    out = []
    for x, f, _ in I.phi_info[p].values():
        m = {k: subst(y, {p: subst(x, env)}) for k, y in env.items()}
        m[p] = subst(x, env)
        fs = unfold(frozenset(subst(g, m) for g in facts | f))
        if FALSE in fs or clash(fs) or entail.inconsistent(fs):
            continue
        out += full_alts(I, subst(v, m), fs, m, n - 1)
    return out


# ---------------------------------------------------------------- loop-carried values
def steps(I, p):
    """(start values, [(value after one round, facts)]) of a loop-carried value"""
    info = I.phi_info[p].values()
    return [v for v, f, b in info if not b], [(v, f) for v, f, b in info if b]


def loop_phi(I, p):
    return p.op == "phi" and p in I.phi_info and any(b for _, _, b in I.phi_info[p].values())


def same_loop(a, b):
    return a.args[:2] == b.args[:2]


def next_of(v, p):
    return v is add(p, INT(1)) or v.op == "trunc" and v.args[0] is add(p, INT(1))


def indices(I, p, start=0):
    """the counters of p's loop that start at `start` and go up by one"""
    out = []
    for q in I.phi_info:
        if same_loop(p, q) and loop_phi(I, q):
            s, b = steps(I, q)
            if all(int_val(x) == start for x in s) and b and all(next_of(v, q) for v, _ in b):
                out.append(q)
    return out


def pieces(v, base_):
    """what was appended to base_ to give v, in order; None when v was not made that way"""
    out = []
    while v is not base_:
        if v.op == "ext":
            out.append(v.args[1])
            v = v.args[0]
        elif v.op == "push":
            out.append(mk("arr", (v.args[1],)))
            v = v.args[0]
        else:
            return None
    return out[::-1]


def is_ff(p):
    return p.op == "fill" and isint_const(p.args[0], 255) or p.op == "arr" and all(isint_const(x, 255) for x in p.args[0])


class Layout:
    """one run of the table writer"""

    def __init__(self, R):
        self.R = R
        self.lens = {}
        u32, u8, u64 = int_ty(R, "u32"), int_ty(R, "u8"), int_ty(R, "u64")
        self.u64 = u64
        VEC = R.field(TREE, "tree")

        def result(I, st, e, ret):
            m = the_mon(st)
            if e.name == REORDER:
                old = e.snap[0]
                new = at(e, "tree")
                s = st.copy()
                if e.args[0].op == "ref":
                    I.set(s, e.args[0], new)
                if not I.assume(s, eq(length(field(new, None, VEC)), length(field(old, None, VEC)))):
                    return None
                s.mon = frozenset([m])
                return [(s, UNIT)]
            if e.name == LEN:
                x = at(e, "len", ty=u32)
                self.lens[x] = e
                return cases(case(I, st, ok(x), m), case(I, st, err(at(e, "e")), "failed"))
            if e.name == ENCODE:
                w = at(e, "w", ty=u8)
                return cases(case(I, st, ok(w), m), case(I, st, err(at(e, "e")), "failed"))
            if e.name == SER:
                b = at(e, "bytes")
                return cases(case(I, st, ok(b), m, [eq(length(b), INT(14))]), case(I, st, err(at(e, "e")), "failed"))
            if e.name == CSIZE:
                return cases(case(I, st, ok(UNIT), m), case(I, st, err(at(e, "e")), "failed"))

        self.I = R.analyse(REPR, result=result, opaque=lambda p: p in (REORDER, LEN, ENCODE, SER, CSIZE, ALLOC), mon0=("fine",), esp=True,
                           disj=True, cap=600)
        self.span = R.fn(REPR).span

    # -- names for the entries
    def entry(self, t):
        """(vector, position) of the tree entry a term speaks about"""
        els = [x for x in allsubs(t) if x.op == "elem" and any(f.op == "field" and f.args[0] is x for f in allsubs(t))]
        els = [x for x in els if not any(y is not x and occurs(x, y) for y in els)]
        return els[0].args if len(els) == 1 else None

    def L(self, j):
        """length of entry j: a multiple of four between 16 and 272"""
        return scale(mk("app", "entry.len4", (j,), ty=self.u64), 4)

    def L_facts(self, ts):
        out = set()
        for t in ts:
            for a in allsubs(t):
                if a.op == "app" and a.args[0] == "entry.len4":
                    out |= {le(INT(4), a), le(a, INT(68))}
        return out

    def mapped(self, v):
        """v holds the length of entry j at position j, for every entry"""
        I = self.I
        if not loop_phi(I, v):
            return False
        start, back = steps(I, v)
        idx = indices(I, v)
        good = all(x.op == "arr" and not x.args[0] for x in start) and bool(back)
        for x, f in back:
            e = self.lens.get(x.args[1]) if x.op == "push" and x.args[0] is v else None
            en = self.entry(e.snap[0]) if e is not None else None
            good = good and en is not None and en[0] is self.T and en[1] in idx and is_data(self.R, e.snap[0], mk("elem", *en))
        return good

    def read(self, v, j, facts):
        """element j of a vector made from the lengths"""
        I = self.I
        if v.op == "eupd":
            if equal(I, facts, v.args[1], j):
                return v.args[2]
            if prove(I, facts, lt(v.args[1], j)) or prove(I, facts, lt(j, v.args[1])):
                return self.read(v.args[0], j, facts)
            return None
        if v.op == "perm" and v.args[1] == "rotate_right" and len(v.args[2]) == 1 and int_val(v.args[2][0]) == 1:
            if prove(I, facts, le(INT(1), j)):
                return self.read(v.args[0], sub(j, INT(1)), facts)
            if equal(I, facts, j, INT(0)):
                return self.read(v.args[0], sub(length(self.T), INT(1)), facts)
            return None
        if v.op == "push" and equal(I, facts, length(v.args[0]), j):
            return v.args[1]
        if v in self.vecs or self.mapped(v):
            self.vecs.add(v)
            return self.L(j)
        return None

    def simplify(self, t, facts, hook=lambda a: None):
        """restate lengths of entries as L(j) and array reads by `hook`"""
        m = {}
        for a in allsubs(t):
            r = None
            if a in self.lens:
                en = self.entry(self.lens[a].snap[0])
                r = self.L(en[1]) if en is not None else None
            elif a.op == "elem":
                r = hook(a)
                if r is None:
                    r = self.read(a.args[0], a.args[1], facts)
            elif a.op == "len" and a.args[0] in self.vecs:
                r = length(self.T)
            elif a.op == "len" and a.args[0] in self.arrays:
                r = length(self.T)
            if r is not None and r is not a:
                m[a] = r
        return subst(t, m) if m else t

    def check(self):
        R, I = self.R, self.I
        enc, ser, alloc = evs(I, ENCODE), evs(I, SER), evs(I, ALLOC)
        if len(enc) != 1 or len(ser) != 1 or len(alloc) != 1:
            R.ob("node", "once", False, "", self.span, "each entry is encoded, allocated and serialised %d, %d and %d times" % (len(enc), len(alloc), len(ser)))
            return
        enc, ser, alloc = enc[0], ser[0], alloc[0]
        en = self.entry(enc.snap[0])
        if en is None:
            R.ob("node", "entry", False, "", where(enc), "the name encoded is of %s, not of an entry of the tree" % show(enc.snap[0]))
            return
        self.T, self.k = en
        self.x = mk("elem", *en)
        self.vecs, self.arrays = set(), set()
        self.vecs = {p for p in list(I.phi_info) if self.mapped(p)}
        self.node(enc, ser, alloc)
        outs = []
        for st, v in I.results:
            if not is_ok(v):
                continue
            r = payload(v)
            for t, f in full_alts(I, tup(field(r, None, R.field(DISKREPR, "entry_table")), field(r, None, R.field(DISKREPR, "file_listing"))), st.facts):
                outs.append((strip_box(t.args[2][0]), t.args[2][1], f, the_mon(st)))
        good = 0
        for tab, lst, f, m in outs:
            R.ob("total", "ok:" + m, m == "fine", "success only when nothing failed", self.span, "a table is returned although a name or entry could not be encoded")
            f = frozenset(self.simplify(g, f) for g in f)
            if FALSE in f or entail.inconsistent(f):
                continue
            if lst.op == "arr" and not lst.args[0]:
                n = self.table_len()
                R.ob("total", "empty", equal(I, f, n, INT(0)) and is_ff(tab) and isint_const(length(tab), 2048),
                     "an empty table is one sector of 0xff", self.span, "a table without entries is %s although there may be %s entries" % (show(tab), show(n)))
                continue
            good += 1
            self.listing(lst, alloc, f)
            self.table(tab, f, enc, ser)
        R.ob("total", "returns", good > 0, "tables are returned", self.span, "no path returns a table")

    def table_len(self):
        return length(flds(self.R, self.I.rootargs[0], (DTW, "table"), (TREE, "tree")))

    # -- one entry
    def node(self, enc, ser, alloc):
        R, I, x = self.R, self.I, self.x
        data = data_of(R, x)
        R.ob("node", "name", is_data(R, enc.snap[0], x), "the entry's own name is encoded", where(enc), "the name encoded is that of " + show(enc.snap[0]))
        dn = flds(R, data, (DATA, "node"))
        size = flds(R, dn, (DISKDATA, "data"), (REGION, "size"))
        R.ob("node", "request", equal(I, alloc.facts, alloc.args[1], size), "the entry's size is allocated", where(alloc),
             "the space allocated for an entry is %s bytes, not its size" % show(alloc.args[1]))
        n = ser.snap[0]
        d = flds(R, n, (DISKNODE, "dirent"))
        got = dict(sector=flds(R, d, (DISKDATA, "data"), (REGION, "sector")), size=flds(R, d, (DISKDATA, "data"), (REGION, "size")),
                   attributes=flds(R, d, (DISKDATA, "attributes")), length=flds(R, d, (DISKDATA, "filename_length")))
        want = dict(sector=alloc.ret, size=size, attributes=flds(R, dn, (DISKDATA, "attributes")), length=at(enc, "w"))
        text = dict(sector="allocated sector", size="size", attributes="attributes", length="encoded name length")
        for w in want:
            R.ob("node", w, cong(I, got[w], want[w]) or equal(I, ser.facts, got[w], want[w]), "the %s is recorded" % text[w], where(ser),
                 "an entry is written with %s instead of its %s" % (show(got[w]), text[w]))
        self.A = None
        for side, fld in (("left", "left_node"), ("right", "right_node")):
            v = flds(R, n, (DISKNODE, side + "_entry_offset"))
            kid = field(x, None, R.field(ANODE, fld))
            cases_ = full_alts(I, v, ser.facts)
            R.ob("node", side, bool(cases_), "the %s child is recorded" % side, where(ser))
            for y, f in cases_:
                some_, none_ = mk("isvar", kid, 1) in f, mk("isvar", kid, 0) in f
                if isint_const(y, 0) or isint_const(y, 0xffff):
                    R.ob("node", side + "-absent", none_ and not some_, "no child is recorded only when there is none", where(ser),
                         "the %s child is recorded as absent although there may be one" % side)
                    continue
                els = [a for a in subs(y) if a.op == "elem"] or [a for a in allsubs(y) if a.op == "elem" and a.args[0] is not self.T]
                ok_ = some_ and len(els) == 1 and y is div(els[0], INT(4)) and els[0].args[1] is field(kid, 1, 0)
                R.ob("node", side + "-child", ok_ and prove(I, f, le(y, INT(65535))), "a child is recorded as its position divided by four, which fits", where(ser),
                     "the %s child is recorded as %s, not as its position in the table divided by four" % (side, show(y)))
                if ok_:
                    if self.A is not None:
                        R.ob("node", "positions", els[0].args[0] is self.A, "both children by the same positions", where(ser),
                             "the positions used for the two children differ")
                    self.A = els[0].args[0]

    def listing(self, lst, alloc, facts):
        R, I = self.R, self.I
        if not loop_phi(I, lst):
            R.ob("listing", "loop", False, "", self.span, "the list of files returned is " + show(lst))
            return
        start, back = steps(I, lst)
        idx = indices(I, lst)
        R.ob("listing", "start", all(x.op == "arr" and not x.args[0] for x in start), "the list starts out empty", self.span)
        data = data_of(R, self.x)
        dn = flds(R, data, (DATA, "node"))
        for v, f in back:
            for y, g in full_alts(I, v, f):
                p = y.args[1] if y.op == "push" and y.args[0] is lst else None
                R.ob("listing", "every", p is not None, "every entry is listed once", self.span, "an entry of the table is not listed (or more than once): " + show(y))
                if p is None:
                    continue
                name = norm(I, field(p, None, R.field(LISTING, "name")))
                R.ob("listing", "name", cong(I, name, flds(R, data, (DATA, "name"))), "with its name", self.span, "an entry is listed under the name " + show(name))
                s = field(p, None, R.field(LISTING, "sector"))
                R.ob("listing", "sector", equal(I, g, s, alloc.ret), "with its sector", self.span, "an entry is listed with sector %s" % show(s))
                z = field(p, None, R.field(LISTING, "size"))
                R.ob("listing", "size", equal(I, g, z, flds(R, dn, (DISKDATA, "data"), (REGION, "size"))), "with its size", self.span, "an entry is listed with size " + show(z))
                b = field(p, None, R.field(LISTING, "is_dir"))
                a = field(flds(R, dn, (DISKDATA, "attributes")), None, 0)
                R.ob("listing", "kind", b.op == "bit" and b.args[0] is a and bitno(b) == 4, "with its kind", self.span, "an entry is listed as directory by " + show(b))
        R.ob("listing", "all", self.k in idx and prove(I, facts, le(length(self.T), self.k)), "all entries have been handled", self.span,
             "the table is returned before every entry has been handled")

    # -- positions
    def offsets(self, facts):
        """the array of positions follows the layout rule"""
        R, I, A = self.R, self.I, self.A
        if A is None or not loop_phi(I, A):
            R.ob("offsets", "array", False, "", self.span, "no array of entry positions was found (%s)" % (show(A) if A is not None else "none"))
            return
        start, back = steps(I, A)
        if all(x.op == "arr" and not x.args[0] for x in start):
            return self.pushed(back, facts)
        idx = indices(I, A, 1)
        if not idx and indices(I, A):
            return self.pushed(back, facts, start)
        R.ob("offsets", "counter", len(idx) == 1 and prove(I, facts, le(length(self.T), idx[0])), "positions are computed for entries 1, 2, ... to the last", self.span,
             "positions are not computed for every entry in turn")
        if len(idx) != 1:
            return
        i = idx[0]
        self.arrays.add(A)
        for s in start:
            self.arrays.add(s)
            R.ob("offsets", "first", self.read(s, INT(0), facts) is INT(0), "the first entry is at position 0", self.span, "the first entry's position is " + show(elem(s, INT(0))))
            R.ob("offsets", "length", self.read(s, i, frozenset([le(INT(1), i)])) is not None, "", self.span, "the positions do not start out as the entries' lengths: " + show(s))
        prev = scale(mk("sym", "scn", "prev4", ty=self.u64), 4)
        for v, f in back:
            for y, g in full_alts(I, v, f):
                if not (y.op == "eupd" and y.args[0] is A and y.args[1] is i):
                    R.ob("offsets", "step", False, "", self.span, "a round of the position loop does not set exactly the position of its own entry: " + show(y))
                    continue

                def hook(a):
                    if a.args[0] is A:
                        j = a.args[1]
                        if j is sub(i, INT(1)):
                            return prev
                        if prove(I, g, le(i, j)):
                            return self.read(start[0], j, g | {le(INT(1), i)})
                self.rule("offsets", add(prev, self.L(sub(i, INT(1)))), y.args[2], i, g, hook, self.span)

    def pushed(self, back, facts, lens=None):
        """positions are running sums: appended one by one, or put in the place of the entries' lengths"""
        R, I, A = self.R, self.I, self.A
        idx = indices(I, A)
        if lens:
            self.arrays |= {A, *lens}
            facts = frozenset(self.simplify(h, facts) for h in facts)
            for s in lens:
                R.ob("offsets", "length", all(self.read(s, q, frozenset([le(INT(0), q)])) is not None for q in idx), "", self.span,
                     "the positions do not start out as the entries' lengths: " + show(s))
        R.ob("offsets", "counter", any(prove(I, facts, le(length(self.T), q)) for q in idx), "positions are computed for every entry", self.span,
             "positions are not computed for every entry in turn")
        accs = [q for q in I.phi_info if same_loop(A, q) and loop_phi(I, q) and q not in idx and all(int_val(s) == 0 for s in steps(I, q)[0])]
        for v, f in back:
            done = False
            for a in accs:
                for av, _ in steps(I, a)[1]:
                    for y, g in full_alts(I, tup(v, av), f):
                        y, nxt = y.args[2]
                        hook = lambda t: None
                        if lens and y.op == "eupd" and y.args[0] is A and y.args[1] in idx:
                            j, y = y.args[1], mk("push", A, y.args[2])

                            def hook(t, j=j):
                                if t.args[0] is A and prove(I, g, le(j, t.args[1])):
                                    return self.read(lens[0], t.args[1], g)
                            nxt = self.simplify(nxt, g, hook)
                        elif lens or y.op != "push" or y.args[0] is not A:
                            continue
                        j = j if lens else next((q for q in idx if occurs(q, y) or occurs(q, nxt)), None)
                        for q in [x for x in self.lens if occurs(x, nxt)]:
                            j = self.entry(self.lens[q].snap[0])[1]
                        if j is None:
                            continue
                        done = True
                        four = scale(mk("sym", "scn", "acc4", ty=self.u64), 4)
                        m = {a: four}
                        g2 = frozenset(subst(self.simplify(h, g, hook), m) for h in g)
                        y2, n2 = (subst(self.simplify(h, g, hook), m) for h in (y.args[1], nxt))
                        R.ob("offsets", "sum", equal(I, g2 | self.L_facts([n2, y2]), n2, add(y2, self.L(j))), "the next entry follows", self.span,
                             "the running position after an entry is %s, not its position plus its length" % show(n2))
                        self.rule("offsets", four, y2, j, g2, hook, self.span, pre=True)
            R.ob("offsets", "running", done, "positions are running sums", self.span, "no running position was found for " + show(v))

    def rule(self, key, acc, pos, i, facts, hook, span, pre=False):
        """pos is the place of an entry of length L(i) when the entries before it end at acc"""
        R, I = self.R, self.I
        if not pre:
            facts = frozenset(self.simplify(g, facts, hook) for g in facts)
            pos = self.simplify(pos, facts, hook)
        same = {}
        for t in [pos] + list(facts):
            for a in allsubs(t):
                if a.op == "app" and a.args[0] == "entry.len4" and a.args[1][0] is not i and equal(I, facts, a.args[1][0], i):
                    same[a] = mk("app", "entry.len4", (i,), ty=self.u64)
        if same:
            facts = frozenset(subst(g, same) for g in facts)
            pos = subst(pos, same)
        layout_rule(R, I, key, acc, pos, self.L(i), unfold(facts) | self.L_facts([acc, pos, self.L(i)] + list(facts)), span)

    # -- bytes
    def table(self, tab, facts, enc, ser):
        R, I = self.R, self.I
        B = tab
        tail = []
        while B.op in ("ext", "push"):
            tail = pieces(B, B.args[0]) + tail
            B = B.args[0]
        if not loop_phi(I, B):
            R.ob("total", "bytes", False, "", self.span, "the table returned is " + show(tab))
            return
        n = length(tab)
        R.ob("total", "fill", all(map(is_ff, tail)), "a table is filled up with 0xff", self.span, "a table is filled up with " + ", ".join(map(show, tail)))
        R.ob("total", "sectors", mult(I, facts, n, 2048) and prove(I, facts, le(n, add(length(B), INT(2047)))), "a table takes whole sectors, no more than needed", self.span,
             "the table's size is %s, which is not its contents rounded up to sectors" % show(n))
        self.offsets(facts)
        start, back = steps(I, B)
        R.ob("bytes", "start", all(length(x) is INT(0) for x in start), "a table starts out empty", self.span, "a table starts out as " + ", ".join(map(show, start)))
        idx = indices(I, B)
        acc = scale(mk("sym", "scn", "acc4", ty=self.u64), 4)
        pos = scale(mk("sym", "scn", "pos4", ty=self.u64), 4)
        w = at(enc, "w")

        def state(t):
            m = {mk("len", B): acc}
            for a in allsubs(t):
                if a.op == "elem" and a.args[0] is self.A and a.args[1] in idx:
                    m[a] = pos
            return subst(t, m)
        hyp = {le(acc, pos), le(INT(0), w), le(w, INT(255)), eq(length(at(ser, "bytes")), INT(14))}
        for v, f in back:
            for y, g in full_alts(I, v, f):
                g = frozenset(state(h) for h in g) | hyp
                if FALSE in g or entail.inconsistent(g):
                    continue
                ps = pieces(y, B)
                if ps is None:
                    R.ob("bytes", "append", False, "", self.span, "a round does not only append to the table: " + show(y))
                    continue
                here, phase, good, msg = acc, 0, True, ""
                for p in ps:
                    if phase == 0 and p is at(ser, "bytes"):
                        R.ob("bytes", "position", equal(I, g, here, pos), "an entry is written at its position", self.span,
                             "an entry is written at %s, not at the position its parent records" % show(here))
                        phase = 1
                    elif phase == 1 and self.is_name(p, enc, g):
                        phase = 2
                    elif is_ff(p) and phase in (0, 2):
                        q = state(length(p))
                        R.ob("bytes", "gap", prove(I, g, le(INT(0), q)), "gaps have a size", self.span)
                    else:
                        good, msg = False, show(p)
                    here = add(here, state(length(p)))
                R.ob("bytes", "parts", good and phase == 2, "an entry is its 14 bytes, its name and 0xff", self.span,
                     "an entry is written with a part %s where its encoded node, name or 0xff belongs" % msg if msg else "an entry's node or name is not written")
                t = sub(here, pos)
                R.ob("bytes", "extent", prove(I, g, le(add(w, INT(14)), t)) and prove(I, g, le(t, add(w, INT(17)))) and mult(I, g, t, 4),
                     "an entry takes 14 bytes and its name, rounded up to four", self.span, "an entry takes %s bytes" % show(t))
        for e in evs(I, kind="panic"):
            if not e.name.startswith("panic:") or e.name.startswith("panic:expect") or not any(occurs(B, s) or occurs(self.A, s) for s in (e.snap or ()) if self.A is not None):
                continue
            if any(s.op == "trunc" or any(a.op == "trunc" for a in allsubs(s)) for s in e.snap):
                continue    # the recorded size against the bytes written: decided by the size rule
            bad = True
            for _, g in full_alts(I, UNIT, e.facts):
                g = frozenset(state(h) for h in g) | hyp
                if not absurd(I, g):
                    break
            else:
                bad = False
            R.ob("bytes", "assert", not bad, "an entry never misses its position", where(e), "creating a table can stop at this assertion")

    def is_name(self, p, enc, facts):
        if p.op != "slice" or not isint_const(p.args[1], 0):
            return False
        b = p.args[0]
        return b.op == "hav" and b.args[1].op == "sym" and b.args[1].args[1:3] == (enc.ctx, enc.bb) and equal(self.I, facts, p.args[2], at(enc, "w"))


def data_of(R, x):
    return field(field(x, None, R.field(ANODE, "data")), None, 0)


def absurd(I, facts):
    return FALSE in facts or entail.inconsistent(facts) or any(
        f.op == "not" and f.args[0].op == "eq" and equal(I, facts - {f}, f.args[0].args[0], INT(0)) for f in facts)


def is_data(R, t, x):
    return t is data_of(R, x)


def layout_rule(R, I, key, acc, pos, L, facts, span):
    pad = sub(pos, acc)
    cs = mm_facts(facts)
    pr = lambda g: all(prove(I, f, g) for f in cs)
    r = rem(pos, INT(2048))
    none = pr(le(pad, INT(0)))
    R.ob(key, "after", pr(le(INT(0), pad)), "an entry starts after the one before", span, "an entry can start at %s, before the end %s of the one before" % (show(pos), show(acc)))
    R.ob(key, "aligned", mult(I, facts, pos, 4), "an entry starts at a multiple of four", span, "an entry's position %s may not be a multiple of four" % show(pos))
    R.ob(key, "crossing", pr(le(add(r, L), INT(2048))), "an entry does not cross a sector", span,
         "an entry of length %s can be placed at %s, across the end of a sector" % (show(L), show(pos)))
    R.ob(key, "tight", none or pr(le(r, INT(0))) and pr(le(pad, INT(2047))) and pr(lt(INT(2048), add(rem(acc, INT(2048)), L))),
         "a gap is left only to avoid crossing a sector", span, "a gap of %s bytes can be left although the entry fits" % show(pad))


def size(R):
    """the size computation follows the same recurrence, over every entry"""
    lens = {}
    u32 = int_ty(R, "u32")
    span = R.fn(CSIZE).span

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name == LEN:
            x = scale(at(e, "len", ty=u32), 4)
            lens[x] = e
            return cases(case(I, st, ok(x), m, [le(INT(16), x), le(x, INT(272))]), case(I, st, err(at(e, "e")), "failed"))

    I = R.analyse(CSIZE, result=result, opaque=lambda p: p == LEN, mon0=("fine",), esp=True, disj=True, cap=600)
    slf = I.rootargs[0]
    tree = flds(R, mk("deref", slf), (DTW, "table"))
    vec, root = field(tree, None, R.field(TREE, "tree")), field(tree, None, R.field(TREE, "root"))
    for st, v in I.results:
        m = the_mon(st)
        if not is_ok(v):
            R.ob("size", "err:" + m, m == "failed", "an error only for a name that cannot be encoded", span, "the size computation fails although nothing failed")
            continue
        R.ob("size", "ok:" + m, m == "fine", "no size when a name cannot be encoded", span, "a size is computed although a name could not be encoded")
        s = field(I.load(st, slf), None, R.field(DTW, "size"))
        t = field(s, 1, 0)
        good = s.op == "agg" and s.args[1] == 1 and loop_phi(I, t)
        R.ob("size", "stored", good, "the size is stored", span, "the size stored is " + show(s))
        if not good:
            continue
        start, back = steps(I, t)
        R.ob("size", "start", all(int_val(x) == 0 for x in start), "the sum starts at 0", span, "the sum starts at " + ", ".join(map(show, start)))
        four = scale(mk("sym", "scn", "acc4", ty=u32), 4)
        for y, f in back:
            for z, g in full_alts(I, y, f):
                g = frozenset(subst(h, {t: four}) for h in g)
                z = subst(z, {t: four})
                ls = [x for x in lens if any(occurs(a, z) for a in subs(x))]
                R.ob("size", "entry", len(ls) == 1, "each round adds one entry", span, "a round of the size computation adds " + show(sub(z, four)))
                if len(ls) == 1:
                    L = ls[0]
                    layout_rule(R, I, "size", four, sub(z, L), L, unfold(g) | {le(INT(16), L), le(L, INT(272))}, span)
        # every entry is visited: the walk starts at the root and queues both children of each entry taken
        stacks = [q for q in I.phi_info if same_loop(t, q) and loop_phi(I, q) and q is not t and any(occurs(q, f) for f in st.facts)]
        seen = False
        for q in stacks:
            start, back = steps(I, q)
            seen = True
            R.ob("visit", "drained", prove(I, st.facts, le(length(q), INT(0))), "the walk ends when nothing is pending", span, "the size is computed before every entry has been visited")
            for x in start:
                for y, g in full_alts(I, x, [f for v_, f, b in I.phi_info[q].values() if not b and v_ is x][0]):
                    if mk("isvar", root, 1) in g:
                        R.ob("visit", "root", y.op in ("arr", "push") and occurs(field(root, 1, 0), y), "the walk starts at the root", span, "the walk starts with " + show(y))
            for x, f in back:
                for y, g in full_alts(I, x, f):
                    ps = pieces(y, slice_(q, INT(0), sub(length(q), INT(1)))) or []
                    els = [b for p in ps for b in p.args[0]] if all(p.op == "arr" for p in ps) else []
                    top = mk("elem", vec, elem(q, sub(length(q), INT(1))))
                    for fld in ("left_node", "right_node"):
                        kid = field(top, None, R.field(ANODE, fld))
                        has, not_ = mk("isvar", kid, 1) in g, mk("isvar", kid, 0) in g
                        R.ob("visit", fld, not_ and field(kid, 1, 0) not in els or has and els.count(field(kid, 1, 0)) == 1, "both children of an entry are visited", span,
                             "an entry's %s child may not be counted" % fld[:-5])
        R.ob("visit", "walk", seen, "every entry is visited", span, "the entries the size is computed from could not be determined")


def recorded(R):
    """the size recorded: one sector for an empty table, the computed size otherwise"""
    span = R.fn(SIZE).span
    I = R.analyse(SIZE)
    slf = mk("deref", I.rootargs[0])
    n = length(flds(R, slf, (DTW, "table"), (TREE, "tree")))
    s = flds(R, slf, (DTW, "size"))
    for st, v in I.results:
        for x, f in full_alts(I, v, st.facts):
            if isint_const(x, 2048):
                R.ob("size", "empty", equal(I, f, n, INT(0)), "2048 only for an empty table", span, "a table that is not empty can be recorded with 2048 bytes")
            else:
                R.ob("size", "recorded", x is field(s, 1, 0) and not prove(I, f, le(n, INT(0))), "the computed size is recorded", span, "the size recorded is " + show(x))


def check(R):
    encode(R)
    lengths(R)
    Layout(R).check()
    size(R)
    recorded(R)
