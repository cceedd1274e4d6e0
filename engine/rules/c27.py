"""Sources.  Every place that delivers a source file's bytes (host directory to a writer or to memory, image to image, the
default and the std::io copiers) is interpreted with opening, seeking, limiting and copying split into their outcomes and the
positions of both sides carried as values: what is copied must be the file named by the whole path, from the offset asked,
limited to the size asked, to the offset asked, and what is reported is what was copied.  The image source's listings are the
listing of the named directory, recorded under each entry's own name in an index whose lookups and insertions are decided by
induction over their loops (rules/trie.py)."""
from base import *
from rules import trie
from phis import Phis
from rules.c11 import full_alts, loop_phi, steps, indices
from rules.c13 import Notes, at
from rules.c22 import invariants, guard_of, loops_of, alts_

FLOORS = {"host": 5, "memory": 8, "stdio": 8, "buffered": 8, "image": 7, "listing": 15, "index": 35, "forward": 6}
FS = "xdvdfs::write::fs::"
STD = FS + "stdfs::StdFilesystem"
XFS = FS + "xdvdfs::XDVDFSFilesystem"
OPEN, SEEK_, TAKE, COPY = "std::fs::File::open", "std::io::Seek::seek", "std::io::Read::take", "std::io::copy"
BUF = ("std::io::BufReader::<R>::new", "std::io::BufReader::<R>::with_capacity")
GET = FS + "PathPrefixTree::<T>::get"
PATHVEC = FS + "PathVec"


def last(t):
    return t.args[0].rsplit("::", 1)[-1] if t.op == "app" else None


def same_text(t):
    """through conversions that keep a path's text"""
    while t.op == "app" and len(t.args[1]) == 1 and last(t) in ("to_owned", "to_path_buf", "into", "from", "clone", "as_path", "borrow", "as_ref", "new",
                                                               "into_path_buf", "to_string", "as_str", "deref", "into_owned"):
        t = t.args[1][0]
    return t


def element(I, t, seq):
    """the index of t among the elements of seq (by value or by reference), or None"""
    t = same_text(t)
    if t.op == "ref" and t.args[1] and t.args[1][-1][0] == "e" and t.args[0][0] == "D":
        x = mk("deref", t.args[0][1])
        for st in t.args[1][:-1]:
            if st[0] != "f":
                return None
            x = field(x, st[1], st[2])
        return t.args[1][-1][1] if x is seq else None
    if t.op == "elem" and t.args[0] is seq:
        return t.args[1]
    return element(I, t.args[0], seq) if t.op == "deref" else None


def every(I, t, seq, facts):
    """t holds each element of seq once, in order"""
    t = same_text(t)
    if t is seq or same_text(t) is seq:
        return True
    if t.op == "app" and last(t) in ("collect", "from_iter", "iter", "copied", "cloned", "into_iter"):
        return every(I, t.args[1][0], seq, facts)
    if t.op != "phi" or not loop_phi(I, t):
        return False
    s, b = steps(I, t)
    if not all(x.op in ("arr", "vec", "agg", "app") and isint_const(length(x), 0) or last(x) in ("new", "default") for x in s):
        return False
    idx = indices(I, t)
    for v, f in b:
        for x, g in alts(I, v, f):
            if x.op == "app" and last(x) in ("join", "push") and x.args[1][0] is t:
                e = x.args[1][1]
            elif x.op == "push" and x.args[0] is t:
                e = x.args[1]
            else:
                return False
            if element(I, e, seq) not in idx:
                return False
    return any(prove(I, facts, le(length(seq), i)) for i in idx) and bool(b)


def covers(I, t, root, seq, facts):
    """t is the path root/seq[0]/seq[1]/..."""
    t = same_text(t)
    if t.op == "app" and last(t) == "join" and len(t.args[1]) == 2:
        return same_text(t.args[1][0]) is root and every(I, t.args[1][1], seq, facts)
    if t.op == "phi" and loop_phi(I, t):
        s, b = steps(I, t)
        idx = indices(I, t)
        for v, f in b:
            for x, g in alts(I, v, f):
                if not (x.op == "app" and last(x) in ("join", "push") and len(x.args[1]) == 2 and x.args[1][0] is t and element(I, x.args[1][1], seq) in idx):
                    return False
        return bool(b) and all(same_text(x) is root for x in s) and any(prove(I, facts, le(length(seq), i)) for i in idx)
    return False


class Stream:
    """a copy between two positioned streams"""

    def __init__(self, R, path, **kw):
        self.R, self.path = R, path
        self.files, self.seeks, self.takes, self.pre = {}, {}, {}, {}
        self.copies = {}
        self.I = R.analyse(path, result=self.result, monitor=self.monitor, mon0=("start",), esp=True, **kw)

    def monitor(self, m, e, st, I):
        if e.kind == "call" and e.name in (SEEK_, COPY, TAKE):
            self.pre[(e.ctx, e.bb)] = [self.value(I, st, a, s) for a, s in zip(e.args, e.snap)]

    @staticmethod
    def value(I, st, a, s):
        """the value behind an argument: parameters of unknown type are looked up"""
        if a.op == "sym" and a.args[0] == "param" and s is a:
            return I.load(st, a)
        return s

    def result(self, I, st, e, ret):
        ph = the_mon(st)
        n = e.name
        fail = case(I, st, err(at(e, "e")), "failed")
        if n == OPEN:
            x = at(e, "file")
            self.files[x] = (e.snap[0], e.facts)
            return cases(case(I, st, ok(x), ph), fail)
        if n == SEEK_:
            x = at(e, "at")
            self.seeks[x] = (self.pre[(e.ctx, e.bb)][0], seek_start(e.snap[1]), e.facts)
            s = st.copy()
            I.set(s, e.args[0], x)
            return cases(case(I, s, ok(at(e, "pos")), ph), fail)
        if n == TAKE:
            x = at(e, "take")
            self.takes[x] = (self.pre[(e.ctx, e.bb)][0], e.snap[1])
            return cases(case(I, st, x, ph))
        if n in BUF:
            x = at(e, "buf")
            self.takes[x] = (e.snap[-1], None)
            return cases(case(I, st, x, ph))
        if n == COPY:
            x = at(e, "n", int_ty(self.R, "u64"))
            self.copies[x] = e
            return cases(case(I, st, ok(x), "copied" if ph == "start" else "again"), fail)

    def reader(self, e):
        """what a copy reads: (stream, limits)"""
        x, lim = self.pre[(e.ctx, e.bb)][0], []
        if x not in self.takes:
            x = e.snap[0]
        while x in self.takes:
            x, n = self.takes[x]
            if n is not None:
                lim.append(n)
        return x, lim


def stream(R, rule, path, what, argi, src, dst, memory="", pos=lambda I, x: x, di=2):
    """argi: positions of (input offset, output offset, size) among the arguments"""
    fn = R.fn(path)
    S = Stream(R, path)
    I = S.I
    a = I.rootargs
    inoff, outoff, size = (a[i] for i in argi)
    span = fn.span
    cs = evs(I, COPY)
    R.ob(rule, what + ":copies", len(cs) > 0, "the data is copied", span, what + ": nothing is copied")
    for e in cs:
        x, lim = S.reader(e)
        for y, f in alts_(I, x, e.facts):
            sk = S.seeks.get(y)
            R.ob(rule, what + ":position", sk is not None and sk[1] is not None and equal(I, f, sk[1], pos(I, inoff)),
                 "reading starts at the offset asked", where(e), what + ": the copy reads from position %s" % (show(sk[1]) if sk and sk[1] else "unknown"))
            R.ob(rule, what + ":source", sk is not None and src(S, I, sk[0]), "the file named is read", where(e), what + ": the copy reads " + show(sk[0] if sk else y) + (
                " (%s)" % show(S.files[sk[0]][0]) if sk and sk[0] in S.files else ""))
            if not memory:
                R.ob(rule, what + ":limit", len(lim) == 1 and equal(I, f, lim[0], size), "exactly the size asked is the limit", where(e),
                     what + ": the copy is limited to " + ", ".join(map(show, lim)))
            else:
                room = sub(length(buffer(a[di], memory)), outoff)
                g = f | {le(INT(0), size), le(INT(0), outoff)}
                okk = len(lim) == 1 and prove(I, g, le(lim[0], size)) and prove(I, g, le(lim[0], room)) and \
                    prove(I, g | {lt(lim[0], size)}, le(room, lim[0]))
                R.ob(rule, what + ":limit", okk, "as much as was asked and fits", where(e), what + ": the copy is limited to " + ", ".join(map(show, lim)))
        if not memory:
            w = S.pre[(e.ctx, e.bb)][1]
            sk = S.seeks.get(w)
            R.ob(rule, what + ":target", sk is not None and sk[1] is not None and equal(I, e.facts, sk[1], outoff) and dst(I, sk[0]), "the data goes to the offset asked", where(e),
                 what + ": the data goes to %s" % ("position %s of %s" % (show(sk[1]) if sk[1] else "?", show(sk[0])) if sk else show(w)))
    n = 0
    for st, v in I.results:
        ph = the_mon(st)
        for x, f in alts_(I, v, st.facts):
            if is_err(x):
                continue
            n += 1
            p = payload(x)
            R.ob(rule, what + ":ok:" + ph, ph == "copied", "success only after the copy", span, what + ": success although the data was " + {
                "start": "never copied", "failed": "not copied (a step failed)", "again": "copied twice"}.get(ph, ph))
            if not memory:
                R.ob(rule, what + ":count", p in S.copies, "what was copied is reported", span, what + ": reports %s" % show(p))
            else:
                for y, g in alts_(I, I.load(st, a[di]), f):
                    final(R, rule, what, I, y, g, buffer(a[di], memory), outoff, size, p, span)
    R.ob(rule, what + ":succeeds", n > 0, "it can succeed", span, what + ": cannot succeed")


def buffer(dest, kind):
    d = mk("deref", dest)
    return field(d, None, 0) if "Box" in kind else d


def final(R, rule, what, I, y, f, base_, outoff, size, p, span):
    """the destination afterwards: only [outoff, outoff+n) changed, zeroed before the copy"""
    if base_.op == "field":
        y = field(y, None, 0)
    f = f | {le(INT(0), size), le(INT(0), outoff)}
    good = counted_ = False
    if y.op == "supd":
        b, lo, hi, x = y.args
        if b.op == "supd" and b.args[1] is lo and b.args[2] is hi:
            z, b = b.args[3], b.args[0]
        else:
            z = x.args[0] if x.op == "hav" else x
        good = b is base_ and equal(I, f, lo, outoff) and z.op == "fill" and isint_const(z.args[0], 0) and x.op in ("hav", "sym")
        counted_ = p is length(x) or equal(I, f, p, sub(hi, lo))
    R.ob(rule, what + ":count", counted_, "the part delivered is reported", span, what + ": reports " + show(p))
    R.ob(rule, what + ":target", good, "the data goes to the offset asked, over zeros", span, what + ": the destination becomes " + show(y))


def std_copies(R):
    k = R.field(STD, "root")
    comp = R.field(PATHVEC, "components")
    for t in ("T", "[u8]", "std::boxed::Box<[u8]>"):
        mem = "" if t == "T" else t
        path = "<%s as %sFilesystemCopier<%s>>::copy_file_in" % (STD, FS, t)

        def src(S, I, f):
            if f not in S.files:
                return False
            a = I.rootargs
            root = field(mk("deref", a[0]), None, k)
            seq = field(mk("deref", a[1]), None, comp)
            return all(covers(I, x, root, seq, g) for x, g in alts_(I, S.files[f][0], S.files[f][1]))

        def dst(I, w):
            return w is mk("deref", I.rootargs[2]) or w is I.rootargs[2]

        stream(R, "memory" if mem else "host", path, "copying a host file to " + {"T": "a writer"}.get(t, t), (3, 4, 5), src, dst, mem)


X = FS + "xdvdfs::"
RWCOPY = X + "RWCopier::copy"
OW = "xdvdfs::blockdev::OffsetWrapper"


def io_copies(R):
    """copy(offset_in, offset_out, size, src, dest) between std::io streams"""
    inner, off = R.field(OW, "inner"), R.field(OW, "offset")
    for t in ("R", OW + "<R>"):
        path = "<%sStdIOCopier<%s, W> as %sRWCopier<%s, W>>::copy" % (X, t, X, t)
        wrap = t != "R"

        def base_(I):
            return field(mk("deref", I.rootargs[3]), None, inner) if wrap else mk("deref", I.rootargs[3])

        def src(S, I, f):
            return f is base_(I) or not wrap and f is I.rootargs[3]

        def dst(I, w):
            return w is mk("deref", I.rootargs[4]) or w is I.rootargs[4]

        def pos(I, x):
            return add(x, field(mk("deref", I.rootargs[3]), None, off)) if wrap else x

        stream(R, "stdio", path, "copying from " + ("an opened image" if wrap else "a reader"), (0, 1, 2), src, dst, pos=pos, di=4)


def buffered(R):
    """the copier for any two devices: read and write what was read, part by part, without a gap"""
    path = RWCOPY
    span = R.fn(path).span
    what = "copying between devices"

    def result(I, st, e, ret):
        ph = the_mon(st)
        fail = case(I, st, err(at(e, "e")), "failed")
        if e.name == READ:
            reads.add(I.load(st, e.args[2]))
            return cases(case(I, st, ok(UNIT), "read" if ph == "ready" else "twice"), fail)
        if e.name == WRITE:
            writes.append((e, ph))
            return cases(case(I, st, ok(UNIT), "ready" if ph == "read" else "other"), fail)

    reads, writes = set(), []
    I = R.analyse(path, result=result, opaque=lambda p: p in (READ, WRITE), mon0=("ready",), esp=True)
    inoff, outoff, size, src, dst = I.rootargs
    rs, ws = evs(I, READ), evs(I, WRITE)
    R.ob("buffered", "steps", len(rs) > 0 and len(ws) > 0, "parts are read and written", span, what + ": nothing is read or nothing is written")
    for e in rs + ws:
        isr = e.name == READ
        side, word = (inoff, "read") if isr else (outoff, "written")
        who = src if isr else dst
        R.ob("buffered", word + ":device", e.snap[0] is who or e.snap[0] is mk("deref", who) or place_of(e.args[0], who), "each side is its own device", where(e),
             what + ": a part is %s %s" % (word, show(e.snap[0])))
        loop = sorted(loops_of(I, e.snap[1]))
        n = length(e.snap[2])
        done = sub(e.snap[1], side)
        if not loop:
            whole = equal(I, e.facts, done, INT(0)) and equal(I, e.facts, n, size)
            R.ob("buffered", word + ":all", whole, "everything is %s" % word, where(e), what + ": only %s bytes are %s" % (show(n), word))
            continue
        loop = loop[-1]
        pre = [f for f in e.facts if not loops_of(I, f)]
        lo = invariants(I, loop, pre + [le(INT(0), size)], [f for f in guard_of(I, loop, e.facts)], [le(INT(0), done), le(done, size)])
        back = 0
        for ed, (mp, f, bk) in lo.edges(loop).items():
            nxt = subst(done, mp)
            if not bk:
                R.ob("buffered", word + ":first", lo.prove(f, eq(nxt, INT(0))), "from the start", where(e), what + ": the first part %s is at %s" % (word, show(nxt)))
                continue
            back += 1
            f = frozenset(f)
            R.ob("buffered", word + ":next", lo.prove(f, eq(sub(nxt, done), n)) or sub(nxt, done) is n, "part follows part", where(e),
                 what + ": after %s bytes at %s comes %s" % (show(n), show(done), show(nxt)))
        R.ob("buffered", word + ":part", lo.prove(e.facts, le(add(done, n), size)), "never past the size asked", where(e), what + ": %s bytes at %s are %s" % (show(n), show(done), word))
        for st, v in I.results:
            if is_ok(v):
                R.ob("buffered", word + ":complete", lo.prove(st.facts, eq(done, size)), "success only when everything was %s" % word, span,
                     what + ": success with %s bytes of %s %s" % (show(done), show(size), word))
    for e, ph in writes:
        d = e.snap[2]
        R.ob("buffered", "same", ph == "read" and any(d is r for r in reads), "what was read is written", where(e), what + ": what is written is " + show(d))
    for e in ws:
        r = [x for x in rs]
        R.ob("buffered", "aligned", all(equal(I, e.facts, sub(e.snap[1], outoff), sub(x.snap[1], inoff)) for x in r), "at the same distance", where(e),
             what + ": a part is written at %s" % show(e.snap[1]))
    n = 0
    for st, v in I.results:
        ph = the_mon(st)
        if not is_ok(v):
            R.ob("buffered", "err", ph == "failed", "errors only after a failure", span, what + ": fails although nothing failed")
            continue
        n += 1
        R.ob("buffered", "ok:" + ph, ph == "ready", "success only after every part was written", span, what + ": success in phase " + ph)
        ls = {l for e in rs for l in loops_of(I, e.snap[1])}
        p = payload(v)
        okk = equal(I, st.facts, p, size)
        for l in ls:
            lo = invariants(I, l, [le(INT(0), size)], guard_of(I, l, rs[0].facts), [le(p, size)])
            okk = okk or lo.prove(st.facts, eq(p, size))
        R.ob("buffered", "count", okk, "the size is reported", span, what + ": reports " + show(p))
    R.ob("buffered", "succeeds", n > 0, "it can succeed", span, what + ": cannot succeed")


def choices(f, n, d=3):
    """the ways the minima and maxima spoken of can turn out"""
    m = [a for g in list(f) + [n] for a in allsubs(g) if a.op in ("min", "max") and not any(b.op in ("min", "max") and b is not a for b in allsubs(a))]
    if not m or not d:
        return [(f, n)]
    a = min(m, key=lambda t: t.id)
    x, y = a.args
    out = []
    for c, v in ((le(x, y), x if a.op == "min" else y), (lt(y, x), y if a.op == "min" else x)):
        g = frozenset(subst(h, {a: v}) for h in f) | {c}
        if not (FALSE in g or clash(g) or entail.inconsistent(g)):
            out += choices(g, subst(n, {a: v}), d - 1)
    return out


def disjuncts(f, d=5):
    """the ways a set of facts with disjunctions can hold"""
    for g in f:
        if g.op == "andb":
            return disjuncts((f - {g}) | {g.args[0], g.args[1]}, d)
        if d and g.op == "not" and g.args[0].op == "andb":
            out = []
            for a in g.args[0].args:
                h = (f - {g}) | {notb(a)}
                if not (FALSE in h or clash(h) or entail.inconsistent(h)):
                    out += disjuncts(h, d - 1)
            return out
    return [f]


def place_of(ref, param):
    return ref is param or ref.op == "ref" and ref.args[0] == ("D", param) and not ref.args[1]


def image_copy(R):
    path = "<%s<D, W, Copier> as %sFilesystemCopier<W>>::copy_file_in" % (XFS, FS)
    span = R.fn(path).span
    dev, cache = R.field(XFS, "dev"), R.field(XFS, "dirent_cache")
    what = "copying from an image"

    def result(I, st, e, ret):
        ph = the_mon(st)
        if e.name == GET:
            return cases(case(I, st, some(at(e, "hit")), "hit" if ph == "start" else "again"), case(I, st, NONE, "failed"))
        if e.name == RWCOPY:
            return cases(case(I, st, ok(at(e, "n", int_ty(R, "u64"))), "copied" if ph == "hit" else "again"), case(I, st, err(at(e, "e")), "failed"))

    I = R.analyse(path, result=result, opaque=lambda p: p in (GET, RWCOPY), mon0=("start",), esp=True, disj=True)
    slf, src, dest, inoff, outoff, size = I.rootargs
    gets = evs(I, GET)
    hit = {at(e, "hit") for e in gets}
    for e in gets:
        R.ob("image", "lookup", e.snap[0] is field(mk("deref", slf), None, cache) and (e.snap[1] is src or e.snap[1] is mk("deref", src)), "the path asked is looked up", where(e),
             what + ": %s is looked up in %s" % (show(e.snap[1]), show(e.snap[0])))
    R.ob("image", "one", len(hit) == 1, "one lookup", span, what + ": %d lookups" % len(hit))
    if len(hit) != 1:
        return
    d = flds(R, mk("deref", hit.pop()), (NODE, "node"), (DISKNODE, "dirent"))
    first, fsize = region(R, d)
    rest = mk("sym", "rest")
    cs = evs(I, RWCOPY)
    R.ob("image", "copies", len(cs) > 0, "the data is copied", span, what + ": nothing is copied")
    base_ = {le(INT(0), x) for x in (inoff, outoff, size, fsize)}

    def amount(f, n):
        """n = min(size, max(0, fsize - inoff))"""
        return all(amount1(g, m) for h in disjuncts(f) for g, m in choices(h | base_, n))

    def amount1(f, n):
        def holds(extra, goal):
            g = f | extra
            return FALSE in g or clash(g) or entail.inconsistent(g) or prove(I, g, goal)
        return holds(set(), le(n, size)) and holds({le(inoff, fsize)}, le(n, sub(fsize, inoff))) and holds({le(fsize, inoff)}, le(n, INT(0))) and \
            holds({lt(n, size), le(inoff, fsize)}, le(sub(fsize, inoff), n)) and holds(set(), le(INT(0), n))

    for e in cs:
        for y, f in alts_(I, tup(*e.snap[:3]), e.facts):
            i, o, n = y.args[2]
            R.ob("image", "from", equal(I, f | base_, i, add(first, inoff)), "the file's own bytes, from the offset asked", where(e), what + ": the copy starts at image byte " + show(i))
            R.ob("image", "to", o is outoff or equal(I, f, o, outoff), "to the offset asked", where(e), what + ": the copy goes to " + show(o))
            R.ob("image", "amount", amount(f, n), "what was asked, clamped to the file", where(e), what + ": %s bytes are copied" % show(n))
        R.ob("image", "device", e.snap[3] is field(mk("deref", slf), None, dev), "from the image's device", where(e), what + ": the copy reads " + show(e.snap[3]))
        R.ob("image", "dest", e.snap[4] is dest or e.snap[4] is mk("deref", dest), "into the destination", where(e), what + ": the copy writes " + show(e.snap[4]))
    n = 0
    for st, v in I.results:
        ph = the_mon(st)
        for x, f in alts_(I, v, st.facts):
            if is_err(x):
                R.ob("image", "err:" + ph, ph == "failed" or prove(I, f | base_, le(add(fsize, INT(0)), inoff)), "errors only after a failure", span, what + ": fails although nothing failed")
            else:
                n += 1
                p = payload(x)
                if ph == "copied":
                    R.ob("image", "count", any(p is at(e, "n", int_ty(R, "u64")) for e in cs), "what was copied is reported", span, what + ": reports " + show(p))
                else:
                    R.ob("image", "skip:" + ph, ph == "hit" and amount(f, INT(0)) and isint_const(p, 0), "nothing is copied only where there is nothing to copy", span,
                         what + ": success without a copy although there are bytes to copy (%s)" % ph)
    R.ob("image", "succeeds", n > 1, "it can succeed", span, what + ": cannot succeed")


SCAN, NEXT = "scan_dirent_tree", "next_entry"


def listing(R):
    path = "<%s<D, W, Copier> as %sFilesystemHierarchy>::read_dir" % (XFS, FS)
    span = R.fn(path).span
    what = "listing a directory of an image"
    note = Notes(R, "listing")
    kind = lambda n: next((k for k in ("scan_dirent_tree", "next_entry", "name_str", "lookup_node_mut", "lookup_node", "insert_tail", "get") if n.endswith("::" + k)), None)

    def result(I, st, e, ret):
        ph, had = the_mon(st)
        k = kind(e.name)
        if k == "scan_dirent_tree":
            if ph != "start":
                note("scan", e, what + ": a directory table is read a second time")
            return cases(case(I, st, ok(at(e, "tree")), ("idle", "")), case(I, st, err(at(e, "e")), ("failed", "")))
        if k == "next_entry":
            if ph != "idle":
                note("each", e, what + ": the next entry is taken although the one before is not %s" % ("listed" if "l" not in had else "remembered"))
            return cases(case(I, st, ok(some(at(e, "entry"))), ("entry", "")), case(I, st, ok(NONE), ("end", "")), case(I, st, err(at(e, "e")), ("failed", "")))
        if k == "name_str":
            return cases(case(I, st, ok(at(e, "name")), (ph, had)), case(I, st, err(at(e, "e")), ("failed", had)))
        if k in ("lookup_node_mut", "lookup_node", "get"):
            return cases(case(I, st, some(at(e, "hit")), (ph, had)), case(I, st, NONE, ("failed", had)))
        if k == "insert_tail":
            return cases(case(I, st, at(e, "below"), step(ph, had, "r", e)))

    def step(ph, had, c, e):
        if ph != "entry" or c in had:
            note("twice", e, what + ": an entry is %s more than once" % ("listed" if c == "l" else "remembered"))
        had = "".join(sorted(set(had + c)))
        return ("idle", "") if had == "lr" else (ph, had)

    def monitor(m, e, st, I):
        ph, had = m
        if e.kind == "push" and e.args[1].op == "agg" and e.args[1].args[0] == FS + "FileEntry":
            return [step(ph, had, "l", e)]

    hits = set()
    I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: kind(p) is not None, mon0=(("start", ""),), esp=True)
    slf, dir_ = I.rootargs
    S = mk("deref", slf)
    volume, cache = field(S, None, R.field(XFS, "volume")), R.field(XFS, "dirent_cache")
    root = field(volume, None, R.field(VOLUME, "root_table"))
    comps = field(mk("deref", dir_), None, R.field(PATHVEC, "components"))
    P = Phis(I)
    ev = lambda k: [e for e in I.events() if e.kind == "call" and kind(e.name) == k]
    kr = R.field(FS + "PathPrefixTree", "record")

    for e in ev("lookup_node_mut") + ev("lookup_node") + ev("get"):
        good = (e.snap[0] is field(S, None, cache) or e.args[0].op == "ref" and e.args[0].args[0] == ("D", slf) and tuple(e.args[0].args[1]) == (("f", None, cache),)) and \
            (e.snap[1] is dir_ or e.snap[1] is mk("deref", dir_))
        R.ob("listing", "lookup", good, "the directory asked is looked up", where(e), what + ": %s is looked up in %s" % (show(e.snap[1]), show(e.snap[0])))
        hits.add(at(e, "hit"))
    for e in ev("scan_dirent_tree"):
        for x, f in P.expand(e.snap[0], e.facts):
            def table(h):
                rec = field(field(mk("deref", h), None, kr), 1, 0)
                d = flds(R, field(rec, None, 0), (NODE, "node"), (DISKNODE, "dirent"), (DISKDATA, "data"))
                return d
            t = field(x, None, R.field(TABLE, "region"))
            good = t is field(root, None, R.field(TABLE, "region")) and prove(I, f, eq(length(comps), INT(0))) or any(t is table(h) for h in hits)
            R.ob("listing", "table", good, "the table of the directory asked is read", where(e), what + ": the table read is " + show(x))
    R.ob("listing", "scans", bool(ev("scan_dirent_tree")), "a table is read", span, what + ": no table is read")
    trees = {at(e, "tree") for e in ev("scan_dirent_tree")}
    ents = {at(e, "entry") for e in ev("next_entry")}
    R.ob("listing", "entries", len(ents) > 0, "the entries are taken", span, what + ": no entries are taken")
    nodepath = lambda h: mk("ref", ("D", h), (("f", None, kr), ("f", 1, 0), ("f", None, 1), ("f", None, 0)), True)
    for e in ev("name_str"):
        R.ob("listing", "name", e.snap[0] in ents or e.args[0] in ents, "an entry's own name", where(e), what + ": the name is that of " + show(e.snap[0]))
    names = {at(e, "name") for e in ev("name_str")}
    for e in ev("insert_tail"):
        for x, f in P.expand(tup(e.args[0], e.snap[1], e.snap[2]), e.facts):
            n, nm, en = x.args[2]
            here = n.op == "ref" and (n.args[0] == ("D", slf) and tuple(n.args[1]) == (("f", None, cache),) and prove(I, f, eq(length(comps), INT(0))) or
                                      any(n.args[:2] == nodepath(h).args[:2] for h in hits))
            R.ob("listing", "remember:node", here, "remembered below the directory asked", where(e), what + ": an entry is remembered below " + show(n))
            R.ob("listing", "remember:name", same_text(nm) in names or nm.op == "deref" and same_text(nm.args[0]) in names, "under its own name", where(e), what + ": an entry is remembered as " + show(nm))
            R.ob("listing", "remember:entry", en in ents, "the entry itself", where(e), what + ": what is remembered is " + show(en))
    R.ob("listing", "remembers", bool(ev("insert_tail")), "entries are remembered", span, what + ": entries are not remembered")
    fe = [R.field(FS + "FileEntry", k) for k in ("name", "file_type", "len")]
    lists = set()
    for e in I.events():
        if e.kind != "push" or e.args[1].op != "agg" or e.args[1].args[0] != FS + "FileEntry":
            continue
        for x, f in P.expand(e.args[1], e.facts):
            nm, ft, ln = (field(x, None, i) for i in fe)
            R.ob("listing", "entry:name", same_text(nm) in names, "an entry is listed under its own name", where(e), what + ": an entry is listed as " + show(nm))
            for en in ents:
                d = flds(R, en, (NODE, "node"), (DISKNODE, "dirent"))
                attr = field(flds(R, d, (DISKDATA, "attributes")), None, 0)
                isdir = mk("bit", attr, INT(4))
                yes = ft.op == "agg" and ft.args[1] == 1
                good = ft.op == "agg" and (any(g is isdir for g in f) if yes else any(g.op == "not" and g.args[0] is isdir for g in f))
                R.ob("listing", "entry:kind", good, "with its own kind", where(e), what + ": an entry's kind is %s where %s" % (show(ft), [show(g) for g in f]))
                size = region(R, d)[1]
                while ln.op == "cast":
                    ln = ln.args[0]
                R.ob("listing", "entry:size", ln is size, "with its own size", where(e), what + ": an entry's size is " + show(ln))
        lists.add(e.snap[0])
    n = 0
    for st, v in I.results:
        ph, had = the_mon(st)
        for x, f in P.expand(v, st.facts):
            if is_err(x):
                R.ob("listing", "err:" + ph, ph in ("failed", "start"), "errors only after a failure", span, what + ": fails although nothing failed")
                if ph == "start":
                    # no record, or a record that is not a directory
                    good = any(g.op == "isvar" and g.args[1] == 0 and any(h in allsubs(g) for h in hits) for g in f) or \
                        any(g.op == "not" and g.args[0].op == "bit" and any(h in allsubs(g) for h in hits) for g in f)
                    R.ob("listing", "missing", good, "an error only where there is no such directory", span, what + ": fails although the directory is known")
                continue
            n += 1
            R.ob("listing", "all:" + ph, ph == "end", "success only after the last entry", span, what + ": success in phase " + ph)
            p = payload(x)
            good = p in lists and pushes(P, p)
            R.ob("listing", "result", good, "the listing is the entries in order", span, what + ": the listing returned is " + show(p))
    R.ob("listing", "succeeds", n > 0, "it can succeed", span, what + ": cannot succeed")
    note.flush()


def pushes(P, p):
    """p starts empty and only grows"""
    if not P.carried(p):
        return False
    s, b = P.steps(p)
    return bool(s) and bool(b) and all(isint_const(length(x), 0) for v, f in s.values() for x, _ in P.expand(v, f)) and \
        all(x.op == "push" and x.args[0] is p for v, f in b.values() for x, _ in P.expand(v, f))


def forward(R):
    for tr, m in (("FilesystemCopier<BDW", "copy_file_in"), ("FilesystemHierarchy<", "read_dir"), ("FilesystemHierarchy<", "path_to_string")):
        fs = [n for n in R.P.fns if n.startswith("<std::boxed::Box<(dyn %s%s" % (FS, tr)) and n.endswith(">::" + m)]
        R.ob("forward", m, len(fs) == 1, "boxed sources are sources", fs[0] if fs else tr, "no %s for boxed sources" % m)
        for n in fs:
            span = R.fn(n).span
            seen = []

            def result(I, st, e, ret):
                if e.name.endswith("::" + m):
                    return cases(case(I, st, at(e, "r"), "again" if the_mon(st) != "start" else "done"))

            I = R.analyse(n, result=result, opaque=lambda p: p.endswith("::" + m), mon0=("start",), esp=True)
            cs = [e for e in I.events() if e.kind == "call" and e.name.endswith("::" + m)]
            R.ob("forward", m + ":calls", len(cs) == 1, "asks the source inside", span, "a boxed source's %s does not ask the source inside" % m)
            for e in cs:
                same = len(e.args) == len(I.rootargs) and all(a is b or a is mk("deref", b) or x is b or x is mk("deref", b) for a, x, b in list(zip(e.args, e.snap, I.rootargs))[1:])
                inside = I.rootargs[0] in allsubs(e.args[0]) or I.rootargs[0] in allsubs(e.snap[0])
                R.ob("forward", m + ":args", same and inside, "with the same question", where(e), "a boxed source's %s passes on %s" % (m, ", ".join(show(a) for a in e.args)))
            for st, v in I.results:
                R.ob("forward", m + ":result", the_mon(st) == "done" and any(v is at(e, "r") for e in cs), "and answers the same", span, "a boxed source's %s answers %s" % (m, show(v)))


def check(R):
    std_copies(R)
    io_copies(R)
    buffered(R)
    image_copy(R)
    listing(R)
    forward(R)
    trie.check(R, "index")
