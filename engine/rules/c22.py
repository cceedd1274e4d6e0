"""Sector capture and replay.  The device the image builder writes to when compressing is a map from sectors to contents.
Abstract interpretation of its write and copy loops over linear arithmetic (loop invariants found as an inductive set):
every insertion is an obligation that its key and value are the sector and the bytes (zero-filled) or file part that
belong there, insertions follow each other sector by sector and end exactly where the data ends.  Replay returns exactly
what was captured, the size ends behind the last captured sector, and the command hands the very device and source the
builder used to the compressor."""
from rules.c07 import Loops, subst
from rules.c11 import full_alts, loop_phi
from base import *

FLOORS = {"write": 5, "copy": 5, "read": 6, "size": 2, "index": 2, "slice": 2, "command": 6}
SL = "xdvdfs::write::fs::sector_linear::"
DEV, CONT, CISO, SLFS = SL + "SectorLinearBlockDevice", SL + "SectorLinearBlockContents", SL + "CisoSectorInput", SL + "SectorLinearBlockFilesystem"
FS = "xdvdfs::write::fs::"
COPY = FS + "FilesystemCopier::copy_file_in"
N = 2048


def loops_of(I, t):
    return {a.args[:2] for a in allsubs(t) if loop_phi(I, a)}


class Guarded(Loops):
    """with invariants that need only hold where another round of the loop will be taken"""

    def __init__(self, I, base, loop, guard):
        super().__init__(I, base)
        self.loop, self.guard, self.G = loop, guard, set()

    def known(self, facts, goal, own=None, start=False):
        f = super().known(facts, goal, own, start)
        if self.G and not start and all(g in f or prove(self.I, f, g) for g in self.guard):
            f |= self.G
        return f

    def fits(self, c):
        for ed, (m, f, back) in self.edges(self.loop).items():
            f = frozenset(f) | {subst(g, m) for g in self.guard}
            if back:
                f |= set(self.guard)
            if entail.inconsistent(self.known(f, TRUE, self.loop, not back)):
                continue
            if not self.prove(f, subst(c, m), self.loop, not back):
                return False
        return True

    def infer2(self, cands, guarded):
        self.infer(cands)
        self.G = {g for g in guarded if g not in self.H}
        while True:
            bad = {c for c in self.G if not self.fits(c)}
            self.G -= bad
            if not bad:
                return


def ints(I, loop):
    """the counters of a loop: (value, start)"""
    out = []
    for p in I.phi_info:
        if p.args[:2] != loop or not loop_phi(I, p):
            continue
        info = I.phi_info[p].values()
        s = [v for v, f, b in info if not b]
        if len(set(s)) == 1 and all(v.op in ("int", "lin", "app", "phi", "sym", "field", "len", "min", "div", "trunc", "ite") for v, _, _ in info) and \
                all(sub(v, p).op in ("int", "lin", "app", "min", "sym", "phi") for v, f, b in info if b):
            out.append((p, s[0]))
    return out


def invariants(I, loop, pre, guard, extra=()):
    ps = ints(I, loop)
    c, g = set(extra), set()
    for p, s in ps:
        c |= {le(s, p), le(p, s), le(INT(0), p)}
        for q, r in ps:
            if q is p:
                continue
            dp, dq = sub(p, s), sub(q, r)
            for k in (1, -1, N):
                for x in (eq(dp, scale(dq, k)), le(dp, scale(dq, k)), le(scale(dq, k), dp)):
                    c.add(x)
                    g.add(x)
    lo = Guarded(I, pre, loop, guard)
    lo.infer2({x for x in c if x.op in ("le", "eq")}, {x for x in g if x.op in ("le", "eq")})
    return lo


def guard_of(I, loop, facts):
    """what is known about the loop's own values wherever its body is executed"""
    out = []
    for f in facts:
        at_ = [a for a in allsubs(f) if a.op in ("phi", "sym", "hav", "elem")]
        if f.op in ("le", "eq") and any(loop_phi(I, a) and a.args[:2] == loop for a in at_) and not any(a.op == "app" for a in allsubs(f)):
            out.append(f)
    return out


def alts_(I, t, facts):
    """full_alts over everything the value and the conditions mention"""
    out, todo, n = [], [(t, facts)], 0
    while todo:
        x, f = todo.pop()
        ph = sorted({a for g in f | {x} for a in allsubs(g) if a.op == "phi" and a in I.phi_info and not loop_phi(I, a)}, key=lambda a: a.id)
        n += 1
        if not ph or n > 300:
            out.append((x, f - {TRUE}))
            continue
        todo += [(y.args[2][0], g) for y, g in full_alts(I, tup(x, *ph), f)]
    return out


def cond_alts(I, facts):
    """the ways the conditions can have come about"""
    return alts_(I, UNIT, facts)


def fill(R, I, rule, what, dev, k, first, total, good, span, start):
    """the map at `dev` is extended by one entry per sector from `first` until `total` bytes are covered;
    good(prove, facts, value, i) says that a value belongs i sectors in"""
    bad = "%s: " % what
    n = 0
    for st, v in I.results:
        if not is_ok(v):
            continue
        m = field(I.load(st, dev), None, k)
        todo, loop = [m], None
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "field" and x.args[0].op == "phi":
                x = x.args[0]
                todo += [field(y, None, k) for y, _, _ in I.phi_info[x].values()]
            elif x.op == "phi":
                todo += [y for y, _, _ in I.phi_info[x].values()]
            elif x.op == "mapins":
                todo.append(x.args[0])
            else:
                R.ob(rule, "kept", x is start, "sectors captured earlier stay", span, bad + "the captured sectors become " + show(x))
    ins = evs(I, kind="mapins")
    R.ob(rule, "captures", len(ins) > 0, "sectors are captured", span, bad + "nothing is captured")
    for e in ins:
        loop = loops_of(I, e.snap[0])
        if not loop:
            R.ob(rule, "loop", False, "", where(e), bad + "a sector is captured once, whatever the length")
            continue
        # the innermost loop the map itself is carried round
        loop = sorted(loop)[-1]
        pre = [f for f in e.facts if not loops_of(I, f)]
        guard = guard_of(I, loop, e.facts)
        key, val = e.snap[1], e.snap[2]
        i = sub(key, first)
        ps = dict(ints(I, loop))
        lo = invariants(I, loop, pre, guard, [eq(sub(i, sub(p, s)), INT(0)) for p, s in ps.items()])
        pr = lambda f, g: lo.prove(f, g)
        for x, f in full_alts(I, tup(i, val), e.facts):
            i1, v1 = x.args[2]
            R.ob(rule, "within", pr(f, le(INT(0), i1)) and pr(f, le(add(scale(i1, N), INT(1)), total)), "only sectors the data reaches are captured", where(e),
                 bad + "a sector at or behind the end of the data is captured (number %s)" % show(i1))
            g = good(pr, f, v1, i1)
            R.ob(rule, "value", g is None, "each sector holds its part of the data", where(e), bad + "sector %s holds %s" % (show(i1), g or ""))
        # rounds
        for ed, (mp, f, back) in lo.edges(loop).items():
            nxt = subst(i, mp)
            if not back:
                R.ob(rule, "first", pr(f, eq(nxt, INT(0))) if nxt is not INT(0) else True, "the first sector comes first", where(e),
                     bad + "the first sector captured is number %s" % show(nxt))
                continue
            f = frozenset(f) | frozenset(guard)
            R.ob(rule, "next", nxt is add(i, INT(1)) or pr(f, eq(sub(nxt, i), INT(1))), "sector follows sector", where(e),
                 bad + "after sector %s comes %s" % (show(i), show(nxt)))
            ch = [p for p in mp if p in allsubs(e.snap[0]) and p.args[:2] == loop and p not in ps]
            for p in ch:
                for y, fy in full_alts(I, mp[p], f):
                    mm = field(y, None, k) if y.op in ("upd", "agg") else y
                    R.ob(rule, "every", mm.op == "mapins" and mm.args[0] is e.snap[0], "every round captures one sector", where(e),
                         bad + "a round of the loop does not capture a sector")
        # the end
        for st, v in I.results:
            if is_ok(v):
                n += 1
                f0 = st.facts
                good_ = all(pr(f | {le(INT(0), i)}, le(total, scale(i, N))) for _, f in cond_alts(I, f0))
                R.ob(rule, "complete", good_, "success only when the data is captured to its end", span,
                     bad + "success with %s bytes of %s captured" % (show(scale(i, N)), show(total)))
    R.ob(rule, "succeeds", n > 0, "it can succeed", span)


def box(t):
    while True:
        if t.op == "agg" and t.args[0] == BOX:
            t = t.args[2][0]
        elif t.op == "upd" and t.args[1] in (("f", None, 0), ("f", 0, 0)):
            t = t.args[2]
        else:
            return t


BOX = "std::boxed::Box"


def content(I, t):
    """a sector's bytes as (bytes copied to its start, their number), with zeros behind them; None when it is not made that way"""
    t = box(t)
    if t.op == "supd":
        b, lo, hi, s = t.args
        if int_val(lo) == 0 and b.op == "fill" and isint_const(b.args[0], 0):
            return s, hi, length(b)
    if t.op == "slice" or t.op == "deref":
        return t, length(t), length(t)
    return None


def write(R):
    path = "<%s as xdvdfs::blockdev::BlockDeviceWrite>::write" % DEV
    span = R.fn(path).span
    k = R.field(DEV, "contents")
    RAW = R.variant(CONT, "RawData")
    I = R.analyse(path, esp=True)
    slf, off, buf = I.rootargs
    data = mk("deref", buf)
    n = length(data)
    first = div(off, INT(N))

    def good(pr, f, v, i):
        c = content(I, field(v, RAW, 0)) if v.op == "agg" and v.args[1] == RAW else None
        if c is None:
            return show(v)
        s, m, sz = c
        if s.op != "slice" or s.args[0] is not data:
            return show(s)
        lo, hi = s.args[1], s.args[2]
        if not isint_const(sz, N) and not pr(f, eq(sub(sz, INT(N)), INT(0))):
            return "%s bytes" % show(sz)
        if not pr(f, eq(sub(lo, scale(i, N)), INT(0))):
            return "the data from byte %s" % show(lo)
        if not (pr(f, le(hi, n)) and pr(f, le(sub(hi, lo), INT(N))) and pr(f | {lt(hi, n)}, le(INT(N), sub(hi, lo)))):
            return "the data up to byte %s" % show(hi)
        return None

    fill(R, I, "write", "capturing a write", slf, k, first, n, good, span, field(mk("deref", slf), None, k))
    for st, v in I.results:
        R.ob("write", "aligned", not is_ok(v) or prove(I, st.facts, eq(sub(off, scale(first, N)), INT(0))), "only whole sectors are captured", span,
             "a write that does not start at a sector boundary is captured as if it did")


def copy(R):
    path = "<%s<'_, F> as %sFilesystemCopier<%s>>::copy_file_in" % (SLFS, FS, DEV)
    span = R.fn(path).span
    k = R.field(DEV, "contents")
    FILE = R.variant(CONT, "File")
    I = R.analyse(path, esp=True)
    slf, src, dest, inoff, outoff, size = I.rootargs
    first = div(outoff, INT(N))

    def good(pr, f, v, i):
        if v.op != "agg" or v.args[1] != FILE:
            return show(v)
        p, j = v.args[2]
        if not cong(I, p, mk("deref", src)):
            return "a part of " + show(p)
        return None if pr(f, eq(sub(j, i), INT(0))) or j is i else "part %s of the file" % show(j)

    fill(R, I, "copy", "capturing a file", dest, k, first, size, good, span, field(mk("deref", dest), None, k))
    for st, v in I.results:
        if is_ok(v):
            R.ob("copy", "count", equal(I, st.facts, payload(v), size), "the size captured is reported", span, "capturing a file reports %s bytes" % show(payload(v)))
            R.ob("copy", "aligned", prove(I, st.facts, eq(sub(outoff, scale(first, N)), INT(0))), "only whole sectors are captured", span,
                 "a file that does not start at a sector boundary is captured as if it did")
            R.ob("copy", "start", prove(I, st.facts, eq(inoff, INT(0))), "files are captured from their start", span,
                 "a file part that does not start at the file's beginning is captured as if it did")
        else:
            R.ob("copy", "fails", False, "", span, "capturing a file fails")


def read(R):
    path = "<%s<'_, F> as ciso::write::SectorReader>::read_sector" % CISO
    fn = R.fn(path)
    V = {n: R.variant(CONT, n) for n in ("RawData", "File", "Empty")}
    slf = mk("sym", "param", "self", ty=fn.locals[1])
    sec = mk("sym", "param", "sector", ty=fn.locals[2])
    lin = field(mk("deref", slf), None, R.field(CISO, "linear"))
    m = field(lin, None, R.field(DEV, "contents"))

    def result(I, st, e, ret):
        if e.name == COPY:
            n = at(e, "n", int_ty(R, "u64"))
            s = st.copy()
            I.set(s, e.args[2], mk("sym", "call", e.ctx, e.bb, ("scn", "bytes")))
            return cases(case(I, s, ok(n), "copied", [le(INT(0), n), le(n, e.args[5])]), case(I, st, err(at(e, "e")), "failed"))

    def run(pre):
        st0 = interp.State(mon=frozenset(["none"]), facts=frozenset([le(INT(0), sec)] + pre))
        return R.analyse(path, args=[slf, sec, INT(N)], st=st0, result=result, esp=True, disj=True, mon0=("none",))

    I = run([])
    got = {f.args[0] for _, f0 in [(None, st.facts) for st, _ in I.results] + [(None, f) for p in I.phi_info for _, f, _ in I.phi_info[p].values()] +
           [(None, e.facts) for e in I.events()] for f in f0 if f.op == "isvar" and is_got(f.args[0], m, sec)}
    R.ob("read", "lookup", len(got) == 1, "the sector asked for is looked up", fn.span, "the sector asked for is not looked up among the captured ones")
    if len(got) != 1:
        return
    got = got.pop()
    ent = mk("deref", field(got, 1, 0))
    # every kind of contents in turn
    for kind, pre in [("nothing", [mk("isvar", got, 0)])] + [(n, [mk("isvar", got, 1), mk("isvar", ent, V[n])]) for n in V]:
        I = run(pre)
        read_kind(R, I, kind, ent, V, fn.span, slf)


def read_kind(R, I, kind, ent, V, span, slf):
    for e in evs(I, COPY):
        for x, f in alts_(I, tup(e.snap[1], e.args[3], e.args[4], e.args[5]), e.facts):
            p, j, o, sz = x.args[2]
            okp = kind == "File" and cong(I, p, field(ent, V["File"], 0))
            R.ob("read", "file", okp, "the file captured at this sector is read", where(e), "for contents of kind %s a sector is read from %s" % (kind, show(p)))
            R.ob("read", "part", times(j, field(ent, V["File"], 1)), "the part captured at this sector is read", where(e),
                 "a file sector is read from byte " + show(j))
            R.ob("read", "window", isint_const(o, 0) and isint_const(sz, N), "one sector is read", where(e), "a file sector is read to %s, size %s" % (show(o), show(sz)))
        R.ob("read", "fs", any(x is field(field(mk("deref", slf), None, R.field(CISO, "fs")), None, R.field(SLFS, "fs")) for x in allsubs(e.args[0])), "the captured source is read", where(e))
        b = strip_box(e.snap[2])
        R.ob("read", "zero", b.op == "fill" and isint_const(b.args[0], 0) and isint_const(length(b), N), "the rest of a file's last sector is zero", where(e),
             "a file sector is read over " + show(b))
    n = 0
    for st, v in I.results:
        mon = the_mon(st)
        if not is_ok(v):
            R.ob("read", "err:" + kind, mon == "failed", "errors only after a failure", span, "reading a sector of kind %s fails although nothing failed" % kind)
            continue
        R.ob("read", "swallow", mon != "failed", "a failed read is an error", span, "a sector whose data cannot be read counts as read")
        for x, f in alts_(I, payload(v), st.facts):
            n += 1
            x = strip_box(x)
            if kind in ("Empty", "nothing"):
                g = x.op == "fill" and isint_const(x.args[0], 0) and isint_const(length(x), N)
            elif kind == "RawData":
                y = x
                if y.op == "supd" and int_val(y.args[1]) == 0 and isint_const(y.args[2], N):
                    y = y.args[3]
                y = whole_of(y)
                d = field(ent, V["RawData"], 0)
                while y.op in ("field", "deref") and y is not d and y.args[-2:] != (V["RawData"], 0):
                    y = y.args[0]
                g = y is d
            else:
                g = x.op == "sym" and x.args[-1] == ("scn", "bytes") and mon == "copied"
            R.ob("read", "kind:%s" % kind, g, "a %s sector is replayed as captured" % kind, span,
                 "a sector of kind %s is replayed as %s" % (kind, show(x)))
    R.ob("read", "some:" + kind, n > 0, "a %s sector is replayed" % kind, span)
    for e in evs(I, kind="panic"):
        fine = prove(I, e.facts, e.goal) if e.goal is not FALSE else entail.inconsistent(e.facts)
        R.ob("read", "panic:" + e.name, fine or whole(I, e), "replaying a captured sector cannot panic", where(e), "replaying a sector can panic (%s)" % e.name)


def whole_of(t):
    """without copies that change nothing"""
    while t.op == "app" and len(t.args[1]) == 1 and t.args[0].rsplit("::", 1)[-1] in ("to_vec", "into_vec", "to_owned", "clone", "into", "from", "as_slice", "collect"):
        t = t.args[1][0]
    return t


def times(t, x):
    if t.op == "mul" or t.op == "app" and t.args[0].endswith("Mul::mul"):
        a, b = t.args if t.op == "mul" else t.args[1]
        return a is x and isint_const(b, N) or b is x and isint_const(a, N)
    return t is scale(x, N)


def whole(I, e):
    """the length of captured data, which is an array of one sector"""
    f = frozenset(e.facts) | {eq(a, INT(N)) for s in (e.snap or ()) for a in allsubs(s) if a.op == "len"}
    return e.goal is not FALSE and prove(I, f, e.goal)


def is_got(t, m, key):
    return t.op == "app" and t.args[0].endswith("::get") and t.args[1][0] is m and t.args[1][1] is key


def at(e, *tag):
    ty = None
    tag_ = []
    for x in tag:
        if isinstance(x, str):
            tag_.append(x)
        else:
            ty = x
    return mk("sym", "call", e.ctx, e.bb, ("scn",) + tuple(tag_), ty=ty)


def size(R):
    path = "<%s<'_, F> as ciso::write::SectorReader>::size" % CISO
    span = R.fn(path).span
    for path, fld in ((path, True), ("<%s as xdvdfs::blockdev::BlockDeviceWrite>::len" % DEV, False)):
        I = R.analyse(path, esp=True)
        d = mk("deref", I.rootargs[0])
        m = field(field(d, None, R.field(CISO, "linear")) if fld else d, None, R.field(DEV, "contents"))
        EMPTY = R.variant(CONT, "Empty")
        who = "size" if fld else "len"
        n = 0
        for st, v in I.results:
            R.ob("size", who + ":ok", is_ok(v), "the size is always known", span, "the size cannot be determined")
            if not is_ok(v):
                continue
            for x, f in full_alts(I, payload(v), st.facts):
                last = [g.args for g in f if g.op == "isvar" and g.args[0].op == "app" and g.args[0].args[0].endswith("last_key_value") and g.args[0].args[1][0] is m]
                empty = any(k == 0 for _, k in last)
                key = None
                for a, k in last:
                    if k == 1:
                        key = mk("deref", field(field(a, 1, 0), None, 0))
                n += 1
                # nothing is ever captured as Empty
                never = any(g.op == "isvar" and g.args[1] == EMPTY for g in f)
                good = never or (isint_const(x, 0) if empty else key is not None and equal(I, f, x, add(scale(key, N), INT(N))))
                R.ob("size", who + (":empty" if empty else ":last"), good, "the size ends behind the last captured sector", span,
                     "the size is %s" % show(x))
        R.ob("size", who + ":some", n > 1, "with and without sectors", span)


def index(R):
    path = "<%s as std::ops::Index<u64>>::index" % DEV
    span = R.fn(path).span
    I = R.analyse(path, esp=True)
    m = field(mk("deref", I.rootargs[0]), None, R.field(DEV, "contents"))
    EMPTY = R.variant(CONT, "Empty")
    for st, v in I.results:
        for x, f in full_alts(I, v, st.facts):
            hit = [g for g in f if g.op == "isvar" and is_got(g.args[0], m, I.rootargs[1])]
            if any(g.args[1] == 0 for g in hit):
                y = I.load(st, x)
                R.ob("index", "hole", y.op == "agg" and y.args[1] == EMPTY or EMPTYish(x, EMPTY), "a sector never written is empty", span, "a sector never written is " + show(y))
            else:
                R.ob("index", "hit", any(x is field(g.args[0], 1, 0) for g in hit), "a captured sector is found by its number", span, "sector %s is %s" % (show(I.rootargs[1]), show(x)))


def EMPTYish(x, k):
    return any(a.op == "agg" and a.args[0] == CONT and a.args[1] == k for a in allsubs(x)) or ("#%d()" % k) in show(x)


def mem_slice(R):
    """the [u8] target the parts of files are read into"""
    path = "<[u8] as xdvdfs::blockdev::BlockDeviceWrite>::write"
    span = R.fn(path).span
    I = R.analyse(path, esp=True)
    slf, off, buf = I.rootargs
    n = 0
    for st, v in I.results:
        if not is_ok(v):
            continue
        x = I.load(st, slf)
        for y, f in full_alts(I, x, st.facts):
            n += 1
            good = y.op == "supd" and y.args[0] is mk("deref", slf) and y.args[1] is off and equal(I, f, sub(y.args[2], off), length(mk("deref", buf))) and \
                (y.args[3] is mk("deref", buf) or y.args[3] is buf)
            R.ob("slice", "write", good, "bytes land at their offset", span, "writing to memory gives " + show(y))
    R.ob("slice", "ok", n > 0, "writing can succeed", span)


CREATE, WCISO = "xdvdfs::write::img::create_xdvdfs_image", "ciso::write::write_ciso_image"
ABS = "xdvdfs::img::absolute_path"
OPENRAW = "xdvdfs::img::open_image_raw"
XNEW = "XDVDFSFilesystem::<D, W, Copier>::new"


def command(R):
    path = "xdvdfs::cmd_compress::cmd_compress"
    span = R.fn(path).span
    pre = {}

    def monitor(m, e, st, I):
        if e.kind == "call" and e.name == CREATE:
            w = e.snap[0]
            pre[(e.ctx, e.bb)] = I.load(st, field(w, None, R.field(SLFS, "fs"))) if w.op == "agg" else w

    def result(I, st, e, ret):
        ph = the_mon(st)
        if e.name == ABS:
            tag = "src" if any(x is srcfield(R, I) for x in allsubs(e.snap[0])) else "other"
            return cases(case(I, st, ok(at(e, tag)), ph), case(I, st, err(at(e, "e")), "failed"))
        if e.name == OPENRAW:
            R.ob("command", "open", tagged(e.snap[0], "src"), "the image named is opened", where(e), "the image opened is " + show(e.snap[0]))
            return cases(case(I, st, ok(at(e, "img")), ph), case(I, st, err(at(e, "e")), "failed"))
        if e.name.endswith(XNEW):
            return cases(case(I, st, some(mk("sym", "call", e.ctx, e.bb, ("scn", "imgfs" if tagged(e.snap[0], "img") else "otherfs"))), ph), case(I, st, NONE, "failed"))
        if e.name == CREATE:
            f = pre.get((e.ctx, e.bb), e.snap[0])
            r = f if f.op == "sym" else field(f, None, R.field("xdvdfs::write::fs::stdfs::StdFilesystem", "root"))
            R.ob("command", "source", tagged(r, "imgfs") or tagged(same_path(r), "src"), "the image is built from the source named", where(e),
                 "the image is built from " + show(f))
            d = e.snap[1]
            R.ob("command", "fresh", not any(x.op in ("sym", "hav", "phi", "mapins") for x in allsubs(d)), "the image is captured from its first sector on", where(e),
                 "the image is captured on top of " + show(d))
            a, b = st.copy(), st.copy()
            I.set(a, e.args[1], at(e, "dev"))
            I.set(a, e.args[0], at(e, "fs"))
            return cases(case(I, a, ok(UNIT), "created" if ph == "start" else ph), case(I, b, err(at(e, "e")), "failed"))
        if e.name == WCISO:
            x = e.snap[0]
            good = ph == "created" and tagged(field(x, None, R.field(CISO, "linear")), "dev") and tagged(field(x, None, R.field(CISO, "fs")), "fs")
            R.ob("command", "input", good, "the captured image and its source are compressed", where(e), "what is compressed is %s (%s)" % (show(x), ph))
            return cases(case(I, st, ok(UNIT), "done" if ph == "created" else ph), case(I, st, err(at(e, "e")), "failed"))

    I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: p in (CREATE, ABS, OPENRAW) or p.endswith(XNEW), esp=True, mon0=("start",))
    cs = evs(I, CREATE)
    R.ob("command", "both", len({c.bb for c in cs}) >= 1, "the image is built", span)
    for st, v in I.results:
        ph = the_mon(st)
        if is_ok(v):
            R.ob("command", "ok:" + ph, ph == "done", "success only after the image was built and compressed", span, "compressing succeeds in phase " + ph)
    R.ob("command", "some", any(is_ok(v) for _, v in I.results), "compressing can succeed", span)


def srcfield(R, I):
    return field(mk("deref", I.rootargs[0]), None, R.field("xdvdfs::cmd_compress::CompressArgs", "source_path"))


def same_path(t):
    while t.op == "app" and len(t.args[1]) == 1 and t.args[0].rsplit("::", 1)[-1] in ("to_owned", "to_path_buf", "into", "from", "clone", "as_path", "borrow", "as_ref", "new", "into_path_buf"):
        t = t.args[1][0]
    return t


def tagged(t, tag):
    return t.op == "sym" and t.args[-1] == ("scn", tag)


def check(R):
    write(R)
    copy(R)
    read(R)
    size(R)
    index(R)
    mem_slice(R)
    command(R)
