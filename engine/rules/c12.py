"""Names and sizes that cannot be represented are refused.  Case-split of the encoder's three outcomes in the name encoder
(only a completely consumed name whose encoding fits one byte of length may succeed, with exactly the encoded length);
value-flow of name and size through the table writer to the search tree, unchanged, with success only when the tree took
the entry; case-split of the comparison in the tree's insertion (an equal name inserts nothing and is reported); sizes of
files from the listing to the table (tables rule of C13) and child offsets of written tables (table rule of C11)."""
from base import *
from rules.c13 import tables, Notes, DTW

FLOORS = {"encode": 5, "decode": 2, "add": 8, "unique": 4, "order": 1, "tables": 8, "length": 2}
DATA = "xdvdfs::layout::DirectoryEntryData"
ENCODE = DATA + "::encode_name"
RAW = ("encoding_rs::Encoder::encode_from_utf8_without_replacement",)
DEC = ("encoding_rs::Encoding::decode_without_bom_handling_and_without_replacement",)
INSERT = "xdvdfs::write::avl::AvlTree::<T>::insert"
ORD = "<%s as std::cmp::Ord>::cmp" % DATA
CMP = "xdvdfs::util::cmp_ignore_case_utf8"
ER = "encoding_rs::EncoderResult"
CHARSET = "encoding_rs::WINDOWS_1252"


def charset(t):
    """the character set objects a term was made from"""
    return {a.args[1] for a in allsubs(t) if a.op == "sym" and a.args[0] == "static"}


def encode(R):
    fn = R.fn(ENCODE)
    span = fn.span
    seen = []

    def result(I, st, e, ret):
        if e.name in RAW:
            seen.append(e)
            m = the_mon(st)
            if m != "idle":
                return cases(case(I, st, ret, "twice"))
            us = int_ty(R, "usize")
            w = mk("sym", "call", e.ctx, e.bb, ("scn", "w"), ty=us)
            n = mk("sym", "call", e.ctx, e.bb, ("scn", "n"), ty=us)
            whole = [le(w, length(e.snap[2]))]
            return cases(case(I, st, tup(agg(ER, 0, ()), length(e.snap[1]), w), "fits", whole + [le(w, INT(255))]),
                         case(I, st, tup(agg(ER, 0, ()), length(e.snap[1]), w), "long", whole + [le(INT(256), w)]),
                         case(I, st, tup(agg(ER, 1, ()), n, w), "full", whole + [le(n, length(e.snap[1]))]),
                         case(I, st, tup(agg(ER, 2, (mk("sym", "call", e.ctx, e.bb, ("scn", "c")),)), n, w), "unmappable",
                              whole + [le(n, length(e.snap[1]))]))

    I = R.analyse(ENCODE, result=result, mon0=("idle",), esp=True)
    slf, buf = mk("deref", I.rootargs[0]), I.rootargs[1]
    name = flds(R, slf, (DATA, "name"))
    calls = evs(I, *RAW)
    for e in calls:
        R.ob("encode", "charset", charset(e.snap[0]) == {CHARSET}, "names are encoded in Windows-1252", where(e), "names are encoded with " + show(e.snap[0]))
        R.ob("encode", "name", cong(I, e.snap[1], name), "the whole name is encoded", where(e), "what is encoded is %s, not the whole name" % show(e.snap[1]))
        R.ob("encode", "last", e.args[3] is TRUE, "the encoder is told that the name ends", where(e), "the name's end is not signalled to the encoder")
        R.ob("encode", "place", same_place(I, e.args[2], buf) or e.args[2] is buf, "the encoded name goes to the start of the caller's buffer", where(e),
             "the encoded name is written to " + show(e.args[2]))
    for st, v in I.results:
        m = the_mon(st)
        if is_ok(v):
            good = m == "fits" and any(equal(I, st.facts, payload(v), at(e, "w")) for e in calls)
            R.ob("encode", "ok:" + m, good, "success with the encoded length", span,
                 "encoding a name gives %s although %s" % (show(v), WHY[m]))
        else:
            R.ob("encode", "err:" + m, m in ("long", "full", "unmappable"), "refused only when not representable", span,
                 "a name is refused although %s" % WHY[m])
    R.ob("encode", "sites", len(calls) > 0, "the name is encoded", span, "names are not passed to the encoder")


WHY = {"fits": "it was encoded completely and fits", "long": "its encoded length does not fit one byte", "full": "it was not encoded completely",
       "unmappable": "it holds a character that cannot be encoded", "idle": "it was not encoded", "twice": "it was encoded twice"}


def at(e, *tag):
    return mk("sym", "call", e.ctx, e.bb, ("scn",) + tag)


def decode(R):
    p = NODE + "::name_str"
    fn = R.fn(p)
    I = R.analyse(p)
    slf = mk("deref", I.rootargs[0])
    n = flds(R, slf, (NODE, "node"), (DISKNODE, "dirent"), (DISKDATA, "filename_length"))
    raw = flds(R, slf, (NODE, "name"))
    for st, v in I.results:
        if not is_ok(v):
            continue
        apps = [a for a in allsubs(v) if a.op == "app" and a.args[0] in DEC]
        R.ob("decode", "charset", len(apps) == 1 and charset(v) == {CHARSET}, "names are decoded from Windows-1252", fn.span, "a name is decoded as " + show(v))
        for a in apps:
            s = a.args[1][1]
            good = s.op == "slice" and s.args[0] is raw and isint_const(s.args[1], 0) and equal(I, st.facts, s.args[2], n)
            R.ob("decode", "bytes", good, "exactly the stored name is decoded", fn.span, "the bytes decoded are %s, not the stored name" % show(s))


def adding(R):
    for kind, path in (("dir", DTW + "::add_dir"), ("file", DTW + "::add_file")):
        span = R.fn(path).span
        note = Notes(R, "add")

        def result(I, st, e, ret):
            if e.name == INSERT:
                if the_mon(st) not in ("idle",):
                    note(kind + "-again", e, "an entry is inserted twice")
                return cases(case(I, st, TRUE, "taken"), case(I, st, FALSE, "duplicate"))

        def learned(m, st, I):
            if m == "idle" and prove(I, st.facts, le(INT(256), length(I.rootargs[1]))):
                return ["long"]

        I = R.analyse(path, result=result, learned=learned, opaque=lambda p: p == INSERT, mon0=("idle",), esp=True)
        slf, name, size = I.rootargs[:3]
        for e in evs(I, INSERT):
            d = e.snap[1]
            R.ob("add", kind + "-table", e.snap[0] is flds(R, mk("deref", slf), (DTW, "table")) or occurs(slf, e.args[0]), "the entry goes into this table", where(e),
                 "the entry is inserted into " + show(e.args[0]))
            R.ob("add", kind + "-name", cong(I, flds(R, d, (DATA, "name")), name), "the entry keeps its whole name", where(e),
                 "an entry is stored under the name %s" % show(flds(R, d, (DATA, "name"))))
            s = flds(R, d, (DATA, "node"), (DISKDATA, "data"), (REGION, "size"))
            g = equal(I, e.facts, s, size) if kind == "file" else \
                prove(I, e.facts, le(size, s)) and prove(I, e.facts, le(s, add(size, INT(2047)))) and mult(I, e.facts, s, 2048)
            R.ob("add", kind + "-size", g, "the size is stored unchanged" if kind == "file" else "the table size is rounded up to sectors", where(e),
                 "the size stored is %s" % show(s))
            a = flds(R, d, (DATA, "node"), (DISKDATA, "attributes"))
            b = flag(field(a, None, 0), 4)
            b = None if b is None else True if prove(I, e.facts, b) else False if prove(I, e.facts, notb(b)) else None
            R.ob("add", kind + "-kind", b == (kind == "dir"), "the entry is marked as a %s" % kind, where(e),
                 "a %s is stored with attributes %s" % (kind, show(a)))
        for st, v in I.results:
            m = the_mon(st)
            if is_ok(v):
                R.ob("add", kind + "-ok:" + m, m == "taken", "success only when the entry was taken", span, "adding a %s succeeds although %s" % (kind, ADD[m]))
            else:
                R.ob("add", kind + "-err:" + m, m in ("long", "duplicate"), "refused only when too long or present", span, "adding a %s fails although %s" % (kind, ADD[m]))
        note.flush()


def flag(a, n):
    """bit n of the flag byte a, as a condition"""
    while a.op == "setbit":
        if int_val(a.args[1]) == n:
            return a.args[2]
        a = a.args[0]
    return BOOL(bool(int_val(a) >> n & 1)) if int_val(a) is not None else None


ADD = {"idle": "it was not inserted", "taken": "it was inserted", "duplicate": "an entry of that name exists", "long": "its name is longer than 255 bytes"}


def mult(I, facts, t, k):
    """every term of the sum is a multiple of k"""
    return isint_const(rem(t, INT(k)), 0) or prove(I, facts, le(rem(t, INT(k)), INT(0)))


def unique(R):
    path = INSERT
    span = R.fn(path).span
    note = Notes(R, "unique")
    OC = "std::cmp::Ord::cmp"

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name == OC:
            if m == "Equal":
                note("goes-on", e, "the insertion goes on after an equal name")
            out = []
            for k, nm in ((0, "Less"), (1, "Equal"), (2, "Greater")):
                out.append(case(I, st, agg("std::cmp::Ordering", k, ()), nm))
            return cases(*out)
        if e.name.endswith("::rebalance"):
            return cases(case(I, st, UNIT, m))

    def monitor(m, e, st, I):
        if e.kind == "push" and any(x is I.rootargs[1] for x in allsubs(e.args[1])):
            if m == "Equal":
                note("equal", e, "an entry is inserted although its name is present")
            if m == "pushed":
                note("twice", e, "an entry is inserted twice")
            return ["pushed"]

    I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: p == OC or p.endswith("::rebalance"), mon0=("idle",), esp=True)
    data = I.rootargs[1]
    for e in evs(I, OC):
        a, b = e.snap
        x, y = (a, b) if a is data else (b, a)
        R.ob("unique", "operands", x is data and y is not data and any(t.op == "elem" for t in allsubs(y)), "the new entry is compared with an entry of the tree", where(e),
             "the entries compared are %s and %s" % (show(a), show(b)))
    for e in evs(I, kind="push"):
        R.ob("unique", "whole", sum(1 for x in allsubs(e.args[1]) if x is data) == 1 and not partial(e.args[1], data), "the entry is stored whole", where(e), "what is stored is " + show(e.args[1]))
    for st, v in I.results:
        m = the_mon(st)
        for x, f in alts(I, v, st.facts):
            t = show(x)
            if t == "true":
                R.ob("unique", "new:" + m, m == "pushed", "'new' only after inserting", span, "the insertion reports a new entry although %s" % INS[m])
            else:
                R.ob("unique", "old:" + m, m == "Equal" and t == "false", "'present' only after an equal name", span, "the insertion reports %s although %s" % (t, INS[m]))
    note.flush()


INS = {"idle": "nothing was compared or inserted", "Less": "the last name compared was different", "Greater": "the last name compared was different",
       "Equal": "an equal name was found", "pushed": "the entry was inserted"}


def partial(t, d):
    return any(x.op == "field" and x.args[0] is d for x in allsubs(t))


def order(R):
    fn = R.fn(ORD)
    I = R.analyse(ORD, opaque=lambda p: p == CMP)
    a, b = (flds(R, mk("deref", x), (DATA, "name")) for x in I.rootargs[:2])
    for st, v in I.results:
        good = any(e.ret is v and cong(I, e.snap[0], a) and cong(I, e.snap[1], b) for e in evs(I, CMP))
        R.ob("order", "compare", good, "entries are compared by name, ignoring case", fn.span, "entries are ordered by %s, not by comparing their names ignoring case" % show(v))


def lengths(R):
    """the space an entry takes: its 14 bytes and the encoded name, rounded up to four"""
    p = DATA + "::len_on_disk"
    fn = R.fn(p)
    w = fresh("w", int_ty(R, "u8"))

    def result(I, st, e, ret):
        if e.name == ENCODE:
            return cases(case(I, st, ok(w), "ok", [le(INT(0), w), le(w, INT(255))]), case(I, st, err(fresh("e")), "failed"))

    I = R.analyse(p, result=result, opaque=lambda p: p == ENCODE, mon0=("idle",), esp=True)
    for e in evs(I, kind="panic"):
        if e.goal is not None:
            R.ob("length", "panic:" + e.name, prove(I, e.facts, e.goal), "no overflow", where(e), "the length of an entry can overflow")
    for st, v in I.results:
        m = the_mon(st)
        if not is_ok(v):
            R.ob("length", "err:" + m, m == "failed", "an error only for a name that cannot be encoded", fn.span, "the length is refused although the name was encoded")
            continue
        for x, f in alts(I, payload(v), st.facts):
            g = m == "ok" and prove(I, f, le(add(w, INT(14)), x)) and prove(I, f, le(x, add(w, INT(17)))) and mult(I, f, x, 4)
            R.ob("length", "value", g, "14 + encoded name, rounded up to 4", fn.span, "the space computed for an entry whose encoded name has %s bytes is %s" % (show(w), show(x)))


def check(R):
    encode(R)
    decode(R)
    adding(R)
    unique(R)
    order(R)
    lengths(R)
    tables(R)
