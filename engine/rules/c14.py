"""Header last.  Typestate analysis of image creation with every fallible call (listing, table construction, table
serialisation, file copy, device write, device length) made to fail: the only write that may touch the header sector
is the one of the serialised descriptor at byte 65536; it may be issued only once, in a state where every earlier call
succeeded, every table of the image has been written and every entry of the last table handled; after it nothing is
written but zero padding appended at the current length up to the next 64 KiB multiple; success is returned only when
header and padding are on the device, and no write follows a failure."""
from base import *

FLOORS = {"header": 4, "order": 1, "padding": 2, "result": 3}
CREATE = "xdvdfs::write::img::create_xdvdfs_image"
COPY = "xdvdfs::write::fs::FilesystemCopier::copy_file_in"
DT = "xdvdfs::write::img::dir_tree"
TABLES = "xdvdfs::write::img::create_dirent_tables"
ALLOC = "xdvdfs::write::sector::SectorAllocator::allocate_contiguous"
REPR = "xdvdfs::write::dirtab::DirectoryEntryTableWriter::disk_repr"
SIZE = "xdvdfs::write::dirtab::DirectoryEntryTableWriter::dirtab_size"
VNEW, VSER, TNEW = VOLUME + "::new", VOLUME + "::serialize", TABLE + "::new"
OPAQUE = (DT, TABLES, ALLOC, REPR, SIZE, VNEW, VSER, TNEW)


def opaque(p):
    return p in OPAQUE or p.startswith("xdvdfs::write::fs::PathVec::")


def is_result(t):
    return t is not None and t.k == "adt" and t.p == "std::result::Result"


def check(R):
    span = R.fn(CREATE).span
    for f in OPAQUE:
        R.fn(f)
    bad = {}

    def note(rule, key, e, msg):
        bad.setdefault((rule, key), (where(e), msg))

    hdr = []

    def is_header(e):
        return any(x.op == "sym" and x.args[0] == "call" and VSER in x.args for x in allsubs(e.snap[2]))

    def result(I, st, e, ret):
        ph = the_mon(st)
        if e.name in (WRITE, COPY):
            if ph == "failed":
                note("order", "after-failure", e, "the device is written after a failure")
            nxt = ph
            if e.name == WRITE:
                off, buf = e.args[1], e.snap[2]
                if is_header(e):
                    hdr.append(e)
                    if ph != "open":
                        note("order", "header:" + ph, e, "the header is written %s" % PH[ph])
                    nxt = "header"
                elif ph == "len":
                    n = length(buf)
                    zero = buf.op == "fill" and int_val(buf.args[0]) == 0
                    L = st_len(st)
                    R.ob("padding", "at-end", off is L, "padding starts at the device length", where(e),
                         "the padding is written at %s instead of the current length %s" % (show(off), show(L)))
                    R.ob("padding", "multiple", all(rem(add(off, x), INT(65536)) is INT(0) and prove(I, f, le(x, INT(65535)))
                                                    for x, f in alts(I, n, st.facts)),
                         "padding reaches exactly the next multiple of 65536", where(e),
                         "the padding of %s bytes at %s does not end at the next multiple of 64 KiB" % (show(n), show(off)))
                    R.ob("padding", "zero", zero, "padding is zero", where(e), "the padding is not zero bytes: " + show(buf))
                    nxt = "done"
                elif ph != "open":
                    note("order", "write:" + ph, e, "%s bytes at %s are written %s" % (show(length(buf)), show(off), PH[ph]))
                elif int_val(off) is not None:
                    note("header", "fixed", e, "data other than the descriptor is written at the fixed position " + show(off))
            elif ph != "open" and ph != "failed":
                note("order", "copy:" + ph, e, "a file is copied " + PH[ph])
            return cases(case(I, st, ok(at_(e, "v")), nxt), case(I, st, err(at_(e, "e")), "failed"))
        if e.name == LEN:
            return cases(case(I, st, ok(at_(e, "len", int_ty(R, "u64"))), "len" if ph == "header" else ph), case(I, st, err(at_(e, "e")), "failed"))
        if is_result(ret.ty):
            return cases(case(I, st, ok(field(ret, 0, 0)), ph), case(I, st, err(at_(e, "e")), "failed"))

    def at_(e, tag, ty=None):
        return mk("sym", "call", e.ctx, e.bb, ("scn", tag), ty=ty)

    def st_len(st):
        ls = {at_(e, "len", int_ty(R, "u64")) for e in evs(I, LEN)}
        return ls.pop() if len(ls) == 1 else None

    I = interp.Interp(R.P, interp.Opts(opaque=opaque, result=result, mon0=("open",), esp=True))
    I.run(CREATE, args=None, st=None, poll=True)
    R.account(I, CREATE)

    for (rule, key), (w, msg) in sorted(bad.items()):
        R.ob(rule, key, False, "", w, msg)
    R.ob("order", "all", not bad, "no device write out of order", span)

    # the header write itself
    R.ob("header", "one", len(hdr) > 0, "the descriptor is written", span, "the volume descriptor is never written to the device")
    for e in hdr:
        R.ob("header", "at", isint_const(e.args[1], 65536), "the descriptor goes to byte 65536", where(e), "the descriptor is written at " + show(e.args[1]))
        ser = [s for s in evs(I, VSER) if any(x is s.ret for x in allsubs(e.snap[2]))]
        good = len(ser) == 1 and e.snap[2] is field(ser[0].ret, 0, 0)
        new = [n for n in evs(I, VNEW) if good and ser[0].snap[0] is n.ret]
        R.ob("header", "content", good and len(new) == 1, "the bytes written are the whole serialised new descriptor", where(e),
             "the header bytes written are " + show(e.snap[2]))
        tab = [t for t in evs(I, TNEW) if new and any(x is t.ret for x in expand(I, new[0].snap[0]))]
        R.ob("header", "root", bool(tab), "the descriptor names the root table", where(e))
        for t in tab:
            alloc = [a for a in evs(I, ALLOC) if a.ret is t.args[1]]
            good = len(alloc) == 1 and alloc[0].args[1] is t.args[0]
            szs = [s for s in evs(I, SIZE) if s.ret is t.args[0]]
            first = [s for s in szs if any(x.op == "app" and x.args[0].endswith("first_key_value") for x in allsubs(s.snap[0]))]
            R.ob("header", "root-extent", good and len(szs) == 1, "the descriptor records the sector allocated for the root table and its size", where(t),
                 "the root table is recorded as (size %s, sector %s), which is not one allocation of that size" % (show(t.args[0]), show(t.args[1])))
            R.ob("header", "root-first", bool(first), "the root is the first table", where(t), "the size recorded for the root table is that of " + (show(szs[0].snap[0]) if szs else "?"))
        # all tables and entries have been handled: both loops have ended before
        src = {root_src(x.args[0]) for x in evs(I, kind="iterend") if x.id in e.must}
        R.ob("order", "tables-first", any(s == TABLES for s in src), "all tables have been visited before the header is written", where(e),
             "the header can be written before every directory table has been visited")
    n = 0
    for st, v in I.results:
        ph = the_mon(st)
        if is_ok(v):
            good = ph == "done" or ph == "len" and st_len(st) is not None and all(
                prove(I, f, le(rem(st_len(st), INT(65536)), INT(0))) for f in case_facts(I, st.facts))
            n += good
            R.ob("result", "ok:" + ph, good, "success only after header and padding", span, "image creation can report success " + PH.get(ph, ph))
        else:
            R.ob("result", "err:" + ph, ph in ("failed", "open"), "an error follows a failure", span,
                 "image creation reports an error although everything succeeded (%s)" % ph)
    R.ob("result", "some", n > 0, "image creation can succeed", span)


def root_src(t):
    """name of the call a value is derived from"""
    while True:
        if t.op == "field":
            t = t.args[0]
        elif t.op == "app" and t.args[1]:
            t = t.args[1][0]
        else:
            break
    if t.op == "sym" and t.args[0] == "call":
        return t.args[3]
    return None


PH = {"open": "before the header", "failed": "after a failed call", "header": "after the header", "len": "after the header without padding to a multiple of 64 KiB",
      "done": "after the padding"}
