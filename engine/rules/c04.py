"""File contents: every device read issued for a file lies inside that file's extent and the bytes handed
back are exactly the requested part of it.  Abstract interpretation of the content-reading entry points
(whole-file, ranged, caller-buffer and seek reads) from unconstrained arguments: for each device access the
linear-inequality domain must prove first_byte(extent) <= offset and offset+len <= end(extent), and for each
successful return the returned buffer must be the one filled by that access, of exactly the requested length."""
from base import *

FLOORS = {"confined": 2, "exact": 4, "start": 3}
D = "xdvdfs::layout::DirectoryEntryDiskData::"


def check(R):
    for fn in ("read_data_all", "read_data_offset"):
        I = R.analyse(D + fn)
        a = I.rootargs
        start, size = region(R, mk("deref", a[0]))
        rd = evs(I, READ)
        for e in rd:
            n = length(e.snap[2])
            R.ob("confined", fn, prove(I, e.facts, le(start, e.args[1])) and
                 prove(I, e.facts, le(add(e.args[1], n), add(start, size))),
                 "%s reads [%s, +%s) of extent [%s, +%s)" % (fn, show(e.args[1]), show(n), show(start), show(size)),
                 where(e), "a device read of %s is not provably inside the file's extent: reads %s bytes at %s, "
                 "extent starts at %s and has %s bytes" % (fn, show(n), show(e.args[1]), show(start), show(size)))
        off, want = INT(0), size
        if fn == "read_data_offset":
            off = a[3]
            want = minmax("min", a[2], sub(size, off))
        for st, v in I.results:
            if not is_ok(v):
                continue
            for buf, facts in alts(I, payload(v), st.facts):
                buf = strip_box(buf)
                n = length(buf)
                if buf.op == "hav":
                    src = [e for e in rd if hv_of(buf.args[1], e)]
                    good = bool(src) and all(
                        equal(I, facts | e.facts, e.args[1], add(start, off)) and
                        equal(I, facts | e.facts, n, want) and mk("isvar", e.ret, 0) in facts for e in src)
                    w = where(src[0]) if src else R.fn(D + fn).span
                else:
                    # nothing was read: only right when nothing was asked for
                    good = equal(I, facts, n, INT(0)) and (
                        prove(I, facts, le(size, INT(0))) or prove(I, facts, le(want, INT(0))))
                    w = R.fn(D + fn).span
                R.ob("exact", fn, good, "%s returns %s" % (fn, show(buf)), w,
                     "%s can return Ok with something other than exactly the requested bytes of the file: %s "
                     "(wanted %s bytes from %s)" % (fn, show(buf), show(want), show(add(start, off))))
    for fn in ("read_data", "seek_to"):
        I = R.analyse(D + fn)
        start, size = region(R, mk("deref", I.rootargs[0]))
        acc = evs(I, READ, "std::io::Seek::seek")
        for e in acc:
            if e.name == READ:
                o = e.args[1]
                good = length(e.snap[2]) is length(I.rootargs[2])
            else:
                pos = e.args[1]
                good = pos.op == "agg" and pos.args[1] == 0
                o = pos.args[2][0] if good else INT(-1)
            R.ob("start", fn, good and equal(I, e.facts, o, start), "%s accesses the device at %s" % (fn, show(o)),
                 where(e), "%s does not start at the first byte of the file: %s instead of %s" % (
                     fn, show(o), show(start)))
        for st, v in I.results:
            if not is_ok(v):
                continue
            did = [e for e in acc if mk("isvar", e.ret, 0) in st.facts]
            # seek_to on an empty file reports an error; read_data returns without touching the buffer
            R.ob("start", fn + ":effect", did or prove(I, st.facts, le(size, INT(0))) or acc_merged(I, st, acc, size),
                 "%s succeeds only after its device access or for an empty file" % fn, R.fn(D + fn).span)


def hv_of(s, e):
    return s.op == "sym" and s.args[0] == "hv" and s.args[1] == e.ctx and s.args[2] == e.bb


def acc_merged(I, st, acc, size):
    return any(e.id in st.may for e in acc)
