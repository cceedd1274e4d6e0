"""Block-device contract.  Every implementation of the block-device traits is analysed with each primitive it
forwards to (inner device, seek, read_exact, write_all, decompressor) either succeeding or failing: success may be
reported only after exactly one complete transfer of the whole buffer at the requested offset (plus the partition
start for an opened image), a failure of the primitive must be reported as a failure, and in-memory devices must
transfer exactly the addressed bytes, accept every in-range request and refuse the rest."""
from base import *

FLOORS = {"shifted": 3, "positioned": 6, "forwarded": 4, "memory": 3, "memory-total": 3, "length": 4}
BD = "xdvdfs::blockdev::"
EFFECTS = (READ, WRITE, SEEK, READ_EXACT, WRITE_ALL, "std::io::Read::read", "std::io::Write::write",
           "ciso::read::CSOReader::<E, R>::read_offset")


def forwarding(R, rule, path, target, want, what):
    """exactly one call of `target`, with arguments satisfying want(I, event), decides the outcome"""
    I = None

    def result(I, st, e, ret):
        if e.name in EFFECTS:
            n, failed = the_mon(st)
            return ok_err(I, st, (n + 1, failed), (n + 1, True), ret if False else fresh(("val", e.name), None))

    I = R.analyse(path, result=result, mon0=((0, False),), esp=True)
    key = short(path)
    span = R.fn(path).span
    calls = [e for e in I.events() if e.kind == "call" and e.name in EFFECTS]
    for e in calls:
        R.ob(rule, key + ":call", e.name == target and want(I, e), "%s: %s" % (key, what), where(e),
             "%s does not forward to the underlying device as required (%s): %r" % (key, what, e))
    outs = set()
    for st, v in I.results:
        for n, failed in st.mon:
            outs.add((n, failed))
            good = n == 1 and (is_err(v) if failed else is_ok(v))
            R.ob(rule, "%s:%s" % (key, "fail" if failed else "ok"), good,
                 "%s after %d transfer(s)%s returns %s" % (key, n, " (failed)" if failed else "", show(v)[:60]), span,
                 "%s performs %d transfer(s)%s and returns %s" % (key, n, ", one failed," if failed else "", show(v)[:80]))
    R.ob(rule, key + ":both", outs == {(1, False), (1, True)}, "%s: both outcomes are reported" % key, span,
         "%s: outcomes of the underlying device that reach a return: %s" % (key, sorted(outs)))


def positioned(R, path, prim):
    """seek to the absolute offset, then one complete transfer of the whole buffer, on the same device"""
    def result(I, st, e, ret):
        if e.name in EFFECTS or e.name.startswith("std::io::"):
            stage, failed = the_mon(st)
            if e.name == SEEK:
                good = stage == "init" and same_place(I, e.args[0], I.rootargs[0]) and \
                    seek_start(e.args[1]) is I.rootargs[1]
                nxt = "seeked" if good else "bad seek"
            elif e.name == prim:
                good = stage == "seeked" and same_place(I, e.args[0], I.rootargs[0]) and e.snap[1] in (
                    I.rootargs[2], mk("deref", I.rootargs[2]))
                nxt = "done" if good else "bad transfer"
            else:
                nxt = "other io: " + e.name
            return ok_err(I, st, (nxt, failed), (nxt, True), fresh(("val", e.name)))

    I = R.analyse(path, result=result, mon0=(("init", False),), esp=True)
    key = short(path)
    n = 0
    for st, v in I.results:
        for stage, failed in st.mon:
            if failed:
                good = is_err(v)
            else:
                good = stage == "done" and is_ok(v)
            n += good and not failed
            R.ob("positioned", "%s:%s:%s" % (key, stage, "fail" if failed else "ok"), good,
                 "%s returns %s in stage %s" % (key, show(v)[:60], stage), R.fn(path).span,
                 "%s returns %s although its device is in stage '%s'%s" % (
                     key, show(v)[:80], stage, " and a device operation failed" if failed else ""))
    R.ob("positioned", key + ":some", n > 0, "%s can succeed" % key, R.fn(path).span)


def from_self(I, t):
    """the place is the device itself or the file inside it"""
    if any(x is I.rootargs[0] for x in subs(t)):
        return True
    return any(x.ret is t and x.args[0] is I.rootargs[0] and x.name.rsplit("::", 1)[-1] in ("get_mut", "get_ref") for x in evs(I))


FLUSH, META = "std::io::Write::flush", "std::fs::File::metadata"


def length_of(R, path, buffered):
    """the length reported is that of the file, taken after every buffered byte has reached it"""
    key = short(path)

    def result(I, st, e, ret):
        if e.name in (FLUSH, META) or e.name in EFFECTS:
            stage = the_mon(st)
            nxt = {FLUSH: "flushed", META: "measured"}.get(e.name, "other") if stage != "failed" else stage
            if e.name == META and (buffered and stage != "flushed" or not from_self(I, e.args[0])):
                nxt = "stale"
            return ok_err(I, st, nxt, "failed", fresh(("val", e.name)))

    I = R.analyse(path, result=result, mon0=("init",), esp=True)
    n = 0
    for st, v in I.results:
        stage = the_mon(st)
        good = is_err(v) if stage == "failed" else stage == "measured" and is_ok(v) and \
            any(x is fresh(("val", META)) for x in allsubs(v))
        n += good and stage == "measured"
        R.ob("length", "%s:%s" % (key, stage), good, "%s: %s" % (key, stage), R.fn(path).span,
             "%s returns %s %s" % (key, show(v)[:60], "before its buffered bytes have reached the file" if stage == "stale" else "in stage " + stage))
    R.ob("length", key + ":some", n > 0, "%s can succeed" % key, R.fn(path).span)


def memory(R, path, write):
    key = short(path) + (":write" if write else ":read")
    I = R.analyse(path)
    dev, off, buf = I.rootargs
    span = R.fn(path).span
    inner = None
    for e in evs(I, kind="panic"):
        R.ob("memory", key + ":no-panic", prove(I, e.facts, e.goal), "%s: %s cannot fail" % (key, e.name), where(e),
             "%s can panic instead of reporting an out-of-range request: %s" % (key, show(e.goal)))
    for st, v in I.results:
        if not is_ok(v):
            continue
        done = [e for e in evs(I, kind="copy") if e.id in st.must]
        good = len(done) == 1 and len(evs(I, kind="copy")) == 1
        if good:
            e = done[0]
            d, s = e.snap[0], e.snap[1]
            m, b = (d, s) if write else (s, d)
            good = b in (buf, mk("deref", buf)) and m.op == "slice" and equal(I, st.facts, m.args[1], off) and \
                equal(I, st.facts, sub(m.args[2], m.args[1]), length(buf)) and roots_at(m.args[0], dev)
        R.ob("memory", key, good, "%s copies exactly the addressed bytes" % key, span,
             "%s reports success without copying exactly buffer-length bytes at the requested offset: %s" % (
                 key, [repr(e) for e in evs(I, kind="copy")]))
    # every in-range request is served
    size = length(mk("deref", dev)) if "Box" not in path else length(field(mk("deref", dev), None, 0))
    for cand in (length(dev), length(mk("deref", dev)), length(field(mk("deref", dev), None, 0))):
        if any(cand in set(subs(f)) for st, v in I.results for f in st.facts):
            size = cand
    st0 = interp.State(mon=frozenset([None]), facts=frozenset([
        le(add(off, length(buf)), size), le(INT(1), length(buf)), le(off, INT(2 ** 62))]))
    I2 = R.analyse(path, args=[dev, off, buf], st=st0, exact=True)
    R.ob("memory-total", key, I2.results and all(is_ok(v) for _, v in I2.results), "%s serves every in-range request" % key,
         span, "%s can refuse an in-range request" % key)


def roots_at(t, dev):
    return any(x is dev for x in subs(t))


def short(path):
    m = re.match(r"<(.*?) as .*>::(\w+)$", path)
    return (simp(m.group(1)) + "." + m.group(2)) if m else path.rsplit("::", 2)[-1]


def simp(s):
    return re.sub(r"(\w+::)+", "", s)


def check(R):
    fo, fi = R.field(OW, "offset"), R.field(OW, "inner")

    def shifted(I, e):
        a = I.rootargs
        return equal(I, e.facts, e.args[1], add(a[1], field(mk("deref", a[0]), None, fo))) and \
            e.snap[2] in (a[2], mk("deref", a[2])) and e.snap[0] is field(mk("deref", a[0]), None, fi)

    forwarding(R, "shifted", "<%sOffsetWrapper<T> as %sBlockDeviceRead>::read" % (BD, BD), READ, shifted,
               "offset + partition start, same buffer")
    forwarding(R, "shifted", "<%sOffsetWrapper<T> as %sBlockDeviceWrite>::write" % (BD, BD), WRITE, shifted,
               "offset + partition start, same buffer")

    # seek: absolute positions are shifted
    path = "<%sOffsetWrapper<T> as std::io::Seek>::seek" % BD
    fn = R.fn(path)
    selfp = mk("sym", "param", "self", ty=fn.locals[1])
    p = mk("sym", "param", "pos", ty=int_ty(R, "u64"))
    outs = []

    def result(I, st, e, ret):
        if e.name in EFFECTS:
            n, failed = the_mon(st)
            return ok_err(I, st, (n + 1, failed), (n + 1, True), fresh("newpos"))

    I = R.analyse(path, args=[selfp, agg("std::io::SeekFrom", 0, (p,))], result=result, mon0=((0, False),), esp=True)
    for e in evs(I, *EFFECTS):
        s = seek_start(e.args[1]) if e.name == SEEK else None
        R.ob("shifted", "seek", s is not None and equal(I, e.facts, s, add(p, field(mk("deref", selfp), None, fo))) and
             e.snap[0] is field(mk("deref", selfp), None, fi),
             "seek goes to position + partition start", where(e), "seeking to an absolute position of an opened image "
             "does not add the partition start: %r" % e)
    for st, v in I.results:
        for n, failed in st.mon:
            R.ob("shifted", "seek:result", n == 1 and (is_err(v) if failed else is_ok(v)), "seek result follows the device",
                 fn.span, "seek returns %s after %d device seeks%s" % (show(v), n, " (failed)" if failed else ""))

    positioned(R, "<R as %sBlockDeviceRead>::read" % BD, READ_EXACT)
    positioned(R, "<std::fs::File as %sBlockDeviceWrite>::write" % BD, WRITE_ALL)
    positioned(R, "<std::io::BufWriter<std::fs::File> as %sBlockDeviceWrite>::write" % BD, WRITE_ALL)

    length_of(R, "<std::fs::File as %sBlockDeviceWrite>::len" % BD, False)
    length_of(R, "<std::io::BufWriter<std::fs::File> as %sBlockDeviceWrite>::len" % BD, True)

    def same(I, e):
        a = I.rootargs
        return e.args[1] is a[1] and e.snap[2] in (a[2], mk("deref", a[2])) and roots_at(e.args[0], a[0])

    forwarding(R, "forwarded", "<std::boxed::Box<(dyn %sBlockDeviceRead<ReadError = E> + 'static)> as %sBlockDeviceRead>::read"
               % (BD, BD), READ, same, "same offset, same buffer")
    forwarding(R, "forwarded", "<std::boxed::Box<(dyn %sBlockDeviceWrite<WriteError = E> + 'static)> as %sBlockDeviceWrite>::write"
               % (BD, BD), WRITE, same, "same offset, same buffer")
    forwarding(R, "forwarded", "<xdvdfs::img::CSOBlockDevice<R> as %sBlockDeviceRead>::read" % BD,
               "ciso::read::CSOReader::<E, R>::read_offset", same, "same offset, same buffer")

    memory(R, "<[u8] as %sBlockDeviceRead>::read" % BD, False)
    memory(R, "<[u8] as %sBlockDeviceWrite>::write" % BD, True)
    memory(R, "<std::boxed::Box<[u8]> as %sBlockDeviceWrite>::write" % BD, True)
