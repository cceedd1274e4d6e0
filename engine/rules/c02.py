"""Volume recognition.  Typestate analysis of the volume-header reader and of the partition probe: every outcome
of a header read (device error, undecodable bytes, each byte of either magic wrong, valid) is injected as a case of
the abstract state; the header must be the 2048 bytes at byte 65536, a valid one must be accepted and returned
unchanged, anything else refused, and the probe must try exactly the raw/XGD1/XGD2/XGD3 starts in that order, keep
the first that validates and fail only after all four."""
from base import *

FLOORS = {"header-read": 1, "accept": 1, "reject": 40, "probe-order": 4, "probe-accept": 4, "probe-fail": 1}
OFFSETS = [0, 405798912, 265879552, 34078720]
RV = "xdvdfs::read::read_volume"
NEW = "xdvdfs::blockdev::OffsetWrapper::<T>::new"


def volume(R, m0, m1, tag):
    fs = []
    for f in R.P.adts[VOLUME]["variants"][0]["fields"]:
        fs.append({"magic0": m0, "magic1": m1}.get(f["name"]) or fresh((tag, f["name"]), f["ty"]))
    R.field(VOLUME, "magic0"), R.field(VOLUME, "magic1")
    return agg(VOLUME, 0, fs)


def scenarios(R, tag, full):
    """[(name, volume term or None, facts)]"""
    u8 = int_ty(R, "u8")
    good = mk("arr", tuple(INT(b) for b in MAGIC))
    out = [("valid", volume(R, good, good, tag), ())]
    for which in (0, 1):
        for i in (range(20) if full else (0, 13, 19)):
            arr = []
            facts = []
            for j in range(20):
                if j == i:
                    x = fresh((tag, which, "m", i, j), u8)
                    facts = [notb(eq(x, INT(MAGIC[j])))]
                    arr.append(x)
                else:
                    arr.append(INT(MAGIC[j]))
            a = mk("arr", tuple(arr))
            v = volume(R, a, good, tag) if which == 0 else volume(R, good, a, tag)
            out.append(("magic%d[%d]" % (which, i), v, facts))
    return out


def check(R):
    # ---- the header reader
    def result(I, st, e, ret):
        if e.name == READ:
            return cases(case(I, st, ok(UNIT), "read"), case(I, st, err(fresh("ioerr")), "readfail"))
        if e.name == DESER:
            cs = [case(I, st, err(fresh("de")), "undecodable")]
            for n, v, facts in scenarios(R, "v", True):
                cs.append(case(I, st, ok(v), n, facts))
            return cases(*cs)

    I = R.analyse(RV, opaque=lambda p: p == DESER, result=result, mon0=("start",), esp=True, cap=400)
    rd = evs(I, READ)
    de = evs(I, DESER)
    for e in rd:
        R.ob("header-read", "where", isint_const(e.args[1], 65536) and isint_const(length(e.snap[2]), 2048),
             "header read of %s bytes at %s" % (show(length(e.snap[2])), show(e.args[1])), where(e),
             "the volume header is not read as the 2048 bytes of sector 32: %s bytes at byte %s" % (
                 show(length(e.snap[2])), show(e.args[1])))
    for e in de:
        buf = e.snap[1]
        R.ob("header-read", "decoded", e.mon == {"read"} and buf.op == "hav" and any(buf.args[0] is r.snap[2] for r in rd),
             "the bytes decoded are the ones read", where(e), "the volume header is decoded from %s (automaton %s), not "
             "from the bytes just read" % (show(buf), sorted(map(str, e.mon))))
    seen = set()
    good = [v for n, v, f in scenarios(R, "v", True) if n == "valid"][0]
    for st, v in I.results:
        for m in st.mon:
            seen.add(m)
            if m == "valid":
                R.ob("accept", "valid", is_ok(v) and payload(v) is good, "valid header accepted unchanged",
                     R.fn(RV).span, "a header with both magics correct is not returned unchanged: " + show(v))
            else:
                R.ob("reject", m, is_err(v), "%s refused" % m, R.fn(RV).span,
                     "a volume whose header is bad (%s) is accepted" % m)
    want = {"valid", "readfail", "undecodable"} | {n for n, _, _ in scenarios(R, "v", True)}
    R.ob("accept", "complete", want <= seen, "every header outcome reaches a return", R.fn(RV).span,
         "some header outcomes never return: %s" % sorted(want - seen))

    # ---- the partition probe (same outcomes, at each attempt)
    def presult(I, st, e, ret):
        n, _ = the_mon(st)
        if e.name == READ:
            n += 1
            return cases(case(I, st, ok(UNIT), (n, "read")), case(I, st, err(fresh("ioerr")), (n, "readfail")))
        if e.name == DESER:
            cs = [case(I, st, err(fresh("de")), (n, "undecodable"))]
            for nm, v, facts in scenarios(R, "v", False):
                cs.append(case(I, st, ok(v), (n, nm), facts))
            return cases(*cs)

    I = R.analyse(NEW, opaque=lambda p: p == DESER, result=presult, mon0=((0, "start"),), esp=True, cap=400)
    tried = {}
    bad = set()
    for e in evs(I, READ):
        for n, s in e.mon:
            if s == "valid":
                bad.add(("again", where(e)))
            tried.setdefault(n, []).append(e)
            want = OFFSETS[n] + 65536 if n < len(OFFSETS) else None
            R.ob("probe-order", "attempt%d" % n, isint_const(e.args[1], want), "attempt %d reads at byte %s" % (
                n + 1, show(e.args[1])), where(e), "probe attempt %d reads the header at byte %s, expected %s" % (
                n + 1, show(e.args[1]), want))
    for k, w in bad:
        R.ob("probe-order", k, False, "", w, "the probe goes on after a valid volume was found")
    OW = "xdvdfs::blockdev::OffsetWrapper"
    fo, fi = R.field(OW, "offset"), R.field(OW, "inner")
    for st, v in I.results:
        for n, s in st.mon:
            if s == "valid":
                good = is_ok(v) and isint_const(field(payload(v), None, fo), OFFSETS[n - 1])
                R.ob("probe-accept", "attempt%d" % n, good, "volume at start %d accepted with that start" % OFFSETS[n - 1],
                     R.fn(NEW).span, "a valid volume found at start %d is returned as %s" % (OFFSETS[n - 1], show(v)))
            else:
                R.ob("probe-fail", "attempt%d:%s" % (n, s), is_err(v) and n == len(OFFSETS),
                     "failure after %d attempts" % n, R.fn(NEW).span,
                     "the probe ends after %d of 4 attempts (last: %s) with %s" % (n, s, show(v)))
    R.ob("probe-order", "all", sorted(tried) == [0, 1, 2, 3], "four attempts", R.fn(NEW).span,
         "the probe makes attempts %s, not four" % sorted(tried))
