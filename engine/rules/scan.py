"""The sequential directory scan.  scan_dirent_tree and next_entry are interpreted with the device opaque; a successful
sector read is tied to the position it was read from.  By induction over calls and over the skip loop the iterator always
holds the bytes of its own sector; each entry returned is decoded from the cursor's bytes, the cursor moves to the next
4-aligned position of the same sector or to the start of the next one (only when no entry fits any more, or after a blank),
and the end is reported only past the last sector."""
from rules.dirent import *
from rules.c13 import Notes

SCAN = W + "scan_dirent_tree"
NEXT = "xdvdfs::read::DirentScanIter::<'_, BDR>::next_entry"
ITER = "xdvdfs::read::DirentScanIter"
RULE = "scan"
COUNT = 14


def scan(R):
    reads, roles = {}, {}

    def result(I, st, e, ret):
        if e.name == READ:
            tag = at(e, ("sector",))
            reads[tag] = e
            s = case(I, st, ok(UNIT), "start")
            I.set(s[0], e.args[2], mk("hav", e.snap[2], tag))
            return cases(s, case(I, st, err(at(e, ("io",))), "failed"))

    def read_at(b):
        """position a buffer value was read from"""
        # an iterator's own buffer is as long as the one it started with
        if b.op == "hav" and b.args[1] in reads and (int_val(length(b)) == 2048 or b.args[0].op == "field" and b.args[0].args[2] == roles.get("buf")):
            return reads[b.args[1]].args[1]

    # ---- the initial state, which also tells the roles of the iterator's fields
    span = R.fn(SCAN).span
    I = R.analyse(SCAN, result=result, opaque=lambda p: p == READ, mon0=("none",), esp=True, cap=600)
    slf = mk("deref", I.rootargs[0])
    reg = flds(R, slf, (TABLE, "region"))
    sec, size = flds(R, reg, (REGION, "sector")), flds(R, reg, (REGION, "size"))
    role = None
    its = []
    for st, v in I.results:
        m = the_mon(st)
        if is_err(v):
            R.ob(RULE, "start:err:" + m, m == "failed" or entail.inconsistent(st.facts | {le(INT(1), size)}),
                 "starting fails only when the device does", span, "starting a scan fails although nothing failed")
            continue
        R.ob(RULE, "start:ok:" + m, m != "failed", "a failed first read is reported", span,
             "a scan starts although reading its first sector failed")
        for x, f in alts(I, payload(v), st.facts):
            its.append((x, f))
            if x.op == "agg":
                for i, y in enumerate(x.args[2]):
                    if read_at(y) is not None:
                        role = (i, x, f)
    if role is None:
        R.ob(RULE, "start:buffer", False, "", span, "the scan does not start with the first sector read")
        return
    b, x, f = role
    roles["buf"] = b
    for i, y in enumerate(x.args[2]):
        if i == b or y.op in ("ref", "sym") and y is not sec and i not in roles.values() and not int_like(y):
            continue
        if y is sec:
            roles["sec"] = i
        elif int_val(y) == 0:
            roles["off"] = i
        else:
            roles["end"] = i
    if set(roles) != {"buf", "sec", "off", "end"}:
        R.ob(RULE, "start:fields", False, "", span, "the scan does not start at the table's sector, offset 0: " + show(x))
        return
    for x, f in its:
        g = {k: field(x, None, i) for k, i in roles.items()}
        if prove(I, f, le(size, INT(0))):
            R.ob(RULE, "start:empty", prove(I, f, le(g["end"], g["sec"])), "an empty directory starts at its end", span,
                 "scanning an empty directory starts with something to read: " + show(x))
            continue
        p = read_at(g["buf"])
        R.ob(RULE, "start:read", p is not None and equal(I, f, p, scale(g["sec"], 2048)) and g["sec"] is sec,
             "the first sector is read from the table's start", span, "the scan starts with bytes read at " + (show(p) if p is not None else show(g["buf"])))
        # end = sector + ceil(size/2048)
        n = sub(g["end"], sec)
        good = prove(I, f, le(size, scale(n, 2048))) and prove(I, f, le(add(scale(n, 2048), INT(-2047)), size))
        R.ob(RULE, "start:end", good, "the scan covers exactly the sectors of the table", span,
             "the scan ends at sector %s, not after the table's last sector" % show(g["end"]))

    # ---- one step
    span = R.fn(NEXT).span
    notes = Notes(R, RULE)
    seen = {}

    def learned(m, st, I):
        if m != "start":
            return None
        ff = zz = None
        for g in st.facts:
            neg = g.op == "not"
            h = g.args[0] if neg else g
            if h.op != "eqv":
                continue
            for p, q in (h.args, h.args[::-1]):
                if p.op == "fill" and q.op == "slice" and int_val(p.args[1]) == 14:
                    if int_val(p.args[0]) == 255:
                        ff = not neg
                    elif int_val(p.args[0]) == 0:
                        zz = not neg
        if ff or zz:
            return ["blank"]
        if ff is False and zz is False:
            return ["entry"]
        return None

    def monitor(m, e, st, I):
        if e.kind == "call" and e.name == READ:
            facts = [st.facts]
            me = I.read(st, ("D", I.rootargs[0]), ())
            if m == "start":
                notes("read", e, "a sector is read before the current entry has been looked at")
            if m == "failed":
                notes("continue", e, "the scan goes on after a failed read")

    J = R.analyse(NEXT, result=result, opaque=lambda p: p == READ, learned=learned, monitor=monitor, mon0=("start",), esp=True, cap=600)
    me0 = mk("deref", J.rootargs[0])

    def parts(x):
        return {k: field(x, None, i) for k, i in roles.items()}

    g0 = parts(me0)

    def bases(v):
        """(loop or initial) iterator values v is read from"""
        return {t.args[0] for t in allsubs(v) if t.op == "field" and t.args[2] == roles["buf"] and (t.args[0] is me0 or t.args[0].op == "phi")}

    def moved(base, new, facts, w, tag, fits=None):
        """new is base one sector further, or base itself"""
        o, n = parts(base), parts(new)
        R.ob(RULE, tag + ":end", n["end"] is o["end"], "the end does not move", w, "the scan's end changes to " + show(n["end"]))
        if n["sec"] is o["sec"]:
            R.ob(RULE, tag + ":same", n["buf"] is o["buf"], "same sector, same bytes", w,
                 "the sector's bytes are replaced by %s while the scan stays in the sector" % show(n["buf"]))
            return False
        p = read_at(n["buf"])
        step = equal(J, facts, n["sec"], add(o["sec"], INT(1)))
        R.ob(RULE, tag + ":next", step and int_val(n["off"]) == 0, "the scan moves to the start of the next sector", w,
             "the scan moves to sector %s offset %s" % (show(n["sec"]), show(n["off"])))
        good = p is not None and equal(J, facts, p, scale(n["sec"], 2048)) or p is None and prove(J, facts, le(n["end"], n["sec"]))
        R.ob(RULE, tag + ":bytes", good, "the next sector's bytes are the ones at its position", w,
             "in sector %s the scan looks at bytes %s" % (show(n["sec"]), "read at " + show(p) if p is not None else "of another sector"))
        return True

    loops = set()

    def induct(base, w):
        if base is me0 or base in loops:
            return
        loops.add(base)
        for v, f, back in J.phi_info.get(base, {}).values():
            for x, h in alts(J, v, f):
                if x is me0 or x is base:
                    continue
                bs = bases(x)
                if len(bs) != 1:
                    R.ob(RULE, "loop:base", False, "", w, "the iterator becomes %s while skipping" % show(x))
                    continue
                b = bs.pop()
                R.ob(RULE, "loop:moved", moved(b, x, h, w, "loop"), "skipping a blank moves to the next sector", w,
                     "the scan loops without moving to the next sector")
                induct(b, w)

    def entry_of(v):
        for t in allsubs(v):
            if t.op == "slice" and t.args[0].op == "field" and t.args[0].args[2] == roles["buf"]:
                yield t

    for st, v in J.results:
        m = the_mon(st)
        me = J.read(st, ("D", J.rootargs[0]), ())
        if is_err(v):
            if m == "failed":
                R.ob(RULE, "err:failed", True, "a failed read is reported", span)
                continue
            # a name that does not fit in the sector, or an undecodable entry
            good = any(g.op == "isvar" and g.args[1] == 1 for g in st.facts) or any(
                prove(J, st.facts, le(INT(2049), add(add(t.args[1], INT(14)), namelen(R, v)))) for t in entry_of(v) if namelen(R, v) is not None)
            R.ob(RULE, "err:" + m, m == "entry" and good, "an error only for an undecodable or truncated entry", span,
                 "the scan fails although nothing failed: " + show(v))
            continue
        R.ob(RULE, "ok:" + m, m != "failed", "no success after a failed read", span, "the scan succeeds although a read failed")
        for x, f in alts(J, mk("arr", (payload(v), me)), st.facts):
            opt, me1 = x.args[0]
            if opt.op == "agg" and opt.args[1] == 0 or opt.op != "agg":
                R.ob(RULE, "none:" + m, m in ("start", "blank"), "the end is not reported for an entry", span,
                     "the scan reports the end although the current entry is not blank")
                bs = bases(me1) or {me1}
                bb = bs.pop()
                g = parts(bb)
                if bb is not me0:
                    induct(bb, span)
                last = g["sec"] if m == "start" else add(g["sec"], INT(1))
                good = prove(J, f, le(g["end"], last))
                R.ob(RULE, "none:end:" + m, good, "the end is reported only after the last sector", span,
                     "the scan reports the end in a sector that is not the table's last one")
                R.ob(RULE, "none:state:" + m, me1 is bb or moved(bb, me1, f, span, "none"), "the end is final", span,
                     "after reporting the end the iterator is " + show(me1))
                continue
            node = opt.args[2][0]
            R.ob(RULE, "some:" + m, m in ("entry", "start"), "an entry is returned only for bytes that are not blank", span,
                 "a blank entry is returned")
            bs = bases(node)
            if len(bs) != 1 or node.op != "agg" or node.args[0] != NODE:
                R.ob(RULE, "some:base", False, "", span, "the entry returned is " + show(node)[:300])
                continue
            base = bs.pop()
            induct(base, span)
            g = parts(base)
            fl = {n: node.args[2][R.field(NODE, n)] for n in ("node", "name", "offset")}
            raw = slice_(g["buf"], g["off"], add(g["off"], INT(14)))
            dec = [t for t in allsubs(fl["node"]) if t.op == "app" and t.args[0] == DESER]
            good = len(dec) == 1 and dec[0].args[1][1] is raw and fl["node"] is field(dec[0], 0, 0)
            R.ob(RULE, "some:node", good, "the entry is decoded from the 14 bytes at the cursor", span,
                 "the entry returned is decoded from " + (show(dec[0].args[1][1]) if dec else show(fl["node"])))
            R.ob(RULE, "some:offset", equal(J, f, fl["offset"], add(scale(g["sec"], 2048), g["off"])), "it records its own position", span,
                 "the entry returned records the position " + show(fl["offset"]))
            nl = flds(R, fl["node"], (DISKNODE, "dirent"), (DISKDATA, "filename_length"))
            a = add(g["off"], INT(14))
            nm = fl["name"]
            good = nm.op == "supd" and int_val(nm.args[1]) == 0 and nm.args[3] is slice_(g["buf"], a, add(a, nl))
            R.ob(RULE, "some:name", good, "its name is the stored bytes after it", span, "the name returned is " + show(nm))
            R.ob(RULE, "some:within", prove(J, f, le(add(a, nl), INT(2048))), "entries lie within one sector", span,
                 "an entry's name can reach beyond its sector")
            after = add(a, nl)
            if moved(base, me1, f, span, "some"):
                R.ob(RULE, "some:full", prove(J, f, le(INT(2033), after)), "the sector is left only when no entry fits any more", span,
                     "the scan moves to the next sector although another entry could follow in this one")
            else:
                n = parts(me1)["off"]
                good = prove(J, f, le(after, n)) and prove(J, f, le(n, add(after, INT(3)))) and int_val(rem(n, INT(4))) == 0
                R.ob(RULE, "some:cursor", good, "the cursor moves to the next 4-aligned position", span,
                     "after an entry ending at %s the cursor is at %s" % (show(after)[:120], show(n)[:200]))
                R.ob(RULE, "some:room", prove(J, f, le(add(n, INT(15)), INT(2048))), "another entry fits at the cursor", span,
                     "the cursor can be left where no entry fits")
    notes.flush()
    kinds = {(is_ok(v), the_mon(st)) for st, v in J.results}
    R.ob(RULE, "covered", {(True, "entry"), (True, "blank"), (False, "failed")} <= kinds, "entries, blanks and failures are told apart", span,
         "the scan does not tell entries, blanks and failures apart (%s)" % kinds)


def int_like(y):
    return y.ty is not None and getattr(y.ty, "k", None) == "int" or y.op in ("lin", "div", "int", "field")


def namelen(R, v):
    for t in allsubs(v):
        if t.op == "app" and t.args[0] == DESER:
            return flds(R, field(t, 0, 0), (DISKNODE, "dirent"), (DISKDATA, "filename_length"))
