"""Directory listing.  Typestate analysis of the tree walk with every outcome of reading an entry injected (device
failure, 0xff/0x00 blank, undecodable, each combination of left/right child absent as 0, absent as 0xffff, present):
between two entry reads every present child must have been put on the worklist and the entry itself recorded; the
worklist only ever holds table start and 4*child offsets, success needs an empty worklist, and any failure must be
returned.  The recursive listing is held to the corresponding per-child obligations, the sequential scan to those in rules/scan.py."""
from rules.dirent import *
from rules.scan import scan, COUNT

FLOORS = {"first": 1, "child": 2, "record": 1, "drained": 2, "failure": 3, "tree": 4, "scan": COUNT}


def check(R):
    walk(R)
    tree(R)
    scan(R)


def walk(R):
    path = W + "walk_dirent_tree"
    span = R.fn(path).span
    bad = {}
    entries = {}
    reads = []

    def note(rule, key, e, msg):
        bad.setdefault((rule, key), (where(e), msg))

    def result(I, st, e, ret):
        m = the_mon(st)
        ph, pend = m[0], m[1]
        if e.name == READ:
            n = length(e.snap[2])
            if int_val(n) == 14:
                reads.append((e, st.facts, m))
                if pend:
                    note("pending", "/".join(sorted(pend)), e, "another entry is read although the previous entry's %s has "
                         "not been taken care of" % " and ".join(WHAT[p] for p in sorted(pend)))
                if ph == "failed":
                    note("failure", "continues", e, "the walk goes on after a failed read or decode")
                return raw_cases(I, st, e, lambda p: (p, frozenset(), None))
            key = m[2]
            if key is None or ph != "node":
                note("record", "name-read", e, "device read of %s bytes in phase %s" % (show(n), ph))
                return None
            en, o = entries[key]
            if not (equal(I, st.facts, n, en.namelen) and equal(I, st.facts, e.args[1], add(o, INT(14)))):
                note("record", "name-read", e, "the name is read as %s bytes at %s instead of the stored length right after "
                     "the entry" % (show(n), show(e.args[1])))
            return cases(case(I, st, ok(UNIT), ("named", pend, key)), case(I, st, err(at(e, ("io",))), ("failed", frozenset(), None)))
        if e.name == DESER:
            out = [case(I, st, err(at(e, ("de",))), ("failed", frozenset(), None))]
            buf = e.snap[1]
            last = [r for r in reads if buf.op == "arr" and any(a.args[1:3] == (r[0].ctx, r[0].bb) for a in allsubs(buf) if a.op == "sym")]
            if ph != "raw" or not last:
                note("record", "decode", e, "an entry is decoded from %s in phase %s" % (show(buf), ph))
                return None
            for lk, rk in KINDS:
                en = Entry(R, e, lk, rk)
                key = (e.ctx, e.bb, lk, rk)
                entries[key] = (en, last[-1][0].args[1])
                p = {"E"} | ({"L"} if lk == "x" else set()) | ({"R"} if rk == "x" else set())
                out.append(case(I, st, ok(en.node), ("node", frozenset(p), key), en.facts))
            return cases(*out)

    def monitor(m, e, st, I):
        ph, pend, key = m
        if e.kind == "push" and key is not None:
            en, o = entries[key]
            v = e.args[1]
            syms = set(allsubs(v))
            if en.data in syms:
                good = good_node(R, I, v, en, o, st.facts, ph)
                if not good:
                    note("record", "entry", e, "the entry recorded is not the one just read with its own name and position: "
                         + show(v))
                p = pend - {"E"}
                return [(ph, p, key) if p else DONE]
            p = pend
            if en.left.op == "sym" and en.left in syms:
                p = p - {"L"}
            if en.right.op == "sym" and en.right in syms:
                p = p - {"R"}
            return [(ph, p, key) if p else DONE]

    I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: p == DESER,
                  mon0=(("idle", frozenset(), None),), esp=True, cap=600)
    slf = mk("deref", I.rootargs[0])
    reg = flds(R, slf, (TABLE, "region"))
    base, size = scale(flds(R, reg, (REGION, "sector")), 2048), flds(R, reg, (REGION, "size"))

    # the worklist: the vector(s) whose elements determine the position of an entry read
    wl = set()
    for e, facts, m in reads:
        els = [a for a in allsubs(e.args[1]) if a.op == "elem"]
        if not els and m[0] == "idle":
            R.ob("first", "root", equal(I, facts, e.args[1], base), "the walk starts at the first entry", where(e),
                 "the walk starts at %s instead of the first byte of the table" % show(e.args[1]))
            continue
        if not els:
            note("child", "worklist", e, "the position of an entry read is %s, not taken from the pending children" % show(e.args[1]))
        for a in els:
            pushes, other, seen = vec_closure(I, a.args[0])
            wl |= seen
            if other:
                note("child", "worklist", e, "the pending children are also modified as " + show(other[0]))
            at_push = {}
            for p in evs(I, kind="push"):
                at_push.setdefault(p.args[1], []).append(p.facts)
            for v in {y for v in pushes for f in at_push.get(v, [frozenset()]) for y in expand(I, v, f)}:
                o = subst(e.args[1], {a: v})
                who = [(k, en) for k, (en, _) in entries.items() if {en.left, en.right} & set(allsubs(v))]
                good = bool(who)
                for k, en in who:
                    for side, c in (("left", en.left), ("right", en.right)):
                        if c.op == "sym" and c in set(allsubs(v)):
                            good = good and equal(I, frozenset(en.facts), o, add(base, scale(c, 4)))
                R.ob("child", "/".join(sorted({"left" if c is en.left else "right" for _, en in who for c in (en.left, en.right)
                                                 if c.op == "sym" and c in set(allsubs(v))})), good, "a child is visited at table start + 4*offset", where(e),
                     "a pending position leads to a read at %s, which is not four times a stored child offset from the "
                     "table start" % show(o))
    for (lk, rk) in KINDS:
        R.ob("pending", lk + rk, True, "children (%s,%s) and the entry are taken care of" % (lk, rk), span)
    seen = set()
    for st, v in I.results:
        ph, pend, key = the_mon(st)
        seen.add((ph, is_ok(v)))
        if is_ok(v):
            R.ob("failure", "ok-after-" + ph, ph != "failed", "Ok not returned after a failure (%s)" % ph, span,
                 "the listing succeeds although a read or decode failed")
            R.ob("pending", "end:" + "/".join(sorted(pend)), not pend, "nothing pending at the end", span,
                 "the listing succeeds although the last entry's %s has not been taken care of" % (
                     " and ".join(WHAT[p] for p in sorted(pend))))
            if ph == "idle":
                R.ob("drained", ph, prove(I, st.facts, le(size, INT(0))), "nothing is listed without reading only for an empty table", span,
                     "a directory with entries can be listed without reading any")
                continue
            drained = prove(I, st.facts, le(size, INT(0))) or any(
                le(length(w), INT(0)) in st.facts or eq(length(w), INT(0)) in st.facts for w in wl)
            R.ob("drained", ph, drained, "success only with no pending child or an empty table", span,
                 "the listing can succeed with pending children left (after %s)" % ph)
            for x, f in alts(I, payload(v), st.facts):
                pushes, other, _ = vec_closure(I, x)
                R.ob("record", "result:" + ph, not other, "the result holds the recorded entries", span,
                     "the returned list is changed after recording: " + ", ".join(map(show, other)))
                if ph == "done":
                    R.ob("record", "returned", any(en.data in set(allsubs(p)) for en, _ in entries.values() for p in pushes),
                         "the entry read is in the returned list", span, "an entry that was read is not in the returned list")
        else:
            if ph != "failed":
                # only a child position outside the table may fail without a device or decode failure
                good = any(prove(I, st.facts, le(size, a)) for a in st_elems(st, wl) | {INT(0)})
                R.ob("failure", "spurious:" + ph, good, "an error without a failure only for a position outside the table", span,
                     "the listing fails although nothing failed (%s): %s" % (ph, show(v)))
            else:
                R.ob("failure", "reported", True, "failure is reported", span)
    R.ob("failure", "all", {("failed", False)} <= seen, "failures reach the caller", span,
         "no failure outcome reaches the caller")
    R.ob("drained", "blank", any(ok_ and ph in ("ff", "00") for ph, ok_ in seen), "blank entries end the walk normally", span,
         "a blank first entry does not end the walk normally")
    for (rule, key), (w, msg) in bad.items():
        R.ob(rule, key, False, msg, w, msg)


DONE = ("done", frozenset(), None)
WHAT = {"L": "left child", "R": "right child", "E": "own record"}


def st_elems(st, wl):
    out = set()
    for f in st.facts:
        for a in allsubs(f):
            if a.op == "elem" and a.args[0] in wl:
                out.add(a)
    return out


def good_node(R, I, v, en, o, facts, ph):
    """v is the in-memory entry: the decoded node, the name bytes read into it, the position it was read from"""
    if v.op != "agg" or v.args[0] != NODE:
        return False
    f = {n: v.args[2][R.field(NODE, n)] for n in ("node", "name", "offset")}
    if f["node"] is not en.node or not equal(I, facts, f["offset"], o):
        return False
    if ph != "named":
        return prove(I, facts, le(en.namelen, INT(0)))
    nm = f["name"]
    return nm.op == "supd" and int_val(nm.args[1]) == 0 and nm.args[3].op == "hav" and \
        equal(I, facts, length(nm.args[3]), en.namelen)


DIRBIT = "xdvdfs::layout::DirentAttributes::directory"


def tree(R):
    """recursive listing: every subdirectory of every child is descended, every child recorded with its parent's path"""
    path = W + "file_tree"
    span = R.fn(path).span
    WALK = W + "walk_dirent_tree"
    bad = {}
    R.fn(DIRBIT)
    walks = []

    def note(key, e, msg):
        bad.setdefault(key, (where(e), msg))

    # automaton: (phase, open obligations of the current child, is the current child a directory)
    def result(I, st, e, ret):
        ph, pend, isdir = the_mon(st)
        if e.name == WALK:
            walks.append(e)
            if pend:
                note("pending", e, "the next directory is listed although a child's %s is missing" % miss(pend))
            return cases(case(I, st, ok(at(e, ("list",))), ("listed", frozenset(), None)),
                         case(I, st, err(at(e, ("io",))), ("failed", frozenset(), None)))
        if e.name == DIRBIT and ph == "child":
            if isdir is not None:
                return cases(case(I, st, BOOL(isdir), (ph, pend, isdir)))
            return cases(case(I, st, TRUE, (ph, frozenset(pend | {"D"} - {"?"}), True)),
                         case(I, st, FALSE, step(ph, pend - {"?"}, False)))

    def step(ph, pend, isdir):
        pend = frozenset(pend - {"?"} if isdir is not None else pend)
        return (ph, pend, isdir) if pend else ("listed", frozenset(), None)

    children = set()

    def monitor(m, e, st, I):
        ph, pend, isdir = m
        if e.kind == "iter" and e.name == "iter.next" and any(a.op == "sym" and a.args[-1] == ("scn", "list") for a in allsubs(e.snap[0])):
            if pend:
                note("pending", e, "the next child is taken although the previous child's %s is missing" % miss(pend))
            if e.snap[0].op != "sym":
                note("all-children", e, "only part of the directory's children is considered: " + show(e.snap[0]))
            children.add(mk("elem", e.snap[0], e.snap[1]))
            return [("child", frozenset("E?"), None)]
        if e.kind == "push":
            v = e.args[1]
            c = child_of(v)
            if c is None:
                return None
            if v.op == "agg" and len(v.args[2]) == 2 and v.args[2][1] is c:
                return [step(ph, pend - {"E"}, isdir)]
            if isdir is False:
                note("descend", e, "something that is not a directory is descended")
            return [step(ph, pend - {"D"}, isdir)]
        return None

    def child_of(v):
        s = allsubs(v)
        for c in children:
            if c in s:
                return c

    I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: p in (WALK, DIRBIT),
                  mon0=(("start", frozenset(), None),), esp=True, cap=600)
    slf = mk("deref", I.rootargs[0])
    wl = set()
    pars = []
    for e in walks:
        t = e.snap[0]
        els = [a for a in allsubs(t) if a.op == "elem"]
        if e.mon and all(m[0] == "start" for m in e.mon):
            R.ob("tree", "root", t is slf, "the listing starts at the given table", where(e), "the first directory listed is " + show(t))
        for a in els:
            if t is not field(a, None, 1):
                R.ob("tree", "worklist", False, "", where(e), "the directory listed is %s, not a pending one" % show(t))
            pushes, other, seen = vec_closure(I, a.args[0])
            wl |= seen
            R.ob("tree", "worklist", not other, "pending directories only ever added or taken", where(e),
                 "the pending directories are also modified: " + ", ".join(map(show, other)))
            for p in pushes:
                R.ob("tree", "pending-item", p.op == "agg" and len(p.args[2]) == 2 and (child_of(p) is not None or p.args[2][1] is slf),
                     "pending directories are the root and subdirectories", where(e), "a pending directory is " + show(p))
    for e in evs(I, kind="push"):
        v = e.args[1]
        c = child_of(v)
        if c is None or v.op != "agg" or len(v.args[2]) != 2:
            continue
        if v.args[2][1] is c:
            R.ob("tree", "record-parent", listed_path(I, v.args[2][0], walks), "children are recorded under the listed directory's path",
                 where(e), "a child is recorded under %s, which is not the path of the directory being listed" % show(v.args[2][0]))
        else:
            R.ob("tree", "descend-path", child_path(R, I, v.args[2][0], c, walks), "descends as parent/name", where(e),
                 "a subdirectory is descended under the path %s, not its parent's path, '/', and its own name" % show(v.args[2][0]))
            tab = v.args[2][1]
            R.ob("tree", "descend-table", tab.op == "agg" and tab.args[0] == TABLE and
                 tab.args[2][0] is flds(R, c, (NODE, "node"), (DISKNODE, "dirent"), (DISKDATA, "data")),
                 "the subdirectory's own region is descended", where(e), "a subdirectory is descended at " + show(tab))
    for st, v in I.results:
        ph, pend, isdir = the_mon(st)
        if is_ok(v):
            R.ob("tree", "ok:" + ph, ph == "listed" and not pend, "success only after complete listings", span,
                 "the recursive listing succeeds in phase %s with %s missing" % (ph, miss(pend)))
            drained = any(prove(I, st.facts, le(length(w), INT(0))) for w in wl)
            R.ob("tree", "drained", drained, "success only with no pending directory", span,
                 "the recursive listing can succeed with directories left to list")
            for x, f in alts(I, payload(v), st.facts):
                els, other, _ = vec_closure(I, x)
                R.ob("tree", "result", not other and all(child_of(p) is not None for p in els), "the result holds the recorded children", span,
                     "the returned list is changed after recording: " + ", ".join(map(show, other)))
        else:
            R.ob("tree", "err:" + ph, ph in ("failed", "child"), "errors only after a failure", span,
                 "the recursive listing fails although nothing failed (%s): %s" % (ph, show(v)))
    for key, (w, msg) in bad.items():
        R.ob("tree", key, False, msg, w, msg)


def miss(p):
    return " and ".join({"E": "record", "D": "descent into it", "?": "directory test"}[x] for x in sorted(p)) or "nothing"


def listed_path(I, p, walks):
    """p is the path that was pending together with the directory being listed ("" for the table given)"""
    want = {field(e.snap[0].args[0], None, 0) for e in walks if e.snap[0].op == "field"}
    leaves = set()
    seen = set()
    todo = [p]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_info and x not in want:
            todo += [v for v, f, b in I.phi_info[x].values()]
        else:
            leaves.add(x)
    rest = leaves - want
    return bool(leaves & want) and all(str_val(x) == "" for x in rest)


def child_path(R, I, p, c, walks):
    parts = fmt_parts(p)
    if parts is None or len(parts) != 3 or parts[1] != "/":
        return False
    if isinstance(parts[0], str) or not listed_path(I, parts[0], walks):
        return False
    return decoded_name(R, parts[2], c)


def decoded_name(R, t, c):
    """t is the decoding of the first filename_length bytes of entry c's name"""
    if isinstance(t, str):
        return False
    s = allsubs(t)
    name = field(c, None, R.field(NODE, "name"))
    n = flds(R, c, (NODE, "node"), (DISKNODE, "dirent"), (DISKDATA, "filename_length"))
    return slice_(name, INT(0), n) in s
