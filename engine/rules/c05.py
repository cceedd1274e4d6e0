"""Path lookup.  (1) one step of the name search, for every outcome of reading an entry, every combination of child
offsets and every comparison result: the next entry read is at table start + 4*(left if smaller, right if greater),
equality returns the entry, a 0/0xffff child and a blank entry end the search as 'does not exist'; (2) the comparison
itself: both names consumed in lockstep, character by character, ASCII upper case on both sides, the shorter one first;
(3) the path walk: components searched one by one in the directory found last, files in the middle refused."""
from rules.dirent import *
from rules.c06 import good_node, DIRBIT

FLOORS = {"root": 1, "step": 2, "end": 8, "equal": 1, "compare": 3, "cmp": 8, "path": 6}
CMP = "xdvdfs::util::cmp_ignore_case_utf8"
UE = "xdvdfs::util::Error"
VOLUME = "xdvdfs::layout::VolumeDescriptor"


def check(R):
    root_entry(R)
    find(R)
    compare(R)
    walk_path(R)


def uerr(R, v):
    """name of the library error variant carried by an Err value"""
    x = payload(v)
    if x.op == "agg" and x.args[0] == UE:
        return R.P.adts[UE]["variants"][x.args[1]]["name"]
    return None


def root_entry(R):
    """the volume's root entry is read at the start of the volume's root table"""
    path = "xdvdfs::read::<impl xdvdfs::layout::VolumeDescriptor>::root_dirent"
    if R.P.fns.get(path) is None:
        return
    I = R.analyse(path, opaque=lambda p: p == DESER)
    reg = flds(R, mk("deref", I.rootargs[0]), (VOLUME, "root_table"), (TABLE, "region"))
    base = scale(flds(R, reg, (REGION, "sector")), 2048)
    for e in evs(I, READ):
        if int_val(length(e.snap[2])) == 14:
            R.ob("root", "volume", equal(I, e.facts, e.args[1], base), "the root entry is read at the root table's start", where(e),
                 "the root entry is read at " + show(e.args[1]))


def find(R):
    path = W + "find_dirent"
    span = R.fn(path).span
    R.fn(CMP)
    entries = {}
    reads = []
    bad = {}

    def note(rule, key, e, msg):
        bad.setdefault((rule, key), (where(e), msg))

    # automaton: (phase, (left kind, right kind, how it was reached) of the entry being looked at, or (ordering, kind of
    # the child to follow))
    def result(I, st, e, ret):
        ph, key = the_mon(st)
        if e.name == READ:
            n = length(e.snap[2])
            if int_val(n) == 14:
                reads.append((e, st.facts, (ph, key)))
                if ph not in ("idle", "cmp"):
                    note("step", "read:" + ph, e, "another entry is read in phase " + ph)
                elif ph == "cmp" and key[0] == "Equal":
                    note("equal", "continues", e, "the search goes on after an equal name")
                return raw_cases(I, st, e, lambda p: (p, key[0] if ph == "cmp" else ph) if p == "raw" else (p, None))
            if key is None or ph != "node":
                note("equal", "name-read", e, "device read of %s bytes in phase %s" % (show(n), ph))
                return None
            if not any(equal(I, st.facts, n, en.namelen) and equal(I, st.facts, e.args[1], add(o, INT(14))) for en, o in entries[key]):
                note("equal", "name-read", e, "the name is read as %s bytes at %s instead of the stored length right after "
                     "the entry" % (show(n), show(e.args[1])))
            return cases(case(I, st, ok(UNIT), ("named", key)), case(I, st, err(at(e, ("io",))), ("failed", None)))
        if e.name == DESER:
            buf = e.snap[1]
            last = [r for r in reads if buf.op == "arr" and any(a.args[1:3] == (r[0].ctx, r[0].bb) for a in allsubs(buf) if a.op == "sym")]
            if ph != "raw" or not last:
                note("equal", "decode", e, "an entry is decoded from %s in phase %s" % (show(buf), ph))
                return None
            out = [case(I, st, err(at(e, ("de",))), ("failed", None))]
            for lk, rk in KINDS:
                en = Entry(R, e, lk, rk)
                entries.setdefault((lk, rk, key), []).append((en, last[-1][0].args[1]))
                out.append(case(I, st, ok(en.node), ("node", (lk, rk, key)), en.facts))
            return cases(*out)
        if e.name == CMP:
            if key is None or ph not in ("node", "named"):
                note("compare", "phase", e, "a comparison in phase " + ph)
                return None
            a, b = e.snap
            rev = None
            for en, o in entries[key]:
                if a is I.rootargs[2] and name_of(I, st.facts, b, en, ph):
                    rev = False
                elif b is I.rootargs[2] and name_of(I, st.facts, a, en, ph):
                    rev = True
            if rev is None:
                note("compare", "operands", e, "the names compared are %s and %s, not the searched name and the name of the entry "
                     "just read" % (show(a), show(b)))
                return None
            R.ob("compare", "operands:" + ph, True, "the searched name is compared with the name just read", where(e))
            out = []
            for k, nm in ((0, "Less"), (1, "Equal"), (2, "Greater")):
                m = nm if not rev else {"Less": "Greater", "Greater": "Less", "Equal": "Equal"}[nm]
                out.append(case(I, st, agg("std::cmp::Ordering", k, ()),
                                ("cmp", (m, {"Less": key[0], "Greater": key[1], "Equal": (ph,) + key}[m]))))
            return cases(*out)

    I = R.analyse(path, result=result, opaque=lambda p: p in (DESER, CMP), mon0=(("idle", None),), esp=True, cap=900)
    slf = mk("deref", I.rootargs[0])
    reg = flds(R, slf, (TABLE, "region"))
    base, size = scale(flds(R, reg, (REGION, "sector")), 2048), flds(R, reg, (REGION, "size"))

    def kids(od):
        return [en.left if od == "Less" else en.right for l in entries.values() for en, _ in l]

    def values(o):
        """the values a merged offset can have"""
        return expand(I, o)

    for e, facts, (ph, key) in reads:
        o = e.args[1]
        if ph == "idle":
            R.ob("root", "start", equal(I, facts, o, base), "the search starts at the table's first entry", where(e),
                 "the search starts at %s instead of the table's first byte" % show(o))
        elif ph == "cmp" and key[0] != "Equal":
            od, kind = key
            side = "left" if od == "Less" else "right"
            good = kind == "x"
            for x in values(o):
                cs = [c for c in kids(od) if c.op == "sym" and c in allsubs(x)]
                good = good and any(equal(I, frozenset(), x, add(base, scale(c, 4))) for c in cs)
            R.ob("step", od + kind, good, "%s goes on at table start + 4 * %s child" % (od, side), where(e),
                 "after '%s' the next entry is read at %s, not at table start + 4 * %s child%s" % (
                     od, ", ".join(show(x) for x in values(o)), side, "" if kind == "x" else ", which is absent"))
    seen = set()
    for st, v in I.results:
        ph, key = the_mon(st)
        od = key[0] if ph == "cmp" else None
        seen.add((ph, od, is_ok(v)))
        if is_ok(v):
            good = ph == "cmp" and od == "Equal"
            R.ob("equal", "found:" + ph + str(od), good, "an entry is returned only after an equal comparison", span,
                 "an entry is returned in phase %s after comparison %s" % (ph, od))
            if good:
                x = payload(v)
                R.ob("equal", "entry", any(good_node(R, I, x, en, o, st.facts, key[1][0]) for en, o in entries[key[1][1:]]),
                     "the entry just read is returned with its name and position", span, "the entry returned is " + show(x))
            continue
        n = uerr(R, v)
        if ph in ("ff", "00"):
            R.ob("end", ph, n == "DoesNotExist", "a blank entry means not found", span, "a blank entry gives " + show(v))
        elif ph == "failed":
            R.ob("end", ph, n in ("IOError", "SerializationFailed"), "a failed read or decode is reported as such", span,
                 "a failed read or decode gives " + show(v))
        elif ph == "idle":
            empty = prove(I, st.facts, le(size, INT(0)))
            if empty and notb(eq(size, INT(0))) in st.facts:
                continue    # contradictory path
            R.ob("end", "empty", empty and n in ("DirectoryEmpty", "DoesNotExist"), "an empty table means not found", span,
                 "the search fails before reading anything: " + show(v))
        elif ph == "cmp":
            if od == "Equal":
                R.ob("equal", "lost", False, "", span, "an equal name gives " + show(v))
            elif key[1] != "x":
                R.ob("end", od + key[1], n == "DoesNotExist", "an absent child means not found", span,
                     "an absent child (%s) gives %s" % (key[1], show(v)))
            else:
                R.ob("step", od + ":outside", n == "SizeOutOfBounds" and any(prove(I, st.facts, le(size, scale(c, 4))) for c in kids(od)),
                     "a present child is refused only outside the table", span,
                     "after '%s' a present child gives %s" % (od, show(v)))
        elif ph in ("node", "named"):
            R.ob("compare", "undecodable:" + ph, n == "StringEncodingError", "a name is skipped only when it cannot be decoded", span,
                 "an entry that was read gives %s without comparing its name" % show(v))
        else:
            R.ob("end", "other:" + ph, False, "", span, "the search ends in phase %s with %s" % (ph, show(v)))
    R.ob("end", "all", {("ff", None, False), ("00", None, False), ("failed", None, False), ("cmp", "Less", False),
                       ("cmp", "Greater", False), ("cmp", "Equal", True), ("idle", None, False)} <= seen, "all outcomes reachable", span,
         "some outcome of the search is never reported: " + str(seen))
    for (rule, key), (w, msg) in bad.items():
        R.ob(rule, key, False, msg, w, msg)


def name_of(I, facts, t, en, ph):
    """t is the decoded name of entry en: the decoder applied to the bytes read (nothing was read for an empty name)"""
    if t.op == "str":
        return False
    s = allsubs(t)
    for x in s:
        if x.op == "hav" and equal(I, facts, length(x), en.namelen):
            return True
        if ph == "node" and x.op == "slice" and int_val(x.args[1]) == 0 and equal(I, facts, x.args[2], en.namelen):
            return True
    return False


UPPER = ("to_ascii_uppercase", "to_ascii_lowercase")


def compare(R):
    """automaton over the characters taken: (taken from a minus taken from b, a at end, b at end)"""
    span = R.fn(CMP).span
    bad = {}
    taken = [{}, {}]

    def side(I, seq):
        if seq.op == "app" and seq.args[0].rsplit("::", 1)[-1] in ("chars", "bytes", "char_indices", "as_bytes") and len(seq.args[1]) == 1:
            for k in (0, 1):
                if seq.args[1][0] is I.rootargs[k]:
                    return k
        for k in (0, 1):
            if seq is I.rootargs[k]:
                return k
        return None

    def monitor(m, e, st, I):
        if e.kind not in ("iter", "iterend"):
            return None
        d, ea, eb = m
        k = side(I, e.snap[0])
        if k is None:
            bad.setdefault("source", (where(e), "characters are taken from %s, not from one of the two names in order" % show(e.snap[0])))
            return None
        if e.kind == "iter":
            d += 1 if k == 0 else -1
            taken[k][mk("elem", e.snap[0], e.snap[1])] = e
            if abs(d) > 1 or (k == 0 and ea) or (k == 1 and eb):
                bad.setdefault("lockstep", (where(e), "the two names are not consumed one character each"))
                d = 0
        elif k == 0:
            ea = True
        else:
            eb = True
        return [(d, ea, eb)]

    I = R.analyse(CMP, monitor=monitor, mon0=((0, False, False),), esp=True)
    seen = set()

    def uppers(t):
        """(side, element) when t is the ASCII upper (or lower) case of a character taken"""
        if t.op == "app" and t.args[0].rsplit("::", 1)[-1] == "to_ascii_uppercase" and len(t.args[1]) == 1:
            x = t.args[1][0]
            for k in (0, 1):
                if x in taken[k] or (x.op == "elem" and side(I, x.args[0]) == k):
                    return k
        return None

    def rel(facts, d):
        """orderings of the current characters compatible with the facts, by the comparison made"""
        out = set()
        for f in facts:
            us = [x for x in allsubs(f) if uppers(x) is not None]
            a = [x for x in us if uppers(x) == 0]
            b = [x for x in us if uppers(x) == 1]
            if len(a) == 1 and len(b) == 1:
                for nm, g in (("Less", lt(a[0], b[0])), ("Greater", lt(b[0], a[0])), ("Equal", eq(a[0], b[0]))):
                    if f is g or prove(I, facts, g):
                        out.add(nm)
        return out

    for st, v in I.results:
        d, ea, eb = the_mon(st)
        if v.op != "agg":
            R.ob("cmp", "value", False, "", span, "the comparison returns " + show(v))
            continue
        nm = ("Less", "Equal", "Greater")[v.args[1]]
        seen.add((nm, ea, eb))
        if ea and eb:
            R.ob("cmp", "both-end", nm == "Equal" and d == 0, "both ended: equal", span, "both names ended and the result is " + nm)
        elif ea:
            R.ob("cmp", "a-end", nm == "Less" and d in (0, -1), "a ended first: less", span, "the first name ended first and the result is " + nm)
        elif eb:
            R.ob("cmp", "b-end", nm == "Greater" and d in (0, 1), "b ended first: greater", span, "the second name ended first and the result is " + nm)
        else:
            r = rel(st.facts, d)
            R.ob("cmp", "differ:" + nm, nm != "Equal" and d == 0 and r == {nm}, "differing characters decide, in upper case", span,
                 "neither name ended and the result is %s without the upper-cased characters being %s (%s)" % (nm, nm, sorted(r)))
    for k, want in (("Equal", (True, True)), ("Less", (True, False)), ("Greater", (False, True)), ("Less", (False, False)),
                    ("Greater", (False, False))):
        R.ob("cmp", "reach:%s%s" % (k, want), (k,) + want in seen or want[0] != want[1] and any(
            x[0] == k and x[1:] == want for x in seen), "outcome %s reachable" % k, span, "the outcome %s (ends: %s) never occurs" % (k, want))
    for key, (w, msg) in bad.items():
        R.ob("cmp", key, False, msg, w, msg)


SEP = 47
TRIM_S = ("trim_start_matches", "trim_matches", "trim_left_matches")
TRIM_E = ("trim_end_matches", "trim_matches", "trim_right_matches")


def split_chain(I, t, path):
    """the slash-only trimming and splitting operations between the path and a component sequence, or None"""
    ops = []
    while t is not path:
        if t.op != "app" or not t.args[1]:
            return None
        nm = t.args[0].rsplit("::", 1)[-1]
        if nm in TRIM_S + TRIM_E + ("split", "split_terminator"):
            if len(t.args[1]) != 2 or int_val(t.args[1][1]) != SEP:
                return None
            ops.append(nm)
        elif nm not in ("as_ref", "as_str", "to_string", "borrow", "from", "into"):
            return None
        t = t.args[1][0]
    return ops


def walk_path(R):
    path = W + "walk_path"
    FIND = W + "find_dirent"
    span = R.fn(path).span
    R.fn(DIRBIT)
    bad = {}
    finds = []

    def note(key, e, msg):
        bad.setdefault(key, (where(e), msg))

    # automaton: (phase, components taken and not searched, components exhausted, is the entry found a directory)
    def result(I, st, e, ret):
        ph, n, end, isdir = the_mon(st)
        if e.name == FIND:
            finds.append((e, st.facts, ph))
            if n < 1:
                note("order", e, "a directory is searched without a new component")
            if ph == "failed" or (ph == "found" and isdir is not True):
                note("dir", e, "a component is searched below an entry that has not been found to be a directory")
            f = at(e, ("found",))
            return cases(case(I, st, ok(f), ("found", max(n - 1, 0), end, None)), case(I, st, err(at(e, ("nf",))), ("failed", 0, end, None)))
        if e.name == DIRBIT and ph == "found" and isdir is None:
            return cases(case(I, st, TRUE, (ph, n, end, True)), case(I, st, FALSE, (ph, n, end, False)))

    def monitor(m, e, st, I):
        ph, n, end, isdir = m
        if e.kind == "iter":
            ops = split_chain(I, e.snap[0], I.rootargs[2])
            if ops is None or not {"split", "split_terminator"} & set(ops):
                note("components", e, "components are taken from %s" % show(e.snap[0]))
            if n >= 2:
                note("skip", e, "a component is skipped")
            return [(ph, min(n + 1, 2), end, isdir)]
        if e.kind == "iterend":
            return [(ph, n, True, isdir)]

    I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: p in (FIND, DIRBIT), mon0=(("start", 0, False, None),),
                  esp=True, cap=600)
    slf = mk("deref", I.rootargs[0])

    def leaves(t):
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi" and x in I.phi_info:
                todo += [v for v, f, b in I.phi_info[x].values()]
            elif x.op == "field" and any(a.op == "phi" and a in I.phi_info for a in subs(x)):
                p = [a for a in subs(x) if a.op == "phi" and a in I.phi_info][0]
                for v, f, b in I.phi_info[p].values():
                    if v is not p:
                        y = subst(x, {p: v})
                        if y.op != "field" or y.args[0].op != "agg":
                            todo.append(y)
            elif x.op == "agg" and x.args[0] in (TABLE, REGION):
                kids = [leaves(c) for c in x.args[2]]
                out |= {agg(x.args[0], x.args[1], (k,)) for k in kids[0]} if len(kids) == 1 else {x}
            else:
                out.add(x)
        return out

    for e, facts, ph in finds:
        # component searched
        ls = leaves(e.snap[2])
        good = bool(ls)
        nonempty = trimmed = True
        for x in ls:
            ops = split_chain(I, x.args[0], I.rootargs[2]) if x.op == "elem" else None
            if ops is None or not {"split", "split_terminator"} & set(ops):
                good = False
                continue
            if not set(TRIM_S) & set(ops):
                trimmed = False
        ne = notb(eq(length(e.snap[2]), INT(0))) in facts or prove(I, facts, le(INT(1), length(e.snap[2])))
        R.ob("path", "component", good, "a '/'-separated component of the path is searched, unchanged", where(e),
             "the name searched is %s, not a component of the path" % ", ".join(map(show, ls)))
        R.ob("path", "leading", trimmed or ne, "leading slashes are ignored", where(e), "leading slashes are not ignored")
        # directory searched
        if ph == "start":
            R.ob("path", "root", e.snap[0] is slf, "the search starts in the given table", where(e), "the first table searched is " + show(e.snap[0]))
        for x in leaves(e.snap[0]):
            t = x
            while t.op == "agg" and t.args[0] in (TABLE,):
                t = t.args[2][0]
            good = t is slf or any(t is flds(R, at(g, ("found",)), (NODE, "node"), (DISKNODE, "dirent"), (DISKDATA, "data")) for g, _, _ in finds)
            R.ob("path", "table:" + x.op, good, "the directory found last is searched", where(e), "the table searched is " + show(x))
    seen = set()
    for st, v in I.results:
        ph, n, end, isdir = the_mon(st)
        seen.add((ph, is_ok(v), isdir))
        if is_ok(v):
            R.ob("path", "last:" + ph, ph == "found" and n == 0 and end, "an entry is returned only for the last component", span,
                 "an entry is returned in phase %s with %s" % (ph, "components left" if n or not end else "none left"))
            R.ob("path", "result", any(payload(v) is at(g, ("found",)) for g, _, _ in finds), "the entry found is returned", span,
                 "the entry returned is " + show(payload(v)))
            continue
        nm = uerr(R, v)
        if ph == "start":
            R.ob("path", "none", nm == "NoDirent", "a path without components has no entry", span, "a path without components gives " + show(v))
            R.ob("path", "none-cond", end or any(f.op == "eq" and any(x.op == "app" and split_chain(I, x, I.rootargs[2])
                 for x in allsubs(f)) for f in st.facts), "only a path without components is refused", span,
                 "a path is refused without looking at its components")
        elif ph == "found":
            R.ob("path", "file", nm == "IsNotDirectory" and isdir is False and (n > 0 or not end), "a component below a file is an error", span,
                 "after an entry was found (directory: %s) the walk gives %s" % (isdir, show(v)))
        else:
            R.ob("path", "failed", ph == "failed" and any(payload(v) is at(g, ("nf",)) for g, _, _ in finds), "a failed search is reported as it is", span,
                 "a failed search gives " + show(v))
    R.ob("path", "all", {("failed", False, None), ("found", False, False), ("found", True, None), ("start", False, None)} <= {
        (a, b, c if not b else None) for a, b, c in seen}, "all outcomes reachable", span, "some outcome never occurs: %s" % seen)
    for key, (w, msg) in bad.items():
        R.ob("path", key, False, msg, w, msg)
