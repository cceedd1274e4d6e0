"""Packing completeness.  Typestate analysis of the four loops a source entry passes through (host listing, tree discovery,
table construction, image writing), each analysed with every fallible call made to fail: between taking one element and
the next, the element must have been recorded where the property demands (worklist, table, device), with terms that are
its own name, size and sector; a loop must run over its whole source; a copy that reports another byte count than
recorded, and any failed call, must end in an error."""
from rules.dirent import vec_closure
from base import *

FLOORS = {"add": 8, "host": 5, "discovery": 6, "tables": 8, "image": 8, "copy": 4}
M = "xdvdfs::write::"
FS = M + "fs::"
DTW = M + "dirtab::DirectoryEntryTableWriter"
READDIR = FS + "FilesystemHierarchy::read_dir"
COPY = FS + "FilesystemCopier::copy_file_in"
PV, FE, DTE, FT = FS + "PathVec", FS + "FileEntry", FS + "DirectoryTreeEntry", FS + "FileType"
ADD_DIR, ADD_FILE, CSIZE, SIZE, REPR = (DTW + "::" + n for n in ("add_dir", "add_file", "compute_size", "dirtab_size", "disk_repr"))


def at(e, *tag):
    return mk("sym", "call", e.ctx, e.bb, ("scn",) + tag)


class Notes:
    def __init__(self, R, rule):
        self.R, self.rule, self.bad = R, rule, {}

    def __call__(self, key, e, msg):
        self.bad.setdefault(key, (where(e) if not isinstance(e, str) else e, msg))

    def flush(self):
        for k, (w, msg) in sorted(self.bad.items()):
            self.R.ob(self.rule, k, False, msg, w, msg)


def child_path(I, t, parent, name):
    """t is the path `parent` extended by the one component `name`"""
    comps = norm(I, field(t, None, 0))
    if comps.op == "arr" and comps.args[0]:
        comps = mk("push", mk("arr", comps.args[0][:-1]), comps.args[0][-1])
    return comps.op == "push" and cong(I, comps.args[1], name) and cong(I, comps.args[0], field(parent, None, 0))


def elem_of(e):
    return mk("elem", e.snap[0], e.snap[1])


def feq(R, I, x, base_, adt, name):
    return cong(I, x, field(base_, None, R.field(adt, name)))


# ---------------------------------------------------------------- tree discovery
def discovery(R):
    path = M + "img::dir_tree"
    span = R.fn(path).span
    note = Notes(R, "discovery")
    FILE = R.variant(FT, "File")
    kinds = R.field(FE, "file_type")
    children = set()

    def result(I, st, e, ret):
        ph, pend = the_mon(st)
        if e.name == READDIR:
            if pend:
                note("unfinished", e, "another directory is listed although the previous listing's %s" % WHY(pend))
            return cases(case(I, st, ok(at(e, "list")), ("listed", frozenset("LO"))), case(I, st, err(at(e, "io")), ("failed", frozenset())))

    def is_list(t):
        return t.op == "sym" and t.args[-1] == ("scn", "list")

    def monitor(m, e, st, I):
        ph, pend = m
        if e.kind in ("iter", "iterend") and any(is_list(a) for a in allsubs(e.snap[0])):
            if not is_list(e.snap[0]):
                note("whole", e, "only a part of the listing is considered: " + show(e.snap[0]))
            if "C" in pend:
                note("descend", e, "a subdirectory of a listing is not queued for listing")
            if e.kind == "iter":
                children.add(elem_of(e))
                return [(ph, pend | {"C"})]
            return [(ph, pend - {"C", "L"})]
        if e.kind == "push":
            v = e.args[1]
            if v.op == "agg" and v.args[0] == DTE:
                return [(ph, pend - {"O"})]
            for c in children:
                if c in allsubs(v) and v is not field(c, None, R.field(FE, "name")):
                    return [(ph, pend - {"C"})]
        return None

    def learned(m, st, I):
        ph, pend = m
        if "C" in pend and any(is_variant(st.facts, field(c, None, kinds), FILE) for c in children):
            return [(ph, pend - {"C"})]

    I = R.analyse(path, result=result, monitor=monitor, learned=learned, mon0=(("listed", frozenset()),), esp=True, cap=600)
    wl = set()
    reads = evs(I, READDIR)
    par = {r.snap[1] for r in reads}
    for e in evs(I, kind="push"):
        v = e.args[1]
        if v.op == "agg" and v.args[0] == DTE:
            R.ob("discovery", "record", is_list(field(v, None, R.field(DTE, "listing"))) and any(
                cong(I, field(v, None, R.field(DTE, "dir")), p) for p in par), "a directory is recorded with its path and listing", where(e),
                "a directory is recorded as %s, not with its own path and whole listing" % show(v))
            continue
        for c in children:
            nm = field(c, None, R.field(FE, "name"))
            if c in allsubs(v) and v is not nm:
                R.ob("discovery", "queue-path", any(child_path(I, v, p, nm) for p in par), "a subdirectory is queued as parent/name", where(e),
                     "a subdirectory is queued as %s, not its parent's path and own name" % show(v))
    for e in reads:
        t = e.snap[1]
        for a in [a for a in allsubs(t) if a.op == "elem"]:
            vals, other, seen = vec_closure(I, a.args[0])
            wl |= seen
            R.ob("discovery", "worklist", not other, "pending directories are only added or taken", where(e),
                 "the pending directories are also modified: " + ", ".join(map(show, other)))
            R.ob("discovery", "root", any(isroot(v) for v in vals), "the root directory is listed", where(e), "the root is never queued")
            for v in vals:
                R.ob("discovery", "item", isroot(v) or any(c in allsubs(v) for c in children), "only subdirectories are queued", where(e),
                     "a pending directory is " + show(v))
    for st, v in I.results:
        ph, pend = the_mon(st)
        if is_ok(v):
            R.ob("discovery", "ok:" + ph, ph == "listed" and not pend, "success with nothing unfinished", span,
                 "discovery succeeds although a listing's " + (WHY(pend) if pend else "phase is " + ph))
            R.ob("discovery", "drained", any(prove(I, st.facts, le(length(w), INT(0))) for w in wl), "success with no directory left to list",
                 span, "discovery can succeed with directories left to list")
            for x, f in alts(I, payload(v), st.facts):
                els, other, _ = vec_closure(I, x)
                R.ob("discovery", "result", not other and els and all(p.op == "agg" and p.args[0] == DTE for p in els), "returns the recorded directories",
                     span, "the returned list is changed after recording: " + ", ".join(map(show, other)))
        else:
            R.ob("discovery", "err:" + ph, ph == "failed", "errors only after a failure", span, "discovery fails although every listing succeeded")
    R.ob("discovery", "entries", True, "every listed directory is queued", span)
    note.flush()


def WHY(p):
    return " and ".join({"O": "directory has not been recorded", "C": "last entry may not have been queued", "L": "entries have not been looked at"}[x]
                        for x in sorted(p))


def isroot(v):
    comps = field(v, None, 0)
    return length(comps) is INT(0)


def is_variant(facts, v, k):
    return mk("isvar", v, k) in facts


# ---------------------------------------------------------------- directory tables
def tables(R):
    path = M + "img::create_dirent_tables"
    span = R.fn(path).span
    note = Notes(R, "tables")
    kinds, FILE, DIR = R.field(FE, "file_type"), R.variant(FT, "File"), R.variant(FT, "Directory")
    LIST, PATH = R.field(DTE, "listing"), R.field(DTE, "dir")
    children, dirs = set(), set()

    # automaton: (phase, open obligations: T table of this directory, L its listing, C the current entry; nothing added yet)
    def result(I, st, e, ret):
        ph, pend, first = the_mon(st)
        if e.name in (ADD_DIR, ADD_FILE):
            if first and not is_default(e.snap[0]):
                note("fresh", e, "a directory's table does not start out empty")
            if "C" not in pend:
                note("extra", e, "an entry is added that was not just taken from the listing")
            return cases(case(I, st, ok(UNIT), (ph, pend - {"C"}, False)), case(I, st, err(at(e, "e")), ("failed", frozenset(), False)))
        if e.name == CSIZE:
            if first and not is_default(e.snap[0]):
                note("fresh", e, "a directory's table does not start out empty")
            return cases(case(I, st, ok(UNIT), (ph, pend, first)), case(I, st, err(at(e, "e")), ("failed", frozenset(), False)))

    def src(I, e):
        if not I.rootargs:
            return None
        return mk("deref", I.rootargs[0])

    def monitor(m, e, st, I):
        ph, pend, first = m
        if e.kind in ("iter", "iterend"):
            s = e.snap[0]
            if s is src(I, e):
                if pend:
                    note("unfinished", e, "the next directory is taken although the previous one's %s" % WHYT(pend))
                if e.kind == "iterend":
                    return [("end", frozenset(), False)]
                dirs.add(elem_of(e))
                return [("dir", frozenset("TL"), True)]
            if any(x is src(I, e) for x in allsubs(s)):
                if s.op != "field" or s.args[2] != LIST:
                    note("whole", e, "the loop runs over %s, not a directory's whole listing" % show(s))
                if "C" in pend:
                    note("entry", e, "an entry of a listing is not added to its directory's table")
                if e.kind == "iterend":
                    return [(ph, pend - {"C", "L"}, first)]
                children.add(elem_of(e))
                return [(ph, pend | {"C"}, first)]
        if e.kind == "mapins":
            if pend - {"T"}:
                note("unfinished", e, "a directory's table is stored although its " + WHYT(pend - {"T"}))
            if "T" not in pend:
                note("extra", e, "a table is stored in phase " + ph)
            return [("idle", pend - {"T"}, False)]

    I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: p in (ADD_DIR, ADD_FILE, CSIZE, SIZE),
                  mon0=(("idle", frozenset(), False),), esp=True, cap=600)

    def child_in(t):
        return [c for c in children if c in allsubs(t)]

    def parents(c):
        """terms for the directory an entry was taken from"""
        return [c.args[0].args[0]] if c.args[0].op == "field" else []

    adds = evs(I, ADD_DIR, ADD_FILE)
    for e in adds:
        cs = child_in(e.snap[1])
        d = e.name == ADD_DIR
        R.ob("tables", "name:" + short(e.name), any(feq(R, I, e.snap[1], c, FE, "name") for c in cs), "the entry's own name is recorded", where(e),
             "an entry is recorded under the name " + show(e.snap[1]))
        R.ob("tables", "kind:" + short(e.name), all(is_variant(e.facts, field(c, None, kinds), DIR if d else FILE) for c in cs),
             "directories are recorded as directories, files as files", where(e), "an entry of the wrong kind is recorded as a " + ("directory" if d else "file"))
        if d:
            sz = [x for x in evs(I, SIZE) if x.ret is e.args[2]]
            good = False
            for x in sz:
                g = x.snap[0]
                key = g.args[0].args[1][1] if g.op == "field" and g.args[0].op == "app" and g.args[0].args[0].endswith("::get") else None
                if key is not None and is_map(I, g.args[0].args[1][0]):
                    good = good or any(child_path(I, key, field(p, None, PATH), field(c, None, R.field(FE, "name")))
                                       for c in cs for p in parents(c))
            R.ob("tables", "size:dir", good, "a subdirectory is recorded with the size of its own table", where(e),
                 "the size recorded for a subdirectory is %s" % show(e.args[2] if not sz else sz[0].snap[0]))
        else:
            good = any(feq(R, I, e.args[2], c, FE, "len") for c in cs) and prove(I, e.facts, le(e.args[2], INT(0xffffffff)))
            R.ob("tables", "size:file", good, "a file is recorded with its size, which fits", where(e), "the size recorded for a file is " + show(e.args[2]))
    for e in evs(I, kind="mapins"):
        R.ob("tables", "key", any(cong(I, e.snap[1], field(d, None, PATH)) for d in dirs), "a table is stored under its directory's path", where(e),
             "a table is stored under " + show(e.snap[1]))
        places = {a.args[0] for a in adds} | {c.args[0] for c in evs(I, CSIZE)}
        vals = {v for p in places for v in [p]}
        R.ob("tables", "value", len(places) == 1 and same_table(I, e, places), "the table stored is the one the entries were added to", where(e),
             "the table stored is %s" % show(e.snap[2]))
    for st, v in I.results:
        ph, pend, first = the_mon(st)
        if is_ok(v):
            R.ob("tables", "ok:" + ph, ph == "end" and not pend, "success only after every directory", span,
                 "success although not every directory has been handled (%s)" % ph)
            R.ob("tables", "result", is_map(I, payload(v)), "all tables are returned", span, "the tables returned are " + show(payload(v)))
        elif ph != "failed":
            big = any(f.op == "le" and children & allsubs(f) for f in st.facts)
            R.ob("tables", "err", "C" in pend and any(prove(I, st.facts, le(INT(0x100000000), field(c, None, R.field(FE, "len")))) for c in children),
                 "an error only for a failure or a file of 4 GiB or more", span, "an error although nothing failed (%s)" % show(v))
    note.flush()


def is_map(I, m):
    """m is built from an empty map by insertions only"""
    seen, todo, n = set(), [m], 0
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_info:
            todo += [v for v, f, b in I.phi_info[x].values()]
        elif x.op == "mapins":
            todo.append(x.args[0])
        elif not (x.op == "app" and x.args[0] == "map.new"):
            return False
    return True


def is_default(t):
    """an empty table writer"""
    return t.op == "agg" and t.args[0] == DTW and any(x.op == "arr" and x.args[0] == () for x in allsubs(t)) and \
        not any(x.op in ("sym", "phi", "hav", "push") for x in allsubs(t))


def same_table(I, e, places):
    """the value stored is what the calls on that place left there"""
    p = next(iter(places))
    v = e.snap[2]
    leaves, seen, todo = set(), set(), [v]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_info:
            todo += [y for y, f, b in I.phi_info[x].values()]
        else:
            leaves.add(x)
    outs = {x.args[1] if False else x for x in leaves}
    writers = {(c.ctx, c.bb) for c in evs(I, ADD_DIR, ADD_FILE, CSIZE)}
    return bool(outs) and all(x.op == "sym" and x.args[0] == "hv" and x.args[1:3] in writers for x in outs)


def short(n):
    return n.rsplit("::", 1)[-1]


def WHYT(p):
    return " and ".join({"T": "table has not been stored", "C": "last entry has not been added", "L": "entries have not been looked at"}[x]
                        for x in sorted(p))


# ---------------------------------------------------------------- image writing
DT, TABLES, ALLOC = M + "img::dir_tree", M + "img::create_dirent_tables", M + "sector::SectorAllocator::allocate_contiguous"
LISTING = M + "dirtab::FileListingEntry"
DISKREPR = M + "dirtab::DirectoryEntryTableDiskRepr"
FINAL = (VOLUME + "::new", VOLUME + "::serialize", TABLE + "::new")


def image(R):
    path = M + "img::create_xdvdfs_image"
    span = R.fn(path).span
    note = Notes(R, "image")
    TAB, LST = R.field(DISKREPR, "entry_table"), R.field(DISKREPR, "file_listing")
    ISDIR = R.field(LISTING, "is_dir")
    children, dirs = set(), set()
    u64 = int_ty(R, "u64")

    def tagged(t, tag):
        return t.op == "sym" and t.args[0] == "call" and t.args[-1] == ("scn", tag)

    def has(t, tag):
        return any(tagged(a, tag) for a in allsubs(t))

    def result(I, st, e, ret):
        ph, pend = the_mon(st)
        fail = ("failed", frozenset())
        n = e.name
        if n == REPR:
            return cases(case(I, st, ok(at(e, "repr")), (ph, (pend | {"W", "L"}) - {"R"} if "R" in pend else pend)), case(I, st, err(at(e, "e")), fail))
        if n == WRITE:
            p = pend - {"W"} if has(e.snap[2], "repr") else pend
            return cases(case(I, st, ok(UNIT), (ph, p)), case(I, st, err(at(e, "e")), fail))
        if n == COPY:
            if "C" not in pend:
                note("extra", e, "a file is copied that was not just taken from the table's listing")
            c = [c for c in children if c in allsubs(e.args[5])] or [c for c in children if c in allsubs(e.args[4])]
            short_ = at(e, "copied")
            out = [case(I, st, err(at(e, "e")), fail)]
            if c:
                out.append(case(I, st, ok(e.args[5]), (ph, pend - {"C"})))
                out.append(case(I, st, ok(short_), ("short", pend - {"C"}), [notb(eq(short_, e.args[5]))]))
            else:
                out.append(case(I, st, ok(short_), (ph, pend)))
            return cases(*out)
        if n == DT:
            return cases(case(I, st, ok(at(e, "dirtree")), (ph, pend)), case(I, st, err(at(e, "e")), fail))
        if n == TABLES:
            return cases(case(I, st, ok(at(e, "tables")), (ph, pend)), case(I, st, err(at(e, "e")), fail))
        if ret.ty is not None and ret.ty.k == "adt" and ret.ty.p == "std::result::Result":
            return cases(case(I, st, ok(at(e, "v", n)), (ph, pend)), case(I, st, err(at(e, "e")), fail))

    def monitor(m, e, st, I):
        ph, pend = m
        if ph == "short" and e.kind in ("iter", "iterend", "mapins") or ph == "short" and e.name in (WRITE, COPY):
            note("short", e, "image creation goes on although a file yielded fewer or more bytes than recorded")
        if e.kind in ("iter", "iterend"):
            s = e.snap[0]
            if has(s, "tables"):
                if pend:
                    note("unfinished", e, "the next directory table is taken although the previous one's " + WHYI(pend))
                if not (tagged(s, "tables") or s.op == "app" and s.args[0] == "map.iter" and tagged(s.args[1][0], "tables")):
                    note("whole", e, "the loop runs over %s, not all directory tables" % show(s))
                if e.kind == "iterend":
                    return [("end" if ph == "open" else ph, frozenset())]
                dirs.add(elem_of(e))
                return [(ph, frozenset("R"))]
            if has(s, "repr"):
                if not (s.op == "field" and tagged(s.args[0], "repr") and s.args[2] == LST):
                    note("whole", e, "the loop runs over %s, not the table's whole file listing" % show(s))
                if "C" in pend:
                    note("entry", e, "an entry of a directory table is neither copied nor given a sector")
                if e.kind == "iterend":
                    return [(ph, pend - {"C", "L"})]
                children.add(elem_of(e))
                return [(ph, pend | {"C"})]
        if e.kind == "mapins" and "C" in pend and any(c in allsubs(e.snap[1]) for c in children):
            return [(ph, pend - {"C"})]

    I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: p in (DT, TABLES, ALLOC, REPR, SIZE) + FINAL,
                  mon0=(("open", frozenset()),), esp=True, cap=600)
    dev = I.rootargs[1]
    for e in evs(I, TABLES):
        R.ob("image", "tables-of", has(e.snap[0], "dirtree"), "tables are made for the discovered tree", where(e), "tables are made for " + show(e.snap[0]))
    for e in evs(I, REPR):
        R.ob("image", "repr", any(cong(I, e.snap[0], field(d, None, 1)) for d in dirs), "each directory's own table is serialised", where(e),
             "the table serialised is " + show(e.snap[0]))
    for e in evs(I, WRITE):
        if not has(e.snap[2], "repr"):
            continue
        b = strip_box(e.snap[2])
        b = b.args[0] if b.op == "field" and b.args[2] == 0 and b.args[0].op == "field" else b
        b = b.args[0] if b.op == "field" and b.args[2] == 0 and b.args[0].op == "field" else b
        R.ob("image", "table-bytes", b.op == "field" and tagged(b.args[0], "repr") and b.args[2] == TAB, "the whole table is written", where(e),
             "the table bytes written are " + show(e.snap[2]))
        g = [x for x in allsubs(e.args[1]) if x.op == "app" and x.args[0].endswith("::get")]
        good = len(g) == 1 and sector_map(R, I, g[0].args[1][0], children) and \
            any(cong(I, g[0].args[1][1], field(d, None, 0)) for d in dirs) and norm_off(e.args[1], field(g[0], 1, 0))
        R.ob("image", "table-at", good, "a table is written at its recorded sector", where(e), "a directory table is written at " + show(e.args[1]))
    for e in evs(I, COPY):
        cs = [c for c in children if c in allsubs(e.args[5])] or [None]
        c = cs[-1] if cs[-1] is not None else None
        good = False
        for c in cs:
            if c is None:
                continue
            good = good or any(child_path(I, e.snap[1], p, field(c, None, R.field(LISTING, "name"))) for d in dirs for p in dpath(d)) and \
                isint_const(e.args[3], 0) and e.args[4] is scale(field(c, None, R.field(LISTING, "sector")), 2048) and \
                e.args[5] is field(c, None, R.field(LISTING, "size")) and same_place(I, e.args[2], dev)
        R.ob("image", "copy", good, "a file is copied from the start, in full, to its sector", where(e),
             "a file is copied as (path %s, from %s, to %s, size %s)" % tuple(show(x) for x in (e.snap[1], e.args[3], e.args[4], e.args[5])))
        R.ob("image", "copy-kind", any(notb(field(c, None, ISDIR)) in e.facts for c in cs if c is not None), "only files are copied", where(e),
             "directories are copied as files")
    n = 0
    for e in evs(I, kind="mapins"):
        cs = [c for c in children if c in allsubs(e.snap[1])]
        if not cs:
            roots = [x for x in evs(I, ALLOC) if x.ret is e.snap[2] or x.ret in allsubs(e.snap[2])]
            R.ob("image", "root-sector", bool(roots) and any(x.op == "app" and x.args[0].endswith("first_key_value") and has(x, "tables") for x in allsubs(e.snap[1])),
                 "the root table gets the allocated sector", where(e), "sector %s is recorded for %s" % (show(e.snap[2]), show(e.snap[1])))
            continue
        n += 1
        good = any(child_path(I, e.snap[1], p, field(c, None, R.field(LISTING, "name"))) and
                   e.snap[2] is field(c, None, R.field(LISTING, "sector")) for c in cs for d in dirs for p in dpath(d))
        R.ob("image", "dir-sector", good, "a subdirectory's sector is the one its entry records", where(e),
             "sector %s is recorded for %s" % (show(e.snap[2]), show(e.snap[1])))
        R.ob("image", "dir-kind", any(field(c, None, ISDIR) in e.facts for c in cs), "only subdirectories are set aside", where(e),
             "a file's contents are not copied")
    R.ob("image", "dirs", n > 0, "subdirectories are given their sector", span)
    for st, v in I.results:
        ph, pend = the_mon(st)
        if is_ok(v):
            R.ob("image", "ok:" + ph, ph == "end" and not pend, "success only after every table and file", span,
                 "image creation succeeds %s" % {"short": "although a file yielded another number of bytes than recorded",
                                                 "failed": "although a call failed"}.get(ph, "before every table and file has been written"))
        else:
            R.ob("image", "err:" + ph, ph in ("failed", "short"), "errors only after a failure or a size mismatch", span,
                 "image creation fails although nothing failed")
    note.flush()


def dpath(d):
    return field(d, None, 0), mk("deref", field(d, None, 0))


def norm_off(t, sector):
    """t is 2048 * sector (the sector behind a reference)"""
    return any(t is scale(x, 2048) or t.op == "app" and t.args[0].endswith("mul") and t.args[1][0] is x and int_val(t.args[1][1]) == 2048
               for x in (sector, mk("deref", sector)))


def sector_map(R, I, m, children):
    seen, todo = set(), [m]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_info:
            todo += [v for v, f, b in I.phi_info[x].values()]
        elif x.op == "mapins":
            todo.append(x.args[0])
        elif x.op == "app" and x.args[0] == "map.del":
            todo.append(x.args[1][0])
        elif not (x.op == "app" and x.args[0] == "map.new"):
            return False
    return True


def WHYI(p):
    return " and ".join({"R": "table has not been serialised", "W": "table has not been written", "L": "file listing has not been processed",
                         "C": "last entry has not been processed"}[x] for x in sorted(p))


# ---------------------------------------------------------------- the host directory
STDFS = M + "fs::stdfs::StdFilesystem"
HOSTDIR, NEXT = "std::fs::read_dir", "std::iter::Iterator::next"
MD = ("std::fs::DirEntry::metadata", "std::fs::metadata", "std::path::Path::metadata", "std::fs::symlink_metadata")


def host(R):
    path = "<%s as %sFilesystemHierarchy>::read_dir" % (STDFS, FS)
    span = R.fn(path).span
    note = Notes(R, "host")
    FILE, DIR = R.variant(FT, "File"), R.variant(FT, "Directory")
    items, stage = set(), set()

    def tagged(t):
        return t.op == "sym" and t.args[-1] == ("scn", "dir")

    def result(I, st, e, ret):
        ph, pend = the_mon(st)
        if e.name == HOSTDIR:
            R.ob("host", "which", any(x is field(mk("deref", I.rootargs[0]), None, 0) for x in allsubs(e.snap[0])), "the host directory below the root is listed", where(e))
            return cases(case(I, st, ok(at(e, "dir")), (ph, pend)), case(I, st, err(at(e, "e")), ("failed", frozenset())))
        if e.name == NEXT and any(t is not None and "ReadDir" in t.s for t in e.argtys or ()):
            if pend:
                note("entry", e, "an entry of the host directory is not listed")
            x = at(e, "de")
            items.add(x)
            return cases(case(I, st, NONE, ("listed", frozenset())), case(I, st, some(ok(x)), (ph, frozenset("E"))),
                         case(I, st, some(err(at(e, "e"))), ("failed", frozenset())))

    def monitor(m, e, st, I):
        ph, pend = m
        if e.kind in ("iter", "iterend"):
            s = e.snap[0]
            subs_ = allsubs(s)
            if I.rootargs[1] in subs_ or mk("deref", I.rootargs[1]) in subs_:
                return None
            first = any(tagged(x) for x in subs_)
            if pend:
                note("entry", e, "an entry of the host directory is not listed")
            if first and not (s.op == "field" and s.args[0].op == "app" and s.args[0].args[0].endswith("collect") and
                              tagged(strip(s.args[0].args[1][0]))):
                note("whole", e, "the loop runs over %s, not the whole host directory" % show(s))
            if e.kind == "iterend":
                return [("listed" if first else ph, frozenset())]
            (items if first else stage).add(elem_of(e))
            return [(ph, frozenset("E"))]
        if e.kind == "push" and pend and (is_err(e.args[1]) or (items | stage) & reach(I, e.args[1])):
            return [(ph, frozenset())]

    I = R.analyse(path, result=result, monitor=monitor, mon0=(("start", frozenset()),), esp=True, cap=600)

    def strip_ok(v):
        return payload(v) if is_ok(v) else v

    def item(t):
        return [x for x in items if x in allsubs(t)]

    n = 0
    for e in evs(I, kind="push"):
        v = e.args[1]
        if is_err(v):
            continue
        x = strip_ok(v)
        st_ = [c for c in stage if x is field(c, 0, 0) or x is c]
        if st_:
            continue
        if x.op != "agg" or x.args[0] != FE:
            if (items | stage) & allsubs(v):
                R.ob("host", "item", False, "", where(e), "an entry of the host directory is listed as " + show(v))
            continue
        n += 1
        nm, kind, ln = (field(x, None, R.field(FE, f)) for f in ("name", "file_type", "len"))
        it = item(nm)
        R.ob("host", "name", len(it) >= 1 and plain_name(nm, it), "the entry's own file name is listed", where(e), "an entry is listed under the name " + show(nm))
        mds = [c for c in evs(I, *MD) if any(y is c.ret or c.ret in allsubs(y) for y in allsubs(ln))]
        R.ob("host", "len", ln.op in ("app",) and ln.args[0].endswith("Metadata::len") and bool(mds) and all(any(i in allsubs(c.snap[0]) for i in it) for c in mds),
             "the entry's own size is listed", where(e), "an entry is listed with the size " + show(ln))
        for k, fs in alts(I, kind, e.facts):
            isd = [f for f in fs if f.op == "app" and f.args[0].endswith("::is_dir")]
            isf = [f for f in fs if f.op == "app" and f.args[0].endswith("::is_file")]
            good = k.op == "agg" and (k.args[1] == DIR and bool(isd) or k.args[1] == FILE and (bool(isf) or any(
                f.op == "not" and f.args[0].op == "app" and f.args[0].args[0].endswith("::is_dir") for f in fs)) and not isd)
            R.ob("host", "kind:" + show(k), good, "directories are listed as directories, files as files", where(e),
                 "an entry is listed as %s without being one" % show(k))
    R.ob("host", "some", n > 0, "entries are listed", span)
    for st, v in I.results:
        ph, pend = the_mon(st)
        if is_ok(v):
            R.ob("host", "ok:" + ph, ph == "listed" and not pend, "success only after the whole directory", span,
                 "listing a host directory succeeds %s" % ("after a failure" if ph == "failed" else "without having looked at every entry"))
            els, other, _ = vec_closure(I, payload(v))
            R.ob("host", "result", not other and all(strip_ok(p).op == "agg" and strip_ok(p).args[0] == FE or any(p is field(c, 0, 0) for c in stage) for p in els),
                 "the listed entries are returned", span, "the returned listing is changed: " + ", ".join(map(show, other)))
    note.flush()


def reach(I, t):
    """all sub-terms of the values t can have"""
    out, todo = set(), [t]
    while todo:
        for a in allsubs(todo.pop()):
            if a not in out:
                out.add(a)
                if a.op == "phi" and a in I.phi_info:
                    todo += [v for v, f, b in I.phi_info[a].values()]
    return out


def strip(t):
    while t.op == "field" and t.args[0].op in ("sym",):
        t = t.args[0]
    return t


def plain_name(t, items):
    """t is the last component of an item's path, as text, unchanged"""
    seen = False
    while t not in items:
        if t.op in ("field", "deref"):
            t = t.args[0]
        elif t.op == "app" and len(t.args[1]) == 1 and t.args[0].rsplit("::", 1)[-1] in (
                "to_str", "file_name", "path", "to_string", "into_string", "to_owned", "as_os_str", "to_os_string"):
            seen = seen or t.args[0].endswith("file_name")
            t = t.args[1][0]
        else:
            return False
    return seen


SEEK_, OPEN, TAKE, IOCOPY = SEEK, "std::fs::File::open", "std::io::Read::take", "std::io::copy"


def copy(R):
    path = "<%s as %sFilesystemCopier<T>>::copy_file_in" % (STDFS, FS)
    span = R.fn(path).span

    # positions established so far: O output, F source opened, I input
    def result(I, st, e, ret):
        ok_, pos = the_mon(st)
        fail = ("failed", pos)
        slf, src, dest, inoff, outoff, size = I.rootargs
        if e.name == OPEN:
            R.ob("copy", "source", any(x is field(mk("deref", slf), None, 0) for x in allsubs(e.snap[0])), "the source is opened below the root", where(e))
            return cases(case(I, st, ok(at(e, "file")), (ok_, pos | {"F"})), case(I, st, err(at(e, "e")), fail))
        if e.name == SEEK:
            to = seek_start(e.args[1])
            if same_place(I, e.args[0], dest):
                p = "O" if to is outoff else "o"
            else:
                p = "I" if to is inoff and "F" in pos else "i"
            return cases(case(I, st, ok(at(e, "pos")), (ok_, (pos - {p.lower(), p.upper()}) | {p})), case(I, st, err(at(e, "e")), fail))
        if e.name == IOCOPY:
            good = same_place(I, e.args[1], dest) and {"O", "F", "I"} <= pos
            R.ob("copy", "positions", good, "bytes are copied from the input to the output offset", where(e),
                 "bytes are copied without both sides positioned (%s)" % "".join(sorted(pos)))
            lim = [t for t in evs(I, TAKE)]
            R.ob("copy", "limit", any(t.args[1] is size for t in lim), "no more than the requested size is copied", where(e),
                 "the copy is not limited to the requested size")
            return cases(case(I, st, ok(at(e, "n")), ("copied", pos)), case(I, st, err(at(e, "e")), fail))

    I = R.analyse(path, result=result, mon0=(("start", frozenset()),), esp=True)
    for st, v in I.results:
        ph, pos = the_mon(st)
        if is_ok(v):
            n = payload(v)
            R.ob("copy", "ok:" + ph, ph == "copied" and n.op == "sym" and n.args[-1] == ("scn", "n"), "the byte count reported is that of the copy", span,
                 "copying a host file reports %s bytes (%s)" % (show(n), ph))
        else:
            R.ob("copy", "err:" + ph, ph == "failed", "errors only after a failure", span, "copying fails although nothing failed")
    R.ob("copy", "some", any(is_ok(v) for _, v in I.results), "copying can succeed", span)


def check(R):
    host(R)
    discovery(R)
    tables(R)
    image(R)
    copy(R)
    # each entry keeps its name, size and kind in the table
    from rules import c12
    c12.adding(R)
