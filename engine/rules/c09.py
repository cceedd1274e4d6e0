"""Completeness of unpacking.  Typestate analysis of the unpack and copy-out commands with everything below them inlined and
every outcome of listing, creating, opening, seeking, reading and copying enumerated: between taking one listed entry and
the next, the entry's directory has been created, or its file has been opened (created, truncated) and either has no bytes
or has received all of them; a copy of fewer bytes than the entry's size must end in an error, and success is reported only
after the whole listing.  The values that meet (path, table, extent, source and destination of each copy) are compared
as terms: each must be the current entry's own."""
from base import *
from rules.c08 import API, FILE_TREE, WALK_PATH, NAME_STR, READ_ALL, SEEK_TO, READ_VOL, OPEN_RAW, ROOTS, U, joined, trimmed_dir, image_part
from rules.c13 import Notes, at

FLOORS = {"listing": 4, "entry": 6, "content": 8, "done": 2}
OPEN, CLONE, COPY, TAKE, CREATE_DIR = "std::fs::OpenOptions::open", "std::fs::File::try_clone", "std::io::copy", "std::io::Read::take", "std::fs::create_dir"
CREATE_DIR_ALL = CREATE_DIR + "_all"
CREATE = "std::fs::File::create"
TOUCH = (READ_ALL, FILE_TREE, WALK_PATH, READ_VOL, READ, SEEK, READ_EXACT)
OPEN_ENTRY = {"todo": "has been neither created nor written", "file": "has been created but its contents were not written",
              "short": "received fewer bytes than its size"}


def check(R):
    for n in API:
        R.fn(n)
    DD = "xdvdfs::layout::DirectoryEntryDiskData"
    dirent = lambda nd: flds(R, nd, (NODE, "node"), (DISKNODE, "dirent"))
    size = lambda nd: flds(R, dirent(nd), (DD, "data"), (REGION, "size"))
    namelen = lambda nd: flds(R, dirent(nd), (DD, "filename_length"))
    for root in ROOTS:
        analyse(R, root, dirent, size, namelen)


def is_list(t):
    return t.op == "sym" and t.args[-1] == ("scn", "list")


def analyse(R, root, dirent, size, namelen):
    tag = root.rsplit("::", 1)[-1]
    note = Notes(R, "entry")
    nodes, names = set(), {}
    takes = {}

    def zero(st, I, t):
        return any(t in allsubs(f) for f in st.facts) and prove(I, st.facts, le(t, INT(0)))

    def result(I, st, e, ret):
        m = ph, pos, back = the_mon(st)
        n = e.name
        fail = case(I, st, err(at(e, "e")), ("failed", False, back))
        if n == FILE_TREE:
            return cases(case(I, st, ok(at(e, "list")), ("list" if ph in ("start", "todo") else "again", False, "list")), fail)
        if n == WALK_PATH:
            x = at(e, "found")
            nodes.add(x)
            return cases(case(I, st, ok(x), ("todo", False, "end")), fail)
        if n == NAME_STR:
            names[at(e, "name")] = e.snap[0]
            return cases(case(I, st, ok(at(e, "name")), m), fail)
        if n in (OPEN, CREATE):
            return cases(case(I, st, ok(at(e, "file")), ("file" if ph == "todo" else ph, pos, back)), fail)
        if n in (CREATE_DIR, CREATE_DIR_ALL):
            j = joined(e.snap[0])
            own = ph == "todo" and j is not None and j[1] in names
            return cases(case(I, st, ok(UNIT), (back, False, back) if own else m), fail)
        if n == CLONE:
            return cases(case(I, st, ok(at(e, "handle")), m), case(I, st, err(at(e, "e")), m))
        if n == TAKE:
            takes[at(e, "take")] = e.snap
            return cases(case(I, st, at(e, "take"), m))
        if n == SEEK_TO:
            return cases(case(I, st, ok(at(e, "pos")), (ph, True, back)), fail)
        if n == READ_ALL:
            return cases(case(I, st, ok(at(e, "data")), (ph, False, back)), fail)
        if n == COPY:
            if not pos:
                note("unpositioned", e, "file contents are copied from wherever the image was last read")
            full = (back, False, back) if ph == "file" else (ph, False, back)
            k, sz = at(e, "n"), taken(I, e.snap[0])
            if sz is None:
                return cases(case(I, st, ok(k), full), fail)
            return cases(case(I, st, ok(sz[1]), full), case(I, st, ok(k), ("short", False, back), [lt(k, sz[1]), le(INT(0), k)]), fail)
        if n == WRITE_ALL:
            return cases(case(I, st, ok(UNIT), (back, False, back) if ph == "file" else m), fail)
        if n in TOUCH:
            return cases(case(I, st, ret, (ph, False, back)))

    def monitor(m, e, st, I):
        ph, pos, back = m
        if e.kind in ("iter", "iterend") and any(is_list(a) for a in allsubs(e.snap[0])):
            if ph in OPEN_ENTRY:
                note("pass", e, "the loop goes on although the entry " + OPEN_ENTRY[ph])
            if e.kind == "iterend":
                return [("end", False, "end")]
            nodes.add(field(mk("elem", e.snap[0], e.snap[1]), None, 1))
            return [("todo", False, "list")]
        return None

    def learned(m, st, I):
        ph, pos, back = m
        if ph in ("todo", "file"):
            for nd in nodes:
                if ph == "file" and zero(st, I, size(nd)) or ph == "todo" and back == "list" and zero(st, I, namelen(nd)):
                    return [(back, False, back)]

    def taken(I, t):
        """the Take a reader goes through"""
        for _ in range(4):
            if t in takes:
                return takes[t]
            e = next((e for e in evs(I, *BUFREADER) if e.ret is t), None)
            if e is None:
                return None
            t = e.snap[-1]

    I = R.analyse(root, opaque=lambda p: p in API, result=result, monitor=monitor, learned=learned, mon0=(("start", False, "end"),), esp=True, cap=600)
    note.flush()
    for st, v in I.results:
        for x, f in alts(I, v, st.facts):
            if not is_err(x):
                ph = the_mon(st)[0]
                R.ob("done", tag, ph == "end", "success only after every entry", R.fn(root).span, "%s can succeed although %s" % (
                    tag, {"start": "nothing was listed", "list": "the listing was not worked through", "failed": "a step failed",
                          "again": "a listing was started twice"}.get(ph, "an entry " + OPEN_ENTRY.get(ph, ph))))
    # ------------------------------------------------------------ terms
    vols = {field(e.ret, 0, 0) for e in evs(I, READ_VOL)}
    roots = {flds(R, v, (VOLUME, "root_table")) for v in vols}
    for e in evs(I, READ_VOL, FILE_TREE, WALK_PATH):
        pass
    for e in evs(I, WALK_PATH):
        R.ob("listing", tag + ":lookup", any(cong(I, e.snap[0], r) for r in roots), "the path is looked up from the root", where(e),
             "the path is looked up in %s, not the root table" % show(e.snap[0]))
        R.ob("listing", tag + ":lookup-path", not image_part(e.snap[2]), "the requested path is looked up", where(e), "%s is looked up, not the requested path" % show(e.snap[2]))
    for e in evs(I, FILE_TREE):
        t = e.snap[0]
        found = [nd for nd in nodes if nd.op == "sym" and nd in allsubs(t)]
        good = any(cong(I, t, r) for r in roots) or any(
            cong(I, t, agg(TABLE, 0, [flds(R, dirent(nd), ("xdvdfs::layout::DirectoryEntryDiskData", "data"))])) for nd in found)
        R.ob("listing", tag + ":table", good, "the table of the root or of the requested directory is listed", where(e),
             "%s is listed, neither the root table nor the requested directory's" % show(t))
        if found:
            R.ob("listing", tag + ":dir", is_dir(R, e.facts, dirent(found[0])) is True, "only a directory is listed", where(e), "something that may be a file is listed")

    iters = {e.id: field(mk("elem", e.snap[0], e.snap[1]), None, 1) for e in evs(I, kind="iter") if is_list(e.snap[0])}

    def the_loop(e):
        return any(m[2] == "list" for m in e.mon)

    def which(e):
        """the entry being handled at an event"""
        c = {iters[i] for i in e.must if i in iters} if the_loop(e) else {nd for nd in nodes if nd.op == "sym"}
        return c.pop() if len(c) == 1 else None

    opens = {}
    for e in evs(I, OPEN, CREATE, CREATE_DIR, CREATE_DIR_ALL):
        path = e.snap[1] if e.name == OPEN else e.snap[0]
        nd = which(e)
        if nd is None:
            R.ob("entry", tag + ":stray", False, "", where(e), "%s runs outside the handling of an entry" % e.name)
            continue
        isdir = is_dir(R, e.facts, dirent(nd))
        if the_loop(e):
            j = joined(path)
            full = j is not None and j[1] in names
            if full:
                R.ob("entry", tag + ":name:" + e.name, names[j[1]] is nd or cong(I, names[j[1]], nd), "the entry's own name is used", where(e), "another entry's name is used")
            dirpath = j[0] if full else path
            jj = joined(dirpath)
            el = nd.args[0]
            R.ob("entry", tag + ":path:" + e.name, jj is not None and trimmed_dir(jj[1], {el.args[0]}) and el in allsubs(jj[1]) and not image_part(jj[0]) and
                 dest_of(I, jj[0]), "the path is destination/listed directory/name", where(e), "%s acts at %s, not at destination/listed directory/name" % (e.name, show(path)))
        else:
            full = True
            R.ob("entry", tag + ":path:" + e.name, not image_part(path) and dest_of(I, path), "the requested destination is written", where(e), "%s acts at %s, not the requested destination" % (e.name, show(path)))
        if e.name in (OPEN, CREATE):
            R.ob("entry", tag + ":kind", isdir is False, "only a file is written as a file", where(e), "an entry that may be a directory is written as a file")
            o = e.snap[0]
            R.ob("entry", tag + ":truncate", e.name == CREATE or all(option(o, k) for k in ("write", "create", "truncate")) and not option(o, "append"),
                 "the file is created and emptied", where(e), "an existing file keeps old contents, or a missing one is not created: " + show(o))
            opens[at(e, "file")] = nd
        elif full:
            R.ob("entry", tag + ":kind-dir", isdir is True, "only a directory is created as a directory", where(e), "an entry that may be a file is created as a directory")

    seeks = evs(I, SEEK_TO)
    for e in seeks:
        nd = which(e)
        R.ob("content", tag + ":seek", nd is not None and cong(I, e.snap[0], dirent(nd)), "the image is positioned at the entry's own extent", where(e),
             "the image is positioned at %s, not the current entry" % show(e.snap[0]))
    for e in evs(I, READ_ALL):
        nd = which(e)
        R.ob("content", tag + ":read", nd is not None and cong(I, e.snap[0], dirent(nd)), "the entry's own bytes are read", where(e), "%s is read, not the current entry" % show(e.snap[0]))
    for e in evs(I, COPY):
        nd = which(e)
        tk = taken(I, e.snap[0])
        R.ob("content", tag + ":size", tk is not None and nd is not None and cong(I, tk[1], size(nd)), "exactly the entry's size is copied", where(e),
             "the copy is limited to %s, not the entry's size" % (show(tk[1]) if tk else "nothing"))
        R.ob("content", tag + ":source", tk is not None and source(I, tk[0]), "the copy reads the image file", where(e), "the copy reads %s" % (show(tk[0]) if tk else show(e.snap[0])))
        R.ob("content", tag + ":target", opens.get(e.snap[1]) is nd is not None, "the copy goes to the entry's own file", where(e), "the copy goes to " + show(e.snap[1]))
    for e in evs(I, WRITE_ALL):
        nd = which(e)
        rd = next((x for x in evs(I, READ_ALL) if at(x, "data") in allsubs(e.snap[1])), None)
        R.ob("content", tag + ":data", rd is not None and e.snap[1] in (at(rd, "data"), field(at(rd, "data"), None, 0), field(field(at(rd, "data"), None, 0), None, 0)),
             "all bytes read are written", where(e), "%s is written, not the entry's bytes" % show(e.snap[1]))
        R.ob("content", tag + ":data-target", opens.get(e.snap[0]) is nd is not None, "the bytes go to the entry's own file", where(e), "the bytes go to " + show(e.snap[0]))


BUFREADER = ("std::io::BufReader::<R>::new", "std::io::BufReader::<R>::with_capacity")


def option(o, k):
    return any(x.op == "app" and x.args[0] == "oo." + k and x.args[1][1] is TRUE for x in allsubs(o))


def dest_of(I, t):
    """a path given by the command line"""
    return all(any(a.op == "sym" and a.args[0] == "param" for a in allsubs(x)) for x in expand(I, t))


def is_dir(R, facts, d):
    """what the facts say about the directory attribute"""
    a = field(flds(R, d, ("xdvdfs::layout::DirectoryEntryDiskData", "attributes")), None, 0)
    for f in facts:
        if f.op == "bit" and f.args[0] is a:
            return True
        if f.op == "not" and f.args[0].op == "bit" and f.args[0].args[0] is a:
            return False
    return None


def source(I, t):
    """t is (a handle of) the image file behind the opened image"""
    cl = next((e for e in evs(I, CLONE) if at(e, "handle") is t), None)
    if cl is None:
        return False
    x = cl.snap[0]
    g = next((e for e in evs(I, "std::io::BufReader::<R>::get_ref", "std::io::BufReader::<R>::get_mut") if e.ret is x), None)
    return g is not None
