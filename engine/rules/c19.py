"""The mounted filesystem.  Every request handler is interpreted with the library's reading functions opaque and their
outcomes (found, absent, failed; entry, end, failed) split: which replies can follow which outcome, the values they carry
(inode, size, kind, data) as terms over the image, and for listings the continuation offsets, with the directory iterator
modelled as a position in the listing and loop-inductive facts on it.  The inode table is followed as a symbolic value:
every change any request makes must add one fresh inode to both maps and step the counter."""
from base import *
from interp import State
from rules import c04, c05
from rules.c13 import Notes
from rules.scan import scan

FLOORS = {"reply": 12, "table": 4, "lookup": 3, "attr": 2, "read": 2, "list": 4, "new": 3}
FS = "xdvdfsd::img_fs::FuseFilesystem"
CACHE = "xdvdfsd::img_fs::FuseFilesystemCache"
H = "<xdvdfsd::img_fs::FuseFilesystem as fuser::Filesystem>::"
WALK = "xdvdfs::read::<impl xdvdfs::layout::DirectoryEntryTable>::walk_path"
SCAN = "xdvdfs::read::<impl xdvdfs::layout::DirectoryEntryTable>::scan_dirent_tree"
NEXT = "xdvdfs::read::DirentScanIter::<'_, BDR>::next_entry"
READ = DISKDATA + "::read_data_offset"
NAME = NODE + "::name_str"
READ_VOL = "xdvdfs::read::read_volume"
OW_NEW = OW + "::<T>::new"
API = (WALK, SCAN, NEXT, READ, NAME)
ENOENT, EIO = 2, 5
ERR = "xdvdfs::util::Error"


class Names:
    """field positions, found by type where the type tells"""

    def __init__(self, R):
        self.R = R
        self.device, self.volume, self.cache = (R.field(FS, n) for n in ("device", "volume", "cache"))
        f = R.P.adts.get(CACHE)
        if f is None:
            raise MissingAnchor(CACHE, "type %s not found" % CACHE)
        idx = {}
        for i, x in enumerate(f["variants"][0]["fields"]):
            s = x["ty"].s
            if "HashMap" in s or "BTreeMap" in s:
                a = x["ty"].a
                idx["fwd" if a[0].k == "int" else "rev"] = i
            elif x["ty"].k == "int":
                idx["next"] = i
        if set(idx) != {"fwd", "rev", "next"}:
            raise MissingAnchor(CACHE, "the inode table is not two maps and a counter")
        self.fwd, self.rev, self.next = idx["fwd"], idx["rev"], idx["next"]

    def table(self, I, me):
        c = field(me, None, self.cache)
        return tuple(field(c, None, i) for i in (self.fwd, self.rev, self.next))

    def root(self, me):
        return flds(self.R, field(me, None, self.volume), (VOLUME, "root_table"))

    def data(self, node):
        return flds(self.R, node, (NODE, "node"), (DISKNODE, "dirent"))


TABLE = "xdvdfs::layout::DirectoryEntryTable"
R_ATTR = "xdvdfs::layout::DirentAttributes"
ATTR = "fuser::FileAttr"


def same_table(a, b):
    return all(x is y for x, y in zip(a, b))


def steps(N, t, facts):
    """undo the consistent insertions of one table value: -> (base table, [inserted (inode, entry)]) or None"""
    ins = []
    f, r, n = t
    while True:
        if f.op == "mapins":
            m, k, d = f.args
            if not (r.op == "mapins" and r.args[1] is d and r.args[2] is k):
                return None
            if n is not add(k, INT(1)):
                return None
            ins.append((k, d, r.args[0]))
            f, r, n = m, r.args[0], k
            continue
        return (f, r, n), ins


def base_of(N, t):
    """the filesystem value the three parts of a table are read from"""
    out = set()
    for x, i in zip(t, (N.fwd, N.rev, N.next)):
        if not (x.op == "field" and x.args[2] == i and x.args[0].op == "field" and x.args[0].args[2] == N.cache):
            return None
        out.add(x.args[0].args[0])
    return out.pop() if len(out) == 1 else None


def joint(I, N, me, facts, *more):
    """the alternatives of the inode table of a filesystem value, with further terms"""
    t = mk("arr", N.table(I, me) + more)
    return [(x.args[0], f) for x, f in alts(I, t, facts, 8)]


def audit_table(R, N, I, tag, me, facts, w):
    """every alternative of the table is an earlier one, or an earlier one with fresh pairs added to both maps"""
    for x, f in joint(I, N, me, facts):
        s = steps(N, x[:3], f)
        good = s is not None and base_of(N, s[0]) is not None
        if good:
            for k, d, rev in s[1]:
                absent = any(g.op == "isvar" and g.args[1] == 0 and is_get(g.args[0], rev, d) for g in f)
                R.ob("table", tag + ":new", absent, "an inode is assigned only to an entry that has none", w,
                     "%s may give an entry a second inode" % tag)
        R.ob("table", tag, good, "the inode table changes only by adding the next inode to both maps and stepping the counter", w,
             "%s leaves an inode table that does not map each assigned inode to its entry and back: %s" % (tag, " / ".join(show(y)[:160] for y in x[:3])))


def is_get(t, m, k):
    return t.op == "app" and t.args[0].rsplit("::", 1)[-1] == "get" and t.args[1][0] is m and same_key(t.args[1][1], k)


def same_key(a, b):
    return a is b or a.op == "deref" and a.args[0] is b


def inode_of(I, N, me, ino, entry, facts):
    """does `ino` stand for `entry` in the table of `me`?  -> the offending alternative or None"""
    for x, f in joint(I, N, me, facts, ino, entry):
        s = steps(N, x[:3], f)
        if s is None:
            return show(x[3])
        ino_, ent = x[3], x[4]
        if any(k is ino_ and d is ent for k, d, _ in s[1]):
            continue
        g = ino_.args[0] if ino_.op == "deref" else ino_
        if g.op == "field" and is_get(g.args[0], s[0][1], ent) and mk("isvar", g.args[0], 1) in f:
            continue
        return show(ino_)
    return None


def get_of(t):
    """(map, key) of a table look-up"""
    return (t.args[1][0], t.args[1][1]) if t.op == "app" and t.args[0].rsplit("::", 1)[-1] == "get" and len(t.args[1]) == 2 else None


def unref(t):
    return t.args[0] if t.op == "deref" else t


def check(R):
    import interp
    # what the handlers call: reading a file's bytes, finding a name, scanning a directory
    c04.check(R)
    c05.check(R)
    scan(R)
    N = Names(R)
    for n in API + (READ_VOL, OW_NEW):
        R.fn(n)
    absent = [R.variant(ERR, "DoesNotExist"), R.variant(ERR, "DirectoryEmpty")]
    A = {n: R.field(ATTR, n) for n in ("ino", "size", "kind")}
    DIR, REG = R.variant("fuser::FileType", "Directory"), R.variant("fuser::FileType", "RegularFile")
    notes = {}

    def note(rule, key, e, msg):
        notes.setdefault(rule, Notes(R, rule))(key, e, msg)

    class Handler:
        def __init__(self, m, result=None, learned=None, assume=None):
            f = R.fn(H + m)
            self.m, self.replies = m, {}
            self.args = interp.Interp(R.P, interp.Opts()).params(f)
            self.arg = dict(zip(f.argnames or (), self.args))
            self.me = self.args[0]
            self.me0 = mk("deref", self.me)
            self.fwd, self.rev, self.next = N.table(None, self.me0)
            st = interp.State(mon=frozenset(["start"]))
            if assume:
                st.facts = frozenset(assume(self))
            self.I = None

            def monitor(mv, e, st, I):
                if e.kind == "call" and (e.name or "").startswith("fuser::Reply") and not e.name.endswith("::add"):
                    self.replies[e.id] = (e, mv, I.read(st, ("D", self.me), ()))
                    return ["replied"]

            def learn(mv, st, I):
                if mv == "start" and learned and learned(self, st, I):
                    return ["refused"]
                if mv == "start" or not hasattr(self, "learn"):
                    return None
                return self.learn(mv, st, I)

            if m == "readdir":
                self.learn = listing_learn
            self.I = R.analyse(H + m, st=st, args=self.args, opaque=lambda p: p in API, mon0=("start",),
                               result=(lambda I, st, e, ret: result(self, I, st, e, ret)) if result else None, monitor=monitor, learned=learn, esp=True, cap=600)
            for st, v in self.I.results:
                R.ob("reply", m + ":once", st.mon <= {"replied", "full"}, "every path ends in a reply", "",
                     "%s can return without having replied" % m)
                audit_table(R, N, self.I, m, self.I.read(st, ("D", self.me), ()), st.facts, "")
            for e in evs(self.I, "map.insert", kind="mapins"):
                R.ob("table", m + ":insert", True, "an insertion, accounted for in the table at every return", where(e))
            self.root = N.root(self.me0)

        def final(self):
            return [(e, mv, me) for e, mv, me in self.replies.values() if self.I.event(e.id) is e]

        def node(self, facts, ino):
            """the entry an inode stands for, when the facts say that it stands for one"""
            for g in facts:
                if g.op == "isvar" and g.args[1] == 1:
                    mk_ = get_of(g.args[0])
                    if mk_ and mk_[0] is self.fwd and unref(mk_[1]) is ino:
                        return mk("deref", field(g.args[0], 1, 0))

        def missing(self, facts, ino):
            return any(g.op == "isvar" and g.args[1] == 0 and get_of(g.args[0]) and get_of(g.args[0])[0] is self.fwd and unref(get_of(g.args[0])[1]) is ino
                       for g in facts)

    def attr_bits(node):
        return flds(R, N.data(node), (DISKDATA, "attributes"), (R_ATTR, "0"))

    def dirness(facts, node):
        b = attr_bits(node)
        for g in facts:
            neg = g.op == "not"
            h = g.args[0] if neg else g
            if h.op == "bit" and h.args[0] is b and (h.args[1] == 4 or isinstance(h.args[1], T) and int_val(h.args[1]) == 4):
                return not neg
        return None

    def size_of(node):
        return region(R, N.data(node))[1]

    def reply(h, e, ok_, what, msg):
        R.ob("reply", h.m + ":" + e.name.rsplit("::", 1)[-1], ok_, what, where(e), msg)

    def kind_of(k):
        return {DIR: True, REG: False}.get(k.args[1]) if k.op == "agg" else None

    # ------------------------------------------------------------ lookup and the shared "which directory"
    def not_a_dir(h, st, I):
        ino = h.arg.get("parent", h.arg.get("ino"))
        if h.missing(st.facts, ino):
            return True
        n = h.node(st.facts, ino)
        if n is not None and dirness(st.facts, n) is False:
            return True
        return any(g.op == "isvar" and g.args[1] == 0 and g.args[0].op == "app" and g.args[0].args[0].endswith("to_str") and
                   g.args[0].args[1][0] is h.arg.get("name") for g in st.facts)

    def directory(h, rule, e, table, ino):
        for t, f in alts(h.I, table, e.facts):
            n = h.node(f, ino)
            if cong(h.I, t, h.root):
                good = eq(ino, INT(1)) in f
            else:
                good = n is not None and dirness(f, n) is True and cong(h.I, flds(R, t, (TABLE, "region")), flds(R, N.data(n), (DISKDATA, "data")))
            R.ob(rule, h.m + ":directory", good, "the directory is the one the inode stands for", where(e),
                 "%s reads %s, which is not the directory the given inode stands for" % (h.m, show(t)[:200]))

    def lookup_result(h, I, st, e, ret):
        if e.name != WALK:
            return None
        er = fresh(("walk", e.ctx, e.bb))
        found = mk("sym", "scn", ("node", e.ctx, e.bb))
        return cases(case(I, st, ok(found), "found"), *([case(I, st, err(er), "absent%d" % v, (mk("isvar", er, v),)) for v in absent] +
                     [case(I, st, err(er), "failed", tuple(mk("notvar", er, v) for v in absent))]))

    h = Handler("lookup", lookup_result, not_a_dir)
    for e in evs(h.I, WALK):
        directory(h, "lookup", e, e.snap[0], h.arg["parent"])
        nm = e.snap[2]
        good = nm.op == "field" and nm.args[0].op == "app" and nm.args[0].args[0].endswith("to_str") and nm.args[0].args[1][0] is h.arg["name"]
        R.ob("lookup", "name", good, "the requested name is looked up", where(e), "the name looked up is %s, not the requested one" % show(nm))
    for e, mv, me in h.final():
        kind = e.name.rsplit("::", 1)[-1]
        mv = mv.rstrip("0123456789")
        if kind == "error":
            code = int_val(e.snap[1])
            good = {"absent": code == ENOENT, "failed": code == EIO, "refused": bool(code)}.get(mv, False)
            reply(h, e, good, "the error reported is the one that happened",
                  "lookup answers error %s when %s" % (code, {"absent": "the name does not exist", "failed": "the image cannot be read", "found": "the entry was found",
                                                             "start": "nothing has been looked up"}.get(mv, mv)))
        elif kind == "entry":
            reply(h, e, mv == "found", "an entry is only reported when one was found", "lookup reports an entry although none was found")
            node = next((mk("sym", "scn", ("node", w.ctx, w.bb)) for w in evs(h.I, WALK)), None)
            if mv != "found":
                continue
            a = e.snap[2]
            bad = inode_of(h.I, N, me, field(a, None, A["ino"]), node, e.facts)
            R.ob("lookup", "inode", bad is None, "the inode reported stands for the entry found", where(e), "lookup reports an inode, %s, that does not stand for the entry found" % bad)
            for x, f in alts(h.I, mk("arr", (field(a, None, A["size"]), field(a, None, A["kind"]))), e.facts):
                R.ob("lookup", "size", cong(h.I, x.args[0][0], size_of(node)), "the size reported is the entry's", where(e), "lookup reports the size %s" % show(x.args[0][0]))
                k = kind_of(x.args[0][1])
                R.ob("lookup", "kind", k is not None and k == dirness(f, node), "directories, and only they, are reported as such", where(e),
                     "lookup does not report directories, and only them, as such")
        else:
            reply(h, e, False, "", "lookup answers with %s" % kind)

    # ------------------------------------------------------------ getattr
    h = Handler("getattr", None, lambda h, st, I: h.missing(st.facts, h.arg["ino"]))
    for e, mv, me in h.final():
        kind = e.name.rsplit("::", 1)[-1]
        if kind == "error":
            reply(h, e, mv == "refused" and int_val(e.snap[1]) == ENOENT, "an unknown inode is reported as missing", "getattr answers error %s %s" % (
                show(e.snap[1]), "for an unknown inode" if mv == "refused" else "for a known inode"))
            continue
        reply(h, e, kind == "attr" and mv == "start", "attributes of a known inode", "getattr answers with %s" % kind)
        if kind != "attr":
            continue
        a, ino = e.snap[2], h.arg["ino"]
        for x, f in alts(h.I, mk("arr", tuple(field(a, None, A[n]) for n in ("ino", "size", "kind"))), e.facts):
            i, sz, k = x.args[0]
            n = h.node(f, ino)
            if eq(ino, INT(1)) in f or i is INT(1):
                good = eq(ino, INT(1)) in f and (i is INT(1) or i is ino) and cong(h.I, sz, flds(R, h.root, (TABLE, "region"), (REGION, "size"))) and kind_of(k) is True
            else:
                good = n is not None and i is ino and cong(h.I, sz, size_of(n)) and kind_of(k) is not None and kind_of(k) == dirness(f, n)
            R.ob("attr", "getattr", good, "the attributes are those of the entry the inode stands for", where(e),
                 "getattr answers inode %s, size %s, kind %s" % (show(i), show(sz)[:120], show(k)))

    # ------------------------------------------------------------ read
    def read_result(h, I, st, e, ret):
        if e.name == READ:
            return cases(case(I, st, ret, "got", (mk("isvar", ret, 0),)), case(I, st, ret, "failed", (mk("isvar", ret, 1),)))

    def unreadable(h, st, I):
        ino = h.arg["ino"]
        n = h.node(st.facts, ino)
        return h.missing(st.facts, ino) or eq(ino, INT(1)) in st.facts or n is not None and dirness(st.facts, n) is True or prove(I, st.facts, lt(h.arg["offset"], INT(0)))

    h = Handler("read", read_result, unreadable)
    for e in evs(h.I, READ):
        for f in case_facts(h.I, e.facts):
            n = h.node(f, h.arg["ino"])
            R.ob("read", "entry", n is not None and cong(h.I, e.snap[0], N.data(n)), "the entry the inode stands for is read", where(e), "read reads %s" % show(e.snap[0])[:200])
        R.ob("read", "range", e.snap[2] is h.arg["size"] and e.snap[3] is h.arg["offset"], "exactly the requested range is read", where(e),
             "read asks for %s bytes at %s" % (show(e.snap[2]), show(e.snap[3])))
    for e, mv, me in h.final():
        kind = e.name.rsplit("::", 1)[-1]
        if kind == "error":
            code = int_val(e.snap[1])
            good = {"failed": code == EIO, "refused": bool(code)}.get(mv, False)
            reply(h, e, good, "the error reported is the one that happened", "read answers error %s when %s" % (
                code, {"failed": "the image cannot be read", "got": "the data was read", "start": "nothing was wrong"}.get(mv, mv)))
            continue
        if mv == "got":
            rets = [r.ret for r in evs(h.I, READ)]
            good = any(e.snap[1] is x for r in rets for x in (field(r, 0, 0), field(field(r, 0, 0), None, 0)))
            reply(h, e, kind == "data" and good, "the data read is what is answered", "read answers %s, not the data read" % show(e.snap[1])[:160])
        else:
            for f in case_facts(h.I, e.facts):
                n = h.node(f, h.arg["ino"])
                good = kind == "data" and mv in ("start", "refused") and prove(h.I, f, le(length(e.snap[1]), INT(0))) and n is not None and (
                    prove(h.I, f, le(size_of(n), h.arg["offset"])) or prove(h.I, f, le(h.arg["size"], INT(0))))
                reply(h, e, good, "an empty answer only at or after the end of the file", "read answers %s without reading, although the range may hold data" % show(e.snap[1])[:100])

    # ------------------------------------------------------------ readdir
    adds, nexts = {}, {}

    def listing_learn(m, st, I):
        off = h_off[0]
        if m == "head" and prove(I, st.facts, le(INT(2), off)) or m == "dd" and prove(I, st.facts, le(INT(1), off)):
            return ["mid"]

    def list_result(h, I, st, e, ret):
        m = the_mon(st)
        off = h.arg["offset"]
        if e.name == SCAN:
            L = mk("sym", "scn", ("listing", e.ctx, e.bb))
            return cases(case(I, st, ok(agg("listing", 0, (L, INT(0)))), "head"), case(I, st, err(fresh(("scan", e.ctx, e.bb))), "failed"))
        if e.name == NAME:
            return cases(case(I, st, ok(app("entry-name", e.snap[0])), m))
        if e.name == NEXT:
            it = e.snap[0]
            L, p = field(it, None, 0), field(it, None, 1)
            nexts[e.id] = (e, p)
            if m not in ("mid", "end"):
                note("list", "next:" + m, e, "readdir goes on to the entries without having added %s" % ("'..'" if m == "dot" else "'.'" if m == "dd" else "'.' and '..'"))
            out = cases(case(I, st, ok(NONE), "end"))
            if m != "end":
                out += cases(case(I, st, ok(some(mk("elem", L, p))), "mid"), case(I, st, err(fresh(("next", e.ctx, e.bb))), "failed"))
                I.set(out[1][0], e.args[0], agg("listing", 0, (L, add(p, INT(1)))))
            I.set(out[0][0], e.args[0], it)
            if m != "end":
                I.set(out[2][0], e.args[0], it)
            return out
        if e.name and e.name.endswith("ReplyDirectory::add"):
            adds[e.id] = (e, m, I.read(st, ("D", h.me), ()))
            name = str_val(e.snap[4])
            to = "mid"
            if name == ".":
                to = "dot"
                if m != "head":
                    note("list", "dot", e, "'.' is added in the middle of a listing")
            elif name == "..":
                to = "mid" if m == "dot" or prove(I, st.facts, le(INT(1), off)) else "dd"
                if m not in ("dot", "head"):
                    note("list", "dotdot", e, "'..' is added in the middle of a listing")
            elif m != "mid":
                note("list", "early", e, "an entry is added %s" % ("after the end of the listing" if m == "end" else "before '.' and '..'"))
            return cases(case(I, st, ret, "full", (ret,)), case(I, st, ret, to, (notb(ret),)))

    h_off = [None]
    f = R.fn(H + "readdir")
    h_off[0] = dict(zip(f.argnames, interp.Interp(R.P, interp.Opts()).params(f)))["offset"]
    h = Handler("readdir", list_result, not_a_dir, lambda h: [le(INT(0), h.arg["offset"])])
    I, off = h.I, h.arg["offset"]
    for e in evs(I, SCAN):
        directory(h, "list", e, e.snap[0], h.arg["ino"])
    final = [(e, m, me) for e, m, me in adds.values() if I.event(e.id) is e]
    dots = set()
    for e, m, me in final:
        ino, o, kind, name = e.snap[1:5]
        s = str_val(name)
        if s in (".", ".."):
            dots.add(s)
            want = len(s)
            good = int_val(o) == want and kind_of(kind) is True and ino is h.arg["ino"] and prove(I, e.facts, le(off, INT(want - 1)))
            R.ob("list", "add:" + s, good, "'%s' is offered once, at its own offset" % s, where(e), "readdir adds '%s' with offset %s, kind %s, although %s" % (
                s, show(o), show(kind), "it may already have been returned" if int_val(o) == want else "its offset is %d" % want))
            continue
        el = name.args[1][0] if name.op == "app" and name.args[0] == "entry-name" else None
        places = alts(I, mk("arr", (el, o)), e.facts) if el is not None else []
        if not places or any(x.args[0][0].op != "elem" for x, _ in places):
            R.ob("list", "name", False, "", where(e), "readdir adds an entry under the name %s, not its own" % show(name)[:120])
            continue
        for x, fs in places:
            p = x.args[0][0].args[1]
            R.ob("list", "offset", linked(I, x.args[0][1], p, 3), "each entry is added with the position to continue after it", where(e),
                 "readdir adds an entry with the continuation offset %s, which is not its position in the listing" % show(o))
            R.ob("list", "fresh", resumed(I, fs, p, off), "only entries after the requested offset are added", where(e),
                 "readdir may add again an entry that an earlier call has already returned")
        bad = inode_of(I, N, me, ino, el, e.facts)
        R.ob("list", "inode", bad is None, "the inode reported stands for the entry", where(e), "readdir reports an inode, %s, that does not stand for the entry" % bad)
        for k, fs in alts(I, kind, e.facts):
            R.ob("list", "kind", kind_of(k) is not None and kind_of(k) == dirness(fs, el), "directories, and only they, are reported as such", where(e),
                 "readdir does not report directories, and only them, as such")
    for s in (".", ".."):
        R.ob("list", "has:" + s, s in dots, "'%s' is added" % s, "", "readdir never adds '%s'" % s)
    done = set()
    for e, p in nexts.values():
        if I.event(e.id) is not e:
            continue
        for ph in phis_of(I, [p]):
            if ph in done:
                continue
            done.add(ph)
            for v, fs, back in I.phi_info.get(ph, {}).values():
                if not back or v is ph:
                    continue
                for v2, f2 in alts(I, v, fs):
                    if v2 is ph:
                        continue
                    el = [x for a in f2 for x in allsubs(a)]
                    added = any(notb(a.ret) in f2 and occurs(mk("elem", field(nx.snap[0], None, 0), ph), a.snap[4]) for a, _, _ in final for nx, _ in nexts.values())
                    good = v2 is add(ph, INT(1)) and (added or resumed_skip(I, f2, ph, off))
                    R.ob("list", "passed", good, "an entry is only passed over when an earlier call has returned it", where(e),
                         "readdir may pass over an entry that no earlier call has returned")
    for e, mv, me in h.final():
        kind = e.name.rsplit("::", 1)[-1]
        if kind == "error":
            code = int_val(e.snap[1])
            good = {"failed": code == EIO, "refused": bool(code)}.get(mv, False)
            reply(h, e, good, "the error reported is the one that happened", "readdir answers error %s when %s" % (
                code, {"failed": "the image cannot be read", "start": "nothing has been read"}.get(mv, "nothing went wrong")))
        else:
            reply(h, e, kind == "ok" and mv in ("end", "full"), "the listing ends at its end or when the reply is full",
                  "readdir ends the listing with success %s" % {"failed": "although the image could not be read", "mid": "before its end"}.get(mv, "early"))

    # ------------------------------------------------------------ a fresh mount
    I = R.analyse(FS + "::new", opaque=lambda p: p in (READ_VOL, OW_NEW))
    for st, v in I.results:
        for x, fs in alts(I, v, st.facts):
            if not is_ok(x):
                continue
            me = payload(x)
            t = N.table(I, me)
            R.ob("new", "table", (int_val(t[2]) or 0) >= 2, "inodes are assigned from 2, 1 being the root", "", "a new mount starts its inodes at %s" % show(t[2]))
            empty = all(y.op == "app" and y.args[0] == "map.new" or y.op == "arr" and not y.args[0] or "new" in show(y) for y in t[:2])
            R.ob("new", "maps", empty, "the inode table starts empty", "", "a new mount starts with the inode tables %s, %s" % (show(t[0]), show(t[1])))
            rv = evs(I, READ_VOL)
            R.ob("new", "volume", any(cong(I, field(me, None, N.volume), field(r.ret, 0, 0)) for r in rv), "the volume is the image's", "",
                 "the mount serves a volume, %s, that is not the one read from the image" % show(field(me, None, N.volume)))
    for n in notes.values():
        n.flush()


def linked(I, a, b, c, seen=frozenset()):
    """a - b is always c, by induction over the loops that step both"""
    d = sub(a, b)
    if int_val(d) is not None:
        return int_val(d) == c
    (ka, pa), (kb, pb) = phi_plus(a), phi_plus(b)
    if pb is None and pa is None or (a, b, c) in seen:
        return (a, b, c) in seen
    c += kb - ka
    ia, ib = I.phi_info.get(pa), I.phi_info.get(pb)
    if (pa, pb, c) in seen:
        return True
    s = seen | {(pa, pb, c)}
    if ia and ib and pa.args[:3] == pb.args[:3] and set(ia) == set(ib):
        return all(linked(I, ia[k][0], ib[k][0], c, s) for k in ia)
    for x, i, side in ((pa, ia, 0), (pb, ib, 1)):
        if i and not any(bk for _, _, bk in i.values()):
            return all(linked(I, *((v, pb) if side == 0 else (pa, v)), c, s) for v, _, _ in i.values())
    return False


def phi_plus(t):
    """t = phi + constant"""
    if t.op == "phi":
        return 0, t
    ph = [x for x in subs(t) if x.op == "phi"]
    if len(ph) == 1 and int_val(sub(t, ph[0])) is not None:
        return int_val(sub(t, ph[0])), ph[0]
    return 0, None


def ties(I, facts, p):
    """facts, with the constant distances between the position and other loop counters"""
    _, pp = phi_plus(p)
    out = set()
    for x in {a for f in facts for a in subs(f) if a.op == "phi"}:
        if pp is not None and x is not pp and x in I.phi_info and pp in I.phi_info and x.args[:3] == pp.args[:3]:
            for k, (v, f, b) in I.phi_info[x].items():
                c = int_val(sub(v, I.phi_info[pp][k][0])) if not b and k in I.phi_info[pp] else None
                if c is not None and linked(I, x, pp, c):
                    out |= {le(x, add(pp, INT(c))), le(add(pp, INT(c)), x)}
                    break
    return facts | frozenset(out)


def resumed(I, facts, p, off, depth=4):
    """offset <= p + 2: the entry at p has not been returned before (the position never moves back)"""
    if prove(I, ties(I, facts, p), le(off, add(p, INT(2)))):
        return True
    k, ph = phi_plus(p)
    if ph is None or ph not in I.phi_info or depth == 0:
        return False
    for v, f, back in I.phi_info[ph].values():
        for v2, f2 in alts(I, v, f):
            if back and prove(I, f2, le(ph, v2)):
                continue
            if back or not resumed(I, ties(I, f2, v2), add(v2, INT(k)), off, depth - 1):
                return False
    return True


def resumed_skip(I, facts, p, off):
    """p + 3 <= offset"""
    return prove(I, ties(I, facts, p), le(add(p, INT(3)), off))
