"""Inspection output.  Every inspection command is interpreted from its entry point with the library's listing, lookup and
reading functions opaque and their outcomes split.  Between taking one entry of a listing and the next, the entry must have
been printed: a print whose arguments contain that entry's own decoded name (with its parent's path, size or digest where the
command shows them).  A listing loop runs over the whole listing, of the directory asked for; a failure ends in an error."""
from rules.dirent import *
from rules import c04, c05, c06
from rules.c13 import Notes
from rules.trie import last, same_text
from rules.c20 import counter, chain, bitno

FLOORS = {"printed": 10, "whole": 5, "failure": 12, "target": 5, "totals": 2, "md5": 3}
TREE, WALKDIR, FIND, SCAN = (W + n for n in ("file_tree", "walk_dirent_tree", "walk_path", "scan_dirent_tree"))
NEXT = "xdvdfs::read::DirentScanIter::<'_, BDR>::next_entry"
READ_ALL = DISKDATA + "::read_data_all"
NAME = NODE + "::name_str"
VOL = "xdvdfs::read::read_volume"
OPEN = "xdvdfs::img::open_image"
API = (TREE, WALKDIR, FIND, SCAN, NEXT, READ_ALL, NAME, VOL, OPEN)
PRINT = "std::io::_print"
TEXT = """new new_display format must_use strcat add from_str strpush push_str insert_str concat join to_owned to_string into from clone as_str as_ref deref borrow
to_path_buf into_owned from_utf8_lossy as_bytes""".split()
TAG = {TREE: "tree", WALKDIR: "dir", FIND: "found", SCAN: "scan", READ_ALL: "data", NAME: "name", VOL: "volume", OPEN: "image"}


def check(R):
    for n in API:
        R.fn(n)
    c04.check(R)
    c05.check(R)
    c06.check(R)
    for mod, fn in (("cmd_read", "cmd_ls"), ("cmd_read", "cmd_tree"), ("cmd_md5", "cmd_md5"), ("cmd_info", "cmd_info")):
        Command(R, "xdvdfs::%s::%s" % (mod, fn), fn)


def displayed(t):
    """the values whose text is part of the text t"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x in out:
            continue
        out.add(x)
        if x.op == "arr":
            todo += x.args[0]
        elif x.op == "ext" or x.op == "agg":
            todo += x.args[2] if x.op == "agg" else x.args
        elif x.op == "app" and last(x) in TEXT:
            todo += x.args[1]
    return out


class Command:
    def __init__(self, R, path, fn):
        self.R, self.fn = R, fn
        span = R.fn(path).span
        note = Notes(R, "printed")
        names, datas, src = {}, {}, {}
        self.items = items = set()

        # automaton: (phase, is the current entry still to be printed)
        def result(I, st, e, ret):
            ph, pend = the_mon(st)
            if e.name == NEXT:
                if pend:
                    note(fn + ":skipped", e, "%s takes the next entry although the previous one has not been printed" % fn)
                x = at(e, ("entry",))
                items.add(x)
                return cases(case(I, st, ok(some(x)), (ph, True)), case(I, st, ok(agg("std::option::Option", 0, [])), ("ended", False)),
                             case(I, st, err(at(e, ("e",))), ("failed", False)))
            if e.name in TAG:
                v = at(e, (TAG[e.name],))
                if e.name in (NAME, READ_ALL):
                    (names if e.name == NAME else datas)[v] = e.snap[0]
                if e.name in (TREE, WALKDIR, SCAN):
                    src[v] = e
                    if pend:
                        note(fn + ":skipped", e, "%s lists again although an entry has not been printed" % fn)
                nx = {TREE: "listed", WALKDIR: "listed", SCAN: "listed"}.get(e.name, ph)
                return cases(case(I, st, ok(v), (nx, pend)), case(I, st, err(at(e, ("e",))), ("failed", False)))

        def listing(t):
            return next((a for a in allsubs(t) if a in src), None)

        def monitor(m, e, st, I):
            ph, pend = m
            if e.kind in ("iter", "iterend") and e.name in ("iter.next", "iter.end") and listing(e.snap[0]) is not None:
                if pend:
                    note(fn + ":skipped", e, "%s takes the next entry although the previous one has not been printed" % fn)
                R.ob("whole", fn + ":" + listing(e.snap[0]).args[-1][-1], e.snap[0] is listing(e.snap[0]), "the loop runs over the whole listing", where(e),
                     "%s prints only a part of the listing: %s" % (fn, show(e.snap[0])))
                if e.kind == "iterend":
                    return [("ended", False)]
                items.add(mk("elem", e.snap[0], e.snap[1]))
                return [(ph, True)]
            if e.kind == "call" and e.name == PRINT:
                if ph == "failed":
                    note(fn + ":after", e, "%s goes on printing after a failure" % fn)
                w = self.whose(I, e, names)
                if w is not None:
                    return [(ph, False)]

        self.I = I = R.analyse(path, result=result, monitor=monitor, opaque=lambda p: p in API, mon0=(("start", False),), esp=True, cap=600)
        note.flush()
        ends = set()
        for st, v in I.results:
            ph, pend = the_mon(st)
            ends.add((ph, is_ok(v)))
            if is_ok(v):
                R.ob("failure", fn + ":ok:" + ph, ph != "failed", "no success after a failure", span, "%s succeeds although reading the image failed" % fn)
                R.ob("printed", fn + ":end:" + ph, not pend, "the last entry has been printed", span, "%s succeeds although an entry has not been printed" % fn)
                R.ob("whole", fn + ":end:" + ph, ph != "listed", "success only at the end of the listing", span, "%s succeeds before the end of the listing" % fn)
            elif ph != "failed":
                # the only refusal: listing something that is not a directory
                good = any(f.op == "not" and f.args[0].op == "bit" and bitno(f.args[0]) == 4 for f in st.facts)
                R.ob("failure", fn + ":spurious", good, "fails only for a failure or a file where a directory is needed", span,
                     "%s fails although nothing failed: %s" % (fn, show(v)))
        R.ob("failure", fn + ":reported", ("failed", False) in ends, "failures are reported", span, "%s never reports a failure" % fn)
        # what is shown next to the name (terms of the final pass)
        final = {}
        for e in evs(I, PRINT):
            w = self.whose(I, e, names)
            if w is not None:
                final[e.id] = (e, w)
        prints = [(i, w) for i, (e, w) in final.items()]
        R.ob("printed", fn, bool(prints), "entries are printed", span, "%s prints no entry" % fn)
        for e, w in final.values():
            s = allsubs(e.snap[0])
            if w.op == "elem" and w.args[0] in src and src[w.args[0]].name == TREE:
                R.ob("printed", fn + ":parent", field(w, None, 0) in s or self.merged(e, field(w, None, 0)), "with its parent's path", where(e),
                     "%s prints an entry without the path of the directory it is in" % fn)
                at_ = flds(R, self.node(w), (NODE, "node"), (DISKNODE, "dirent"), (DISKDATA, "attributes"))
                if fn == "cmd_tree" and any(g.op == "not" and g.args[0].op == "bit" and bitno(g.args[0]) == 4 and occurs(at_, g) for g in e.facts):
                    R.ob("printed", fn + ":size", region(R, flds(R, self.node(w), (NODE, "node"), (DISKNODE, "dirent")))[1] in s, "a file with its size", where(e),
                         "tree prints a file without its own size")
            if fn == "cmd_md5" and w.op == "elem" and w.args[0] in src:
                for base in {c.snap[2] for c in evs(I, FIND) if any(a.op == "sym" and a.args[-1] == ("scn", "found") for a in allsubs(src[w.args[0]].snap[0]))}:
                    good = all(any(same_text(p) is same_text(base) for p in displayed(x)) or prove(I, f, le(length(base), INT(0))) or any(g.op == "eq" and base in allsubs(g) for g in f)
                               for x, f in alts(I, e.snap[0], e.facts))
                    R.ob("printed", fn + ":base", good, "below the directory asked for", where(e), "%s prints an entry without the path of the directory listed" % fn)
        # which directory is listed
        for v, e in src.items():
            R.ob("target", fn + ":" + TAG[e.name], self.target(e), "the directory asked for is listed", where(e),
                 "%s lists %s" % (fn, show(e.snap[0])))
        for e in evs(I, FIND):
            vol = [a for a in allsubs(e.snap[0]) if a.op == "sym" and a.args[-1] == ("scn", "volume")]
            good = bool(vol) and e.snap[0] is flds(R, vol[0], (VOLUME, "root_table")) and occurs(mk("deref", I.rootargs[0]), e.snap[2])
            R.ob("target", fn + ":path", good and self.opt(e.snap[2]).op == "field", "the path given is looked up from the root", where(e),
                 "%s looks up %s" % (fn, show(e.snap[2])))
        if fn == "cmd_tree":
            self.totals(prints, src, span)
        if fn == "cmd_md5":
            self.md5(prints, datas, span)

    def node(self, w):
        """the entry of a listing element"""
        if w.op == "elem" and any(a.op == "sym" and a.args[-1][-1] == "tree" for a in [w.args[0]]):
            return field(w, None, 1)
        return w

    def whose(self, I, e, names):
        """the listing element (or entry) whose name is printed, whatever the case"""
        def of(t):
            s = allsubs(t)
            for n, ent in names.items():
                if n in s:
                    for w in self.items:
                        if self.node(w) is ent:
                            return w
            return None

        w = of(e.snap[0])
        if w is None and any(a.op == "phi" for a in subs(e.snap[0])):
            ws = {of(x) for x, f in alts(I, e.snap[0], e.facts)}
            w = ws.pop() if len(ws) == 1 else None
        return w

    def merged(self, e, p):
        """the parent's path is part of every alternative of a printed value"""
        I = self.I
        for a in subs(e.snap[0]):
            if a.op == "phi" and a in I.phi_info:
                vs = [x for x, f in alts(I, a, frozenset())]
                if any(p in allsubs(x) for x in vs):
                    # where the path is not part of it, it is known to be empty
                    return all(p in allsubs(x) or prove(I, f, le(length(p), INT(0))) or any(g.op == "eq" and p in allsubs(g) for g in f)
                               for x, f in alts(I, a, frozenset()))
        return False

    def target(self, e):
        R, I = self.R, self.I
        for x, f in alts(I, e.snap[0], e.facts):
            vol = [a for a in allsubs(x) if a.op == "sym" and a.args[-1] == ("scn", "volume")]
            fnd = [a for a in allsubs(x) if a.op == "sym" and a.args[-1] == ("scn", "found")]
            if vol and x is flds(R, vol[0], (VOLUME, "root_table")):
                # where a path can be given, the root is listed only when the path asks for it
                args = {self.opt(c.snap[2]) for c in evs(I, FIND)}
                if not args or any(g.op != "not" and g is not mk("isvar", a, 1) and occurs(a, g) for a in args for g in f):
                    continue
                return False
            if fnd and x.op == "agg" and x.args[0] == TABLE and x.args[2][0] is flds(R, fnd[0], (NODE, "node"), (DISKNODE, "dirent"), (DISKDATA, "data")):
                continue
            return False
        return True

    @staticmethod
    def opt(t):
        """the optional argument a value is unwrapped from"""
        return t.args[0] if t.op == "field" and t.args[1] == 1 else t

    def totals(self, prints, src, span):
        """the totals printed at the end count every file once, with its size"""
        R, I = self.R, self.I
        ids = {i for i, _ in prints}
        tot = [e for e in evs(I, PRINT) if e.id not in ids]
        acc = sorted({a for e in tot for a in subs(e.snap[0]) if a.op == "phi" and a in I.phi_info and any(b for _, _, b in I.phi_info[a].values())}, key=repr)
        kinds = set()
        for a in acc:
            for v, f, back in I.phi_info[a].values():
                if not back:
                    R.ob("totals", "start", int_val(v) == 0, "totals start at 0", span, "a total starts at " + show(v))
                    continue
                for x, h in alts(I, v, f):
                    w = next((w for w in self.items if w.op == "elem" and w.args[1].op == "phi" and w.args[1].args[:2] == a.args[:2]), None)
                    if w is None:
                        R.ob("totals", "loop", False, "", span, "a total is not computed over the listing")
                        continue
                    dd = flds(R, self.node(w), (NODE, "node"), (DISKNODE, "dirent"))
                    at_ = flds(R, dd, (DISKDATA, "attributes"))
                    isdir = any(g.op == "bit" and bitno(g) == 4 and occurs(at_, g) for g in h)
                    isfile = any(g.op == "not" and g.args[0].op == "bit" and bitno(g.args[0]) == 4 and occurs(at_, g) for g in h)
                    dlt = sub(x, a)
                    size = region(R, dd)[1]
                    if isdir:
                        R.ob("totals", "dir", int_val(dlt) == 0, "directories do not count", span, "a total grows by %s for a directory" % show(dlt))
                    elif isfile and (int_val(dlt) == 1 or dlt is size):
                        kinds.add("count" if dlt is not size else "size")
                    else:
                        R.ob("totals", "file", False, "", span, "a total grows by %s for an entry" % show(dlt))
        R.ob("totals", "both", kinds == {"count", "size"}, "the number of files and the sum of their sizes are printed", span,
             "the totals printed do not count every file and its size (%s)" % ", ".join(sorted(kinds)))

    def md5(self, prints, datas, span):
        R, I = self.R, self.I
        done = 0
        for e in evs(I, PRINT):
            fins = [t for t in allsubs(e.snap[0]) if t.op == "app" and t.args[0].rsplit("::", 1)[-1].startswith("finalize")]
            R.ob("md5", "digest", len(fins) == 1, "a digest is printed", where(e), "a line without a digest is printed")
            for t in fins:
                d, vals = chain(t.args[1][0], None)
                good = not any(a.op in ("sym", "phi", "deref") for a in allsubs(d)) and len(vals) == 1 and vals[0] in datas
                R.ob("md5", "data", good, "the digest is of one file's data", where(e), "the digest printed is of " + ", ".join(map(show, vals)))
                if not good:
                    continue
                w = [w for i, w in prints if i == e.id]
                ent = self.node(w[0]) if w else next((a for a in allsubs(datas[vals[0]]) if a.op == "sym" and a.args[-1] == ("scn", "found")), None)
                good = ent is not None and datas[vals[0]] is flds(R, ent, (NODE, "node"), (DISKNODE, "dirent"))
                R.ob("md5", "own", good, "of the entry named next to it", where(e), "the digest printed next to an entry is of %s" % show(datas[vals[0]]))
                done += good
        R.ob("md5", "all", done >= 2, "digests are printed for files and listings", span, "md5 prints no digest of a file or listing")
