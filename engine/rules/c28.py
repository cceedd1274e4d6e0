"""Opening images.  open_image is interpreted with the raw opener opaque and the outcome of every file operation split.  Which
way an image is opened must follow from its name; the numbers of the parts opened are shown by induction over the loop to be
1, 2, 3 and so on in the order of the parts; the list of parts may only end where the next part was found not to exist.  The
reads of a decompressed image are passed on unchanged, and success is reported only after everything opened."""
from rules.dirent import *
from rules.trie import last, same_text

FLOORS = {"way": 4, "parts": 4, "read": 3, "opened": 2}
OPEN, RAW = "xdvdfs::img::open_image", "xdvdfs::img::open_image_raw"
READ = "<xdvdfs::img::CSOBlockDevice<R> as xdvdfs::blockdev::BlockDeviceRead>::read"
FILE, EXISTS = ("std::fs::File::open", "std::fs::OpenOptions::open"), ("std::path::Path::exists", "std::path::Path::is_file")
SPLIT, CSO, FETCH = "ciso::split::SplitFileReader", "ciso::read::CSOReader", "read_offset"


def named(e, end):
    return e.name is not None and e.name.startswith(end) and e.name.endswith("::new")


def tagged(t):
    return t.args[-1][-1] if t.op == "sym" and isinstance(t.args[-1], tuple) and t.args[-1][0] == "scn" else None


def about(facts, text):
    """a fact (not a negated one) that speaks about this text"""
    return any(g.op != "not" and any(a is STR(text) for a in allsubs(g)) for g in facts)


def check(R):
    for n in (OPEN, RAW):
        R.fn(n)
    opening(R)
    parts(R)
    reading(R)


def opening(R):
    span = R.fn(OPEN).span

    def result(I, st, e, ret):
        way, ext = the_mon(st)
        nxt = None
        if e.name == RAW:
            nxt = "raw"
        elif e.name in FILE:
            nxt = way
        elif e.name in EXISTS:
            return cases(case(I, st.copy(), TRUE, ("there", ext)), case(I, st, FALSE, ("gone", ext)))
        elif named(e, SPLIT):
            nxt = "split"
        elif named(e, CSO):
            nxt = "cso"
        if nxt is not None:
            return cases(case(I, st.copy(), ok(at(e, (nxt, "opened"))), (nxt, ext)), case(I, st, err(at(e, ("bad",))), ("failed", ext)))

    def learned(m, st, I):
        way, ext = m
        new = ext | {t for t in ("cso", "1") if t not in ext and about(st.facts, t)}
        return [(way, new)] if new != ext else None

    I = R.analyse(OPEN, opaque=lambda p: p == RAW, result=result, learned=learned, mon0=(("start", frozenset()),), esp=True, cap=600)
    path = I.rootargs[0]
    opened = {}
    for e in I.events():
        if e.kind != "call":
            continue
        exts = [x for _, x in e.mon]
        if e.name == RAW:
            R.ob("way", "raw", e.snap[0] is path, "the image named is opened", where(e), "the image opened is " + show(e.snap[0]))
            R.ob("way", "raw:not-cso", all("cso" not in x for x in exts), "a compressed image is not opened as it is", where(e), "an image named .cso can be opened without decompression")
        if e.name in FILE or named(e, CSO) or named(e, SPLIT):
            R.ob("way", "cso:" + e.name, all("cso" in x for x in exts), "only an image named .cso is decompressed", where(e), "an image not named .cso may be decompressed")
        if e.name in FILE:
            opened[at(e, (the(e.mon), "opened"))] = e
        if named(e, CSO):
            for x, f in alts(I, e.snap[0], e.facts):
                s, more = set(), [x]
                while more:
                    b = more.pop()
                    s |= allsubs(b)
                    more += [z for a in allsubs(b) for z in wrapped(I, a)[1:] if z not in s]
                R.ob("way", "reader", len({a for a in s if tagged(a) == "opened"}) == 1, "one file, or the parts of one image, are decompressed", where(e), "what is decompressed is " + show(x))
        if named(e, SPLIT):
            R.ob("parts", "end", all(w == "gone" for w, _ in e.mon), "the list of parts ends where the next part does not exist", where(e),
                 "the list of parts can end although the next part has not been found missing")
    for e in I.events():
        if e.kind == "call" and e.name in FILE and not any(named(x, SPLIT) and x.id in e.may | e.must or e.id in x.may for x in I.events() if x.kind == "call" and named(x, SPLIT)):
            R.ob("way", "single", e.snap[-1 if e.name == FILE[1] else 0] is path, "the image named is opened", where(e), "the image opened is " + show(e.snap[0]))
            R.ob("way", "single:whole", all("1" not in x for _, x in e.mon), "the parts of a split image are not opened alone", where(e), "the first part of a split image is opened as if it were the whole")
    for st, v in I.results:
        way, ext = the_mon(st)
        good = way in ("raw", "cso") if is_ok(v) else way == "failed" or way == "gone"
        R.ob("opened", way + (":ok" if is_ok(v) else ":err"), good, "success only after the image is opened, failure only where something failed", span,
             "opening %s in state %s" % ("succeeds" if is_ok(v) else "fails", way))
        if is_ok(v):
            for x, f in alts(I, payload(v), st.facts):
                good = any(tagged(a) == "opened" and a.args[-1][1] == way for a in allsubs(x))
                R.ob("opened", way + ":value", good, "what was opened is returned", span, "what is returned is " + show(x))


def the(mon):
    return sorted(w for w, _ in mon)[0]


def number(p, path):
    """the number of the part a path belongs to"""
    if p.op == "app" and last(p) == "with_extension":
        b, name = (same_text(a) for a in p.args[1])
        if b.op == "app" and last(b) == "with_extension" and same_text(b.args[1][0]) is path and str_val(b.args[1][1]) == "":
            q = fmt_parts(name)
            if q and len(q) == 2 and q[1] == ".cso":
                return q[0]
            if q and len(q) == 1 and isinstance(q[0], str) and q[0].endswith(".cso") and q[0][:-4].isdigit():
                return INT(int(q[0][:-4]))
    return None


def parts(R):
    """the parts opened are 1, 2, 3 ... in that order: by induction over the loop, the next part's number is one more than
    the number of parts so far"""
    I = R.analyse(OPEN, opaque=lambda p: p == RAW, cap=600)
    path = I.rootargs[0]
    opens = {field(x.ret, 0, 0): x for x in evs(I, *FILE)}
    lists = [e for e in I.events() if e.kind == "call" and named(e, SPLIT)]
    for e in lists:
        els, other, _ = vec_closure(I, e.snap[0])
        R.ob("parts", "list", els and not other, "the list is made of parts put in one after another", where(e), "the list of parts is " + show(e.snap[0]))
    for x in evs(I, kind="push"):
        if not any(x.snap[1] in vec_closure(I, e.snap[0])[0] for e in lists):
            continue
        v = x.snap[0]
        o = [opens[a] for a in wrapped(I, x.snap[1]) if a in opens]
        if not R.ob("parts", "file", len(o) == 1, "a part is an opened file", where(x), "a part is " + show(x.snap[1])):
            continue
        p = o[0].snap[-1 if o[0].name == FILE[1] else 0]
        n = number(p, path)
        edges = I.phi_info.get(v, {})
        R.ob("parts", "loop", bool(edges), "parts are put in by one loop", where(x), "a part is added to " + show(v))
        for k, (w, f, back) in edges.items():
            now, have = None, add(length(w), INT(1))
            ph = [a for a in allsubs(n) if a.op == "phi" and k in I.phi_info.get(a, {})] if n is not None else []
            if n is None:
                now = number(I.phi_info[p][k][0] if p.op == "phi" and k in I.phi_info.get(p, {}) else p, path)
            elif [a for a in ph if a is not v]:
                c = next(a for a in ph if a is not v)       # a counter, in step with the number of parts by induction
                now = subst(subst(n, {c: I.phi_info[c][k][0]}), {c: sub(add(length(v), INT(1)), sub(n, c))})
            else:
                now = subst(n, {v: w})
            R.ob("parts", "number:" + ("next" if back else "first"), now is not None and equal(I, f, now, have), "parts are opened in the order of their numbers, from 1 on", where(o[0]),
                 "after %s parts the next one opened is %s" % (show(length(w)), show(now) if now is not None else show(p)))


def wrapped(I, t):
    """what a reader reads from, through buffering"""
    made = {x.ret: x for x in I.events() if x.kind == "call" and x.name and x.name.startswith("std::io::BufReader::<R>::")}
    out = [t]
    while out[-1] in made:
        out.append(made[out[-1]].snap[-1])
    return out


def same_buf(I, e, buf):
    a = e.args[2]
    return a is buf or same_place(I, a, buf)


def reading(R):
    f = R.fn(READ)

    def result(I, st, e, ret):
        if e.name and e.name.endswith("::" + FETCH):
            return ok_err(I, st, "read", "failed")

    I = R.analyse(READ, result=result, mon0=("start",), esp=True)
    dev, offset, buf = I.rootargs[:3]
    for e in I.events():
        if e.kind == "call" and (e.name or "").endswith("::" + FETCH):
            R.ob("read", "range", cong(I, e.args[1], offset) and same_buf(I, e, buf), "the range asked for is decompressed into the caller's buffer", where(e),
                 "what is decompressed is %s at %s" % (show(e.args[2]), show(e.args[1])))
    for st, v in I.results:
        m = the_mon(st)
        R.ob("read", m, is_ok(v) == (m == "read") and m != "start", "a read succeeds exactly if the decompression does", f.span, "a read %s in state %s" % ("succeeds" if is_ok(v) else "fails", m))
