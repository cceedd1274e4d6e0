"""Image checksum.  The hashing function is interpreted with the listing and the file reads opaque and every outcome split; the
digest returned is then a symbolic value, and the rule walks it by induction over the hashing loop: it starts from a
constant, every step feeds exactly the current entry's path and, unless the entry is a directory, all of its data, the
entries come in the order of their paths from a map that, by induction over the listing loop, holds every listed entry
under parent/name.  No success after a failed listing, decode or read.  Reading and listing themselves are held to the rules
of C04 and C06."""
from rules.dirent import *
from rules import c04, c06
from rules.c13 import Notes

FLOORS = {"digest": 5, "order": 1, "collect": 4, "failure": 3, "command": 3}
SUM = "xdvdfs::checksum::checksum"
TREE = W + "file_tree"
READ_ALL = DISKDATA + "::read_data_all"
NAME = NODE + "::name_str"


def check(R):
    c04.check(R)
    c06.check(R)
    checksum(R)
    command(R)


CMD, OPEN, VOL = "xdvdfs::cmd_read::cmd_checksum", "xdvdfs::img::open_image", "xdvdfs::read::read_volume"


def command(R):
    """the command prints, for every image named, the checksum of that image and its name"""
    span = R.fn(CMD).span
    note = Notes(R, "command")
    sums = {}

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name in (OPEN, VOL, SUM):
            v = at(e, ({OPEN: "image", VOL: "volume", SUM: "sum"}[e.name],))
            sums[v] = e
            # what a refilled image value is called does not matter: tie it to its file name
            return cases(case(I, st, ok(v), m), case(I, st, err(at(e, ("e",))), "failed"))

    def monitor(m, e, st, I):
        if e.kind in ("iter", "iterend") and occurs(mk("deref", I.rootargs[0]), e.snap[0]):
            if m == "image":
                note("skipped", e, "the next image is taken although the previous one's checksum has not been printed")
            if e.snap[0].op != "field":
                note("whole", e, "only some of the images are considered: " + show(e.snap[0]))
            return ["image" if e.kind == "iter" else "end"]
        if e.kind == "iter" and e.snap[0].op == "slice" and any(sums[v].name == SUM for v in sums if v in allsubs(e.snap[0])):
            lo, hi = e.snap[0].args[1:]
            if int_val(lo) != 0 or not prove(I, st.facts, le(length(e.snap[0].args[0]), hi)):
                note("part", e, "only part of the checksum is printed: " + show(e.snap[0]))
        if e.kind == "call" and e.name == "std::io::_print":
            if m == "failed":
                note("after", e, "printing goes on after a failure")
            s = through_loops(I, e.snap[0])
            if any(v in s and sums[v].name == SUM for v in sums) and m == "image":
                return ["sum"]
            if m == "image" or m == "sum":
                return None

    I = R.analyse(CMD, result=result, monitor=monitor, opaque=lambda p: p in (OPEN, VOL, SUM), mon0=("start",), esp=True, cap=600)
    note.flush()
    digits(R, I, {v for v in sums if sums[v].name == SUM})
    for e in evs(I, OPEN):
        els = [t for t in allsubs(e.snap[0]) if t.op == "elem"]
        R.ob("command", "image", bool(els) and e.snap[0] is els[0], "each image named is opened", where(e), "the image opened is " + show(e.snap[0]))
    for st, v in I.results:
        m = the_mon(st)
        if is_ok(v):
            R.ob("command", "ok:" + m, m == "end", "success only after every image", span, "the command succeeds in phase " + m)
        else:
            R.ob("command", "err:" + m, m == "failed", "an error only after a failure", span, "the command fails although nothing failed")


def digits(R, I, sums):
    """bytes of a checksum printed in hexadecimal take two digits each: otherwise different checksums look alike"""
    seen = set()
    for e in evs(I):
        for t in allsubs(e.snap[0]) if e.snap else ():
            if t in seen or t.op != "app" or not t.args[0].endswith("Arguments::new") or len(t.args[1]) != 2 or {a.op for a in t.args[1]} != {"arr"}:
                continue
            seen.add(t)
            shown = t.args[1][1].args[0]
            for x, (flags, width) in zip(shown, placeholders([int_val(b) for b in t.args[1][0].args[0]])):
                if x.op == "app" and x.args[0].endswith(("new_lower_hex", "new_upper_hex")):
                    b = x.args[1][0]
                    if b.op == "elem" and any(v in sums for v in through_loops(I, b)) and (b.ty is None or b.ty.s.lstrip("&") == "u8"):
                        R.ob("command", "digits", width == 2 and flags is not None and flags & 1 << 24, "each byte takes two digits", where(e),
                             "a byte of the checksum is printed without padding to two digits, so different checksums look alike")


def placeholders(bs):
    """the (flags, width) of the placeholders of a formatting template, where arguments are taken in order"""
    i = 0
    while i < len(bs) and bs[i]:
        b = bs[i]
        if b < 0x80:
            i += 1 + b
        elif b == 0x80:
            i += 3 + bs[i + 1] + 256 * bs[i + 2]
        else:
            i += 1
            flags = width = None
            if b & 1:
                flags = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if b & 2:
                width = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            i += 2 * bool(b & 4) + 2 * bool(b & 8)
            yield (None, None) if b & 0x38 else (flags, width)


def through_loops(I, t):
    """the subterms of t, and of what the loops in t put together"""
    out, todo = set(), [t]
    while todo:
        for a in allsubs(todo.pop()):
            if a not in out:
                out.add(a)
                if a.op == "phi" and a in I.phi_info:
                    todo += [v for v, f, back in I.phi_info[a].values()]
    return out


def counter(I, k, facts, seq):
    """k runs over all positions of seq: from 0 in steps of one, and the loop has been left at the end"""
    if k.op != "phi" or k not in I.phi_info:
        return False
    for v, f, back in I.phi_info[k].values():
        if back and v is not add(k, INT(1)) or not back and int_val(v) != 0:
            return False
    return prove(I, facts, le(length(seq), k))


def same_loop(a, b):
    return a.op == b.op == "phi" and a.args[:2] == b.args[:2]


def checksum(R):
    span = R.fn(SUM).span
    data, names = {}, {}

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name in (TREE, READ_ALL, NAME):
            v = at(e, ({TREE: "list", READ_ALL: "data", NAME: "name"}[e.name],))
            if e.name == READ_ALL:
                data[v] = e.snap[0]
            if e.name == NAME:
                names[v] = e.snap[0]
            return cases(case(I, st, ok(v), m), case(I, st, err(at(e, ("e",))), "failed"))

    I = R.analyse(SUM, result=result, opaque=lambda p: p in (TREE, READ_ALL, NAME), mon0=("fine",), esp=True, cap=600)
    vol = [a for a in I.rootargs if a.ty is not None and "VolumeDescriptor" in a.ty.s]
    trees = evs(I, TREE)
    for e in trees:
        good = any(e.snap[0] is flds(R, mk("deref", v), (VOLUME, "root_table")) for v in vol)
        R.ob("collect", "root", good, "the whole image is listed", where(e), "the listing starts at " + show(e.snap[0]))
    lists = {at(e, ("list",)) for e in trees}
    outcomes = set()
    for st, v in I.results:
        m = the_mon(st)
        outcomes.add((m, is_ok(v)))
        if not is_ok(v):
            R.ob("failure", "err:" + m, m == "failed", "an error only after a failure", span, "the checksum fails although nothing failed: " + show(v))
            continue
        R.ob("failure", "ok:" + m, m != "failed", "no checksum after a failure", span, "a checksum is returned although a read, listing or decode failed")
        fin = [t for t in allsubs(payload(v)) if t.op == "app" and t.args[0].rsplit("::", 1)[-1].startswith("finalize")]
        if len(fin) != 1:
            R.ob("digest", "final", False, "", span, "the value returned is %s, not the digest" % show(payload(v)))
            continue
        R.ob("digest", "final", True, "the value returned is the digest", span)
        hashed(R, I, fin[0].args[1][0], st.facts, span, data, names, lists)
    R.ob("failure", "all", ("failed", False) in outcomes, "failures reach the caller", span, "no failure reaches the caller")


def chain(t, stop):
    """the values fed to a digest since `stop`"""
    out = []
    while t is not stop and t.op == "app" and t.args[0] == "digest.update":
        out.append(t.args[1][1])
        t = t.args[1][0]
    return (t, out[::-1])


def hashed(R, I, d, facts, span, data, names, lists):
    d = norm(I, d)
    if d.op != "phi" or d not in I.phi_info or not any(b for _, _, b in I.phi_info[d].values()):
        R.ob("digest", "loop", False, "", span, "the digest is %s, not one step per entry" % show(d))
        return
    item = None
    for v, f, back in I.phi_info[d].values():
        if not back:
            R.ob("digest", "start", not any(a.op in ("sym", "phi", "deref") for a in allsubs(v)), "the digest starts from a constant", span,
                 "the digest starts from " + show(v))
            continue
        for x, h in alts(I, v, f):
            base_, vals = chain(x, d)
            els = {t for y in vals for t in allsubs(y) if t.op == "elem" and t.args[1].op == "phi" and same_loop(t.args[1], d)}
            for y in vals:
                if y in data:
                    els |= {t for t in allsubs(data[y]) if t.op == "elem" and t.args[1].op == "phi" and same_loop(t.args[1], d)}
            if base_ is not d or len(els) != 1:
                R.ob("digest", "path", False, "", span, "an entry can be passed over: a step of the digest feeds %s" % ", ".join(map(show, vals)))
                continue
            el = els.pop()
            if item is not None and item is not el:
                R.ob("digest", "entry", False, "", span, "the digest's steps take different entries")
                continue
            item = el
            p, ent = field(el, None, 0), field(el, None, 1)
            # an entry taken by reference is the entry
            own = {mk("deref", p): p, mk("deref", ent): ent}
            vals, h = [subst(y, own) for y in vals], frozenset(subst(g, own) for g in h)
            data = {y: subst(t, own) for y, t in data.items()}
            dd = flds(R, ent, (NODE, "node"), (DISKNODE, "dirent"))
            R.ob("digest", "path", p in vals, "every entry's path is fed", span, "the path of an entry is not fed to the digest")
            got = [y for y in vals if y in data]
            good = len(got) == 1 and data[got[0]] is dd
            isdirs = [g for g in h if g.op == "bit" and occurs(flds(R, dd, (DISKDATA, "attributes")), g) and bitno(g) == 4]
            empty = prove(I, h, le(region(R, dd)[1], INT(0)))
            R.ob("digest", "data:" + ("file" if got else "none"), good or not got and (bool(isdirs) or empty), "every file's complete data is fed", span,
                 "an entry that is not a directory is passed over, or fed %s" % (", ".join(show(data[y]) for y in got) or "nothing") )
            rest = [y for y in vals if y is not p and y not in got and any(a.op in ("sym", "phi", "elem") for a in allsubs(y))]
            R.ob("digest", "only", not [y for y in rest if not allowed(R, y, el, dd)], "nothing else is fed", span,
                 "the digest also depends on " + ", ".join(map(show, rest)))
    if item is None:
        return
    seq, k = item.args[0], item.args[1]
    R.ob("digest", "all", counter(I, k, facts, seq), "the hashing loop runs over all entries", span, "the hashing loop can stop before the last entry")
    R.ob("order", "sorted", seq.op == "app" and seq.args[0] == "map.iter", "entries are hashed in the order of their paths", span,
         "entries are hashed in the order of %s, not of their paths" % show(seq))
    if seq.op != "app" or not seq.args[0].endswith("map.iter"):
        return
    collected(R, I, norm(I, seq.args[1][0]), facts, span, names, lists)


def bitno(g):
    return int_val(g.args[1]) if isinstance(g.args[1], T) else g.args[1]


def allowed(R, y, el, dd):
    """lengths and kinds say nothing about where an entry lies"""
    bad = {flds(R, dd, (DISKDATA, "data"), (REGION, "sector"))}
    ent = field(el, None, 1)
    bad |= {flds(R, ent, (NODE, "offset")), flds(R, ent, (NODE, "node"), (DISKNODE, "left_entry_offset")), flds(R, ent, (NODE, "node"), (DISKNODE, "right_entry_offset"))}
    whole = {ent, flds(R, ent, (NODE, "node")), flds(R, dd, (DISKDATA, "data"))}
    s = allsubs(y)
    if y in whole or s & bad:
        return False
    return all(t.op != "sym" for t in s)


def collected(R, I, m, facts, span, names, lists):
    if m.op != "phi" or m not in I.phi_info:
        R.ob("collect", "loop", False, "", span, "the entries hashed are %s, not the listing" % show(m))
        return
    for v, f, back in I.phi_info[m].values():
        if not back:
            R.ob("collect", "start", v.op == "app" and v.args[0] == "map.new", "the map starts empty", span, "the map starts as " + show(v))
            continue
        for x, h in alts(I, v, f):
            if not (x.op == "mapins" and x.args[0] is m):
                R.ob("collect", "every", False, "", span, "a listed entry can be left out: the map becomes " + show(x))
                continue
            _, key, val = x.args
            els = [t for t in allsubs(val) if t.op == "elem" and t.args[0] in lists and same_loop(t.args[1], m)]
            good = bool(els) and val is field(els[0], None, 1)
            R.ob("collect", "every", good, "every listed entry is recorded", span, "the entry recorded is " + show(val))
            if not good:
                continue
            el = els[0]
            parts = fmt_parts(key)
            good = parts is not None and len(parts) == 3 and parts[0] is field(el, None, 0) and parts[1] == "/" and \
                parts[2] in names and names[parts[2]] is val
            R.ob("collect", "path", good, "under its parent's path and its own name", span, "an entry is recorded under " + show(key))
            R.ob("collect", "all", counter(I, el.args[1], facts, el.args[0]), "the whole listing is recorded", span,
                 "the listing can be left before its last entry")
