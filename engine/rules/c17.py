"""A source is never an output.  Guard-dominance analysis of the image-creating commands with everything below them inlined:
each call that creates, truncates, renames or removes a file, and each compressor output, is paired with every source its
command opens, and must be dominated by a test on its own resolved path that excludes the source (not below it, not
equal to it, or not existing); both sides of the test must be resolved paths.  The parts of a split output, whose names
are chosen by the compressor, are tested one by one where they are created."""
from base import *
from rules.c08 import path_effect, FS_READ

FLOORS = {"guard": 4, "parts": 2, "resolve": 2, "source": 3, "repack": 3}
IMG = "xdvdfs::img::"
ABS, RAW, EXT = IMG + "absolute_path", IMG + "open_image_raw", IMG + "with_extension"
HOST = "xdvdfs::write::fs::StdFilesystem::create"
CREATE_IMAGE = "xdvdfs::write::img::create_xdvdfs_image"
SPLIT = "ciso::split::SplitOutput::<E, H, S>::new"
PART = "<xdvdfs::cmd_compress::SplitStdFs as ciso::split::SplitFilesystem<std::io::Error, std::fs::File>>::create_file"
ROOTS = ("xdvdfs::cmd_pack::cmd_pack", "xdvdfs::cmd_compress::cmd_compress", "xdvdfs::exiso_compat::run_exiso_command")
OTHER = ("xdvdfs::cmd_read::cmd_tree", "xdvdfs::cmd_unpack::cmd_unpack")  # other modes of the compatibility front end
SL = "xdvdfs::write::fs::"
UNWRAP = ("std::io::BufWriter::<W>::into_inner", "std::io::LineWriter::<W>::into_inner")    # these flush, too
LIB = (SL + "SectorLinear", SL + "CisoSector", SL + "XDVDFSFilesystem")


def last(t):
    return t.args[0].rsplit("::", 1)[-1] if t.op == "app" else None


def check(R):
    for n in (ABS, RAW, EXT, HOST, CREATE_IMAGE):
        R.fn(n)
    parts_source = set()
    for root in ROOTS:
        kw = dict(opaque=lambda p: p in (ABS, RAW, EXT, HOST, CREATE_IMAGE) + OTHER or any(x in p for x in LIB), cap=600)
        I = R.analyse(root, **kw)
        tag = root.rsplit("::", 1)[-1]
        resolved = res_of(I)
        ext = {e.ret: e for e in evs(I, EXT)}
        renames = evs(I, "std::fs::rename")
        sources = [(e, e.snap[0]) for e in evs(I, RAW, HOST)]
        for x, s in sources:
            canon = s in resolved or s in ext and ext[s].snap[0] in resolved
            R.ob("source", tag + ":resolved", canon, "the source path is resolved", where(x), "the source %s is not a resolved path" % show(s))
        todo = []
        for e in I.events():
            if e.kind != "call":
                continue
            if e.name in ("std::fs::rename", "std::fs::remove_file"):
                repack(R, I, tag, e, resolved, ext, renames)
                continue
            p = e.snap[1] if e.name == SPLIT else path_effect(e)
            if p is None:
                if (e.name or "").startswith("std::fs::") and not e.name.startswith(FS_READ) and e.name != "std::fs::OpenOptions::open":
                    R.ob("guard", "%s:unknown:%s" % (tag, e.name), False, "", where(e), "%s may change the source" % e.name)
                continue
            # sources of the same run: those opened before or after the call
            ps = [s for x, s in sources if e.id in x.may or e.id in x.must or x.id in e.may]
            R.ob("guard", "%s:%s:paired" % (tag, e.name), bool(ps), "the output belongs to a source", where(e), "%s writes in a run without a known source" % e.name)
            for s in ps:
                todo.append((e, p, s))
                if e.name == SPLIT:
                    fs = e.snap[0]
                    held = [i for i, a in enumerate(fs.args[2]) if cong(I, a, s)] if fs.op == "agg" else []
                    parts_source |= set(held)
                    R.ob("parts", tag + ":source", bool(held), "the creator of output parts knows the source", where(e), "the parts of the output are created without knowing the source")
        if renames or evs(I, "std::fs::remove_file"):
            repacked(R, root, kw)
        guarded(R, "guard", tag, root, kw, I, todo, lambda I, a, s: cong(I, a, s), {x.snap[0] for x in evs(I, HOST)})
    # parts of a split output

    def own(I, t, s):
        """the source the creator holds"""
        return t.op == "field" and t.args[2] in parts_source and any(a.op == "sym" and a.args[0] == "param" for a in allsubs(t))

    kw = dict(opaque=lambda p: p in (ABS, EXT))
    P = R.analyse(PART, **kw)
    guarded(R, "parts", "create_file", PART, kw, P, [(e, path_effect(e), UNIT) for e in P.events() if e.kind == "call" and path_effect(e) is not None], own)
    resolve(R)


def res_of(I):
    out = {}
    for e in evs(I, ABS):
        out.setdefault(field(e.ret, 0, 0), []).append(e)
    return out


def not_dir(I, facts, s):
    """do the facts say that the source is not a directory?"""
    for f in facts:
        g = f.args[0] if f.op == "not" else f
        if last(g) == ("is_dir" if f.op == "not" else "is_file"):
            for a in allsubs(g):
                if cong(I, a, s) or any(a is x.ret and cong(I, x.snap[0], s) for x in evs(I, "std::fs::metadata")):
                    return True
    return False


def excluded(I, res, facts, path, s, is_source, hosts=()):
    """do the facts exclude that path resolves to the source s or something below it?"""
    single = s not in hosts or not_dir(I, facts, s)
    def same(r):
        return r in res and any(cong(I, x.snap[0], path) for x in res[r])

    for f in facts:
        if f.op != "not":
            continue
        g = f.args[0]
        if last(g) == "starts_with" and same(g.args[1][0]) and is_source(I, g.args[1][1], s):
            return True
        if not single:
            continue    # inside a source directory nothing may be created at all
        if any(g is x.ret and cong(I, x.snap[0], path) for x in evs(I, "std::path::Path::exists")):
            return True
        if g.op == "eqv" and any(is_source(I, a, s) and same(b) for a, b in (g.args, g.args[::-1])):
            return True
    return False


def guarded(R, rule, tag, root, kw, I, todo, is_source, hosts=()):
    """every effect in todo = (event, path, source) is dominated by a test excluding the source; where the joined facts do
    not show it, the tests passed on each path are tracked separately"""
    res = res_of(I)
    bad = [t for t in todo if not all(excluded(I, res, f, t[1], t[2], is_source, hosts) for f in case_facts(I, t[0].facts))]
    if bad:
        pairs = sorted({(p, s) for e, p, s in bad}, key=repr)

        def learned(m, st, J):
            new = m | {k for k, (p, s) in enumerate(pairs) if k not in m and excluded(I, res, st.facts, p, s, is_source, hosts)}
            return [new] if new != m else None

        def monitor(m, e, st, J):
            return [frozenset()] if e.kind == "iter" and m else None

        J = R.analyse(root, learned=learned, monitor=monitor, mon0=(frozenset(),), esp=True, **kw)
        bad = [t for t in bad if not all(pairs.index((t[1], t[2])) in m for x in J.events() if (x.kind, x.name, x.ctx, x.bb) == (t[0].kind, t[0].name, t[0].ctx, t[0].bb) and t[1] in (x.snap or ()) for m in x.mon)]
    for t in todo:
        e = t[0]
        R.ob(rule, "%s:%s" % (tag, e.name), t not in bad, "the output cannot be the source", where(e),
             "%s may act on the source%s, or inside it: no test on the resolved output path excludes that" % (e.name, "" if t[2] is UNIT else " " + show(t[2])))


def repack(R, I, tag, e, resolved, ext, renames):
    """repacking moves its input aside, and removes it only when asked to and after the new image is complete"""
    if e.name == "std::fs::rename":
        a, b = e.snap[:2]
        R.ob("repack", "rename", a in resolved and b in ext and ext[b].snap[0] is a and str_val(ext[b].snap[1]) == "old", "the input is only moved to its .old name", where(e),
             "%s is moved to %s" % (show(a), show(b)))
        return
    mine = [x for x in renames if x.snap[1] is e.snap[0] and x.id in e.must]
    asked = any(f.op == "field" and any(a.op == "sym" and a.args[0] == "param" for a in allsubs(f)) for f in e.facts)
    R.ob("repack", "remove", bool(mine) and asked, "only the moved input is removed, when asked to", where(e), "%s is removed%s" % (show(e.snap[0]), "" if asked else " without being asked to"))


def repacked(R, root, kw):
    """the moved input is removed only after the new image was created and flushed"""
    FLUSH = "std::io::Write::flush"

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name in (CREATE_IMAGE, FLUSH) + UNWRAP:
            nxt = m if m == "failed" else "created" if e.name == CREATE_IMAGE else "complete" if m in ("created", "complete") else m
            return ok_err(I, st, nxt, "failed", tag=e.bb)

    def monitor(m, e, st, I):
        return ["start"] if e.kind == "call" and e.name == "std::fs::rename" else None

    I = R.analyse(root, result=result, monitor=monitor, mon0=("start",), esp=True, **kw)
    for e in evs(I, "std::fs::remove_file"):
        R.ob("repack", "after", all(m == "complete" for m in e.mon), "the input is removed only after the new image is complete", where(e),
             "the input is removed although the new image %s" % ("failed" if "failed" in e.mon else "may be incomplete"))


def resolve(R):
    """resolved paths: links are followed, and the path is made absolute when that is not possible"""
    CAN, MADE = "std::fs::canonicalize", "std::path::absolute"

    def result(I, st, e, ret):
        if e.name == CAN:
            return ok_err(I, st, "canon", "fallback", mk("sym", "call", e.ctx, e.bb, ("scn", "canon")))
        if e.name == MADE:
            return ok_err(I, st, the_mon(st), "failed", mk("sym", "call", e.ctx, e.bb, ("scn", "made")))

    I = R.analyse(ABS, result=result, mon0=("start",), esp=True)
    for e in evs(I, CAN, MADE):
        R.ob("resolve", e.name, any(a.op == "sym" and a.args[0] == "param" for a in allsubs(e.snap[0])), "the given path is resolved", where(e), "%s is resolved instead of the given path" % show(e.snap[0]))
    for st, v in I.results:
        for x, f in alts(I, v, st.facts):
            m = the_mon(st)
            want = {"canon": "canon", "fallback": "made"}.get(m)
            good = is_err(x) if want is None else is_ok(x) and any(a.op == "sym" and a.args[-1] == ("scn", want) for a in allsubs(x))
            R.ob("resolve", m, good, "links are followed where possible", R.fn(ABS).span, "a resolved path is %s when canonicalize gives %s" % (show(x), m))
    O = R.analyse(RAW, opaque=lambda p: "OffsetWrapper" in p)
    for e in O.events():
        if e.kind == "call" and (e.name or "").startswith("std::fs::"):
            R.ob("source", "read-only", path_effect(e) is None, "the source image is opened for reading", where(e), "the source image is opened for writing")
