"""No output is left in a buffer.  Typestate analysis of every command that writes files, everything private to the program
inlined: a buffered writer is dirty from its creation and after every call that can write through it, and clean only after
a flush (or unwrapping) of that same writer succeeded; a failed flush must end in an error, and success may not be
reported while a writer is dirty.  Files handed to the compressor, whose closing cannot report an error, may not be
buffered at all."""
from base import *
from rules.c17 import CREATE_IMAGE, PART, SPLIT, LIB, UNWRAP
from rules.c13 import Notes

FLOORS = {"flushed": 5, "unbuffered": 2, "receiver": 2}
CLI = "xdvdfs::"
ROOTS = (CLI + "cmd_pack::cmd_pack", CLI + "cmd_build_image::cmd_build_image", CLI + "cmd_build_image::cmd_image_spec", CLI + "cmd_compress::cmd_compress",
         CLI + "cmd_unpack::cmd_unpack", CLI + "cmd_unpack::cmd_copyout", CLI + "exiso_compat::run_exiso_command")
NEW = tuple("std::io::%s::<W>::%s" % (t, n) for t in ("BufWriter", "LineWriter") for n in ("new", "with_capacity"))
FLUSH = "std::io::Write::flush"
API = (CLI + "img::absolute_path", CLI + "img::open_image_raw", CLI + "img::open_image", CLI + "img::with_extension", CREATE_IMAGE, CLI + "cmd_read::cmd_tree")
CORE = ("xdvdfs::write::", "xdvdfs::read::", "xdvdfs::layout::", "xdvdfs::blockdev::", "<xdvdfs::write::", "<xdvdfs::layout", "<xdvdfs::blockdev")


def check(R):
    for n in API:
        R.fn(n)
    for root in ROOTS:
        tag = root.rsplit("::", 1)[-1]
        writers = set()

        def result(I, st, e, ret):
            m = the_mon(st)
            if e.name in NEW:
                writers.add(mk("sym", "call", e.ctx, e.bb, ("scn", "buffered")))
                return cases(case(I, st, mk("sym", "call", e.ctx, e.bb, ("scn", "buffered")), "dirty"))
            if e.name == FLUSH and m == "dirty" and through(I, st, e):
                return ok_err(I, st, "clean", "failed", tag=(e.ctx, e.bb))
            if e.name in UNWRAP and m == "dirty":
                return ok_err(I, st, "clean", "failed", mk("sym", "call", e.ctx, e.bb, ("scn", "inner")), tag=(e.ctx, e.bb))
            if m == "clean" and through(I, st, e):
                return cases(case(I, st, ret, "dirty"))

        places = set()

        def through(I, st, e):
            """does the call reach a buffered writer by one of its arguments?"""
            hit = False
            for a, s in zip(e.args, e.snap or ()):
                if a.op == "ref" and (any(w in allsubs(s) for w in writers) or (a.args[0], a.args[1]) in places):
                    places.add((a.args[0], a.args[1]))
                    hit = True
            return hit

        def monitor(m, e, st, I):
            if e.kind == "call" and m in ("dirty", "clean"):
                through(I, st, e)

        I = R.analyse(root, opaque=lambda p: p in API or p.startswith(CORE), result=result, monitor=monitor, mon0=("none",), esp=True, cap=600)
        for e in evs(I, FLUSH, *UNWRAP):
            if any(m in ("dirty", "clean", "failed") for m in e.mon):
                R.ob("receiver", tag, through(I, None, e) or e.name in UNWRAP, "the buffered output itself is flushed", where(e), "something other than the buffered output is flushed")
        lost = {}
        for st, v in I.results:
            for x, f in alts(I, v, st.facts):
                if not is_err(x) and the_mon(st) in ("dirty", "failed"):
                    lost[the_mon(st)] = x
        R.ob("flushed", tag, not lost, "success implies every buffer was flushed", R.fn(root).span,
             "%s can succeed although the buffered output %s" % (tag, "was not flushed" if "dirty" in lost else "could not be flushed"))
    # output parts of the compressor
    I = R.analyse(PART, opaque=lambda p: p in API)
    bufs = evs(I, *NEW)
    R.ob("unbuffered", "parts", not bufs, "output parts are written without a buffer", R.fn(PART).span, "an output part is buffered, and closing it cannot report a failed flush")
    C = R.analyse(CLI + "cmd_compress::cmd_compress", opaque=lambda p: p in API or any(x in p for x in LIB), cap=600)
    for e in evs(C, SPLIT):
        fs = e.snap[0]
        R.ob("unbuffered", "output", fs.op == "agg" and fs.args[0] == "xdvdfs::cmd_compress::SplitStdFs", "the parts are created by the analysed creator", where(e), "the parts are created by " + show(fs))
