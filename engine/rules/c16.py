"""No failure is swallowed.  Error-discipline analysis of every function of the three crates that returns a Result: each
call that can fail (a Result, or an item of a fallible iterator) is made to fail, workspace callees included, and the
failure must come out as an error on every path; failures of pure conversions are tracked through the branches that
test them.  The program entry points must turn an error into a non-zero exit status."""
from base import *
import interp

RES, OPT = "std::result::Result", "std::option::Option"
FLOORS = {"swallow": 100, "sites": 150, "exit": 3}
GENERATED = ("serde", "clap", "<<", "{closure", "::fmt::", "::clone::Clone>", "::error::Error>", "::hash::Hash>", "::cmp::")
# operations the code has a second way of doing; the second way is itself subject to the rule
FALLBACK = {
    "std::fs::canonicalize": "the path is made absolute without resolving links",
    "std::fs::File::try_clone": "the file is read through the image device",
    "std::fs::Metadata::accessed": "a host without this time stamp reports the epoch",
    "std::fs::Metadata::modified": "a host without this time stamp reports the epoch",
    "std::fs::Metadata::created": "a host without this time stamp reports the epoch",
}
# functions whose very purpose is to survive failures, decided by another property
ELSEWHERE = {"xdvdfs::blockdev::OffsetWrapper::<T>::new": "C02 (partition probe)"}
HARMLESS = ("std::fmt::Write::", "std::fmt::Formatter", "core::fmt::")
ENTRY = (("xdvdfs::main", ("xdvdfs::run_command", "xdvdfs::exiso_compat::run_exiso_command")),
         ("xdvdfsd::main", ("xdvdfsd::run_mount_program",)))


def res_ty(t):
    return t is not None and t.k == "adt" and t.p == RES


def gives_result(P, n):
    t = P.fns[n].locals[0]
    if res_ty(t):
        return True
    if t.k == "coroutine":
        c = P.fns.get(n + "::{closure#0}")
        return c is not None and res_ty(c.locals[0])
    return "Future<Output = std::result::Result" in t.s


def injector(sites, keep=lambda n: True):
    def result(I, st, e, ret):
        t = ret.ty
        m = the_mon(st)
        fallible = res_ty(t) or t is not None and t.k == "adt" and t.p == OPT and res_ty(t.a[0])
        if not fallible or e.name.startswith(HARMLESS) or not keep(e.name):
            return None
        sites.add((e.fn, e.span, e.name))
        inner = (t if res_ty(t) else t.a[0]).a
        x = mk("sym", "call", e.ctx, e.bb, ("scn", "v"), ty=inner[0] if inner else None)
        y = mk("sym", "call", e.ctx, e.bb, ("scn", "e"))
        bad = m if e.name in FALLBACK else m or e.name
        if res_ty(t):
            return cases(case(I, st, ok(x), m), case(I, st, err(y), bad))
        return cases(case(I, st, NONE, m), case(I, st, some(ok(x)), m), case(I, st, some(err(y)), bad))
    return result


def learned(m, st, I):
    """a branch on a Result computed without a call that could be made to fail"""
    if m:
        return None
    for f in st.facts:
        if f.op == "isvar" and f.args[1] == 1 and res_ty(f.args[0].ty) and f.args[0].op in ("app", "sym", "field") and not (
                f.args[0].op == "app" and f.args[0].args[0] in FALLBACK):
            return ["the failed " + show(f.args[0])]
    return None


def failure(v):
    """v reports a failure to the caller"""
    return is_err(v) or v.op == "agg" and v.args[0] == OPT and (v.args[1] == 0 or failure(v.args[2][0]))


def check(R):
    P = R.P
    roots = [n for n in sorted(P.fns) if n.startswith(("xdvdfs", "<xdvdfs", "<")) and not any(x in n for x in GENERATED) and
             not n.startswith("models::") and gives_result(P, n)]
    rs = set(roots)
    sites, skipped = set(), []
    for n in roots:
        if n in ELSEWHERE:
            continue
        try:
            I = R.analyse(n, result=injector(sites), opaque=lambda p: p in rs and p != n, learned=learned, mon0=(None,), esp=True, cap=600)
        except interp.AnalysisError as ex:
            skipped.append("%s: %s" % (n, ex))
            continue
        lost = {}
        for st, v in I.results:
            m = the_mon(st)
            if m and not all(failure(x) for x, f in alts(I, v, st.facts)):
                lost[m] = v
        R.ob("swallow", n, not lost, "every failure comes out as an error", R.fn(n).span,
             "%s can return %s although %s failed" % (n, ", ".join(sorted({show(v) for v in lost.values()})), ", ".join(sorted(lost))))
    for s in sorted(sites):
        R.ob("sites", "%s|%s" % (s[0], s[2]), True, "failure injected", s[1])
    R.extra["not_analysed"] = skipped
    R.extra["decided_elsewhere"] = ELSEWHERE
    R.extra["fallbacks"] = FALLBACK
    for n, run in ENTRY:
        wrong = []

        def monitor(m, e, st, I):
            if m and e.kind == "call" and e.name == "std::process::exit":
                c = int_val(e.args[0])
                wrong.append((e, c is not None and c % 256 != 0))

        I = R.analyse(n, result=injector(set(), lambda c: c in run), opaque=lambda p: p in run, monitor=monitor, mon0=(None,), esp=True, cap=600)
        ran = {e.name for e in I.events() if e.kind == "call"} & set(run)
        R.ob("exit", n + ":runs", ran == set(run), "the commands are run", R.fn(n).span, "%s does not run %s" % (n, ", ".join(set(run) - ran)))
        R.ob("exit", n + ":status", not any(the_mon(st) for st, v in I.results), "a failed command does not return normally", R.fn(n).span,
             "%s returns normally, with exit status 0, although the command failed" % n)
        for e, good in wrong:
            R.ob("exit", n + ":code", good, "the exit status after a failure is not 0", where(e), "a failed command exits with status " + show(e.args[0]))
