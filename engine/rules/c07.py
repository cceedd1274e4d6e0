"""Panic freedom of reading.  Every entry point through which image content is read (library, command line, fuse callbacks)
is interpreted from unconstrained arguments and an unconstrained device; every assertion, unwrap, index, slice, copy-length
and arithmetic-overflow check reached is an obligation over linear arithmetic.  Facts that span rounds of a loop
or calls of an iterator are found as an inductive set: candidates are assumed at the loop heads and iterator entries and
dropped until all that remain are established by the constructor and preserved by every path.  Functions on the list are
opaque to each other, since each is decided for every argument.  Recursion is refused (its depth would be chosen by the image)."""
from rules.dirent import *
from rules.scan import SCAN, NEXT, ITER
from lib import simp

L = "xdvdfs::layout::"
B = "xdvdfs::blockdev::"
OFFW = B + "OffsetWrapper"
CORE_ROOTS = [
    "xdvdfs::read::read_volume", "xdvdfs::read::<impl xdvdfs::layout::VolumeDescriptor>::root_dirent", W + "walk_path", W + "walk_dirent_tree", W + "file_tree", SCAN, NEXT,
    DISKDATA + "::read_data", DISKDATA + "::read_data_all", DISKDATA + "::read_data_offset", DISKDATA + "::seek_to", NODE + "::name_str", NODE + "::name_slice",
    "xdvdfs::util::cmp_ignore_case_utf8", "xdvdfs::checksum::checksum", "<[u8] as %sBlockDeviceRead>::read" % B, OFFW + "::<T>::new", "<%s<T> as %sBlockDeviceRead>::read" % (OFFW, B),
    "<%s<T> as std::io::Seek>::seek" % OFFW, L + "VolumeDescriptor::deserialize", L + "VolumeDescriptor::is_valid", DISKNODE + "::deserialize",
    "<%sDirentAttributes as std::fmt::Display>::fmt" % L, "<xdvdfs::util::Error<E> as std::fmt::Display>::fmt",
]
FS = "xdvdfs::write::fs::xdvdfs::XDVDFSFilesystem"
REPACK = ["%s::<D, W, Copier>::new" % FS, "<%s<D, W, Copier> as xdvdfs::write::fs::FilesystemHierarchy>::read_dir" % FS,
          "<%s<D, W, Copier> as xdvdfs::write::fs::FilesystemCopier<W>>::copy_file_in" % FS]
CLI = ["xdvdfs::img::open_image", "xdvdfs::cmd_read::cmd_ls", "xdvdfs::cmd_read::cmd_tree", "xdvdfs::cmd_md5::cmd_md5", "xdvdfs::cmd_info::cmd_info", "xdvdfs::cmd_unpack::cmd_unpack",
       "xdvdfs::cmd_unpack::cmd_copyout", "xdvdfs::cmd_read::cmd_checksum"]
FUSE = "<xdvdfsd::img_fs::FuseFilesystem as fuser::Filesystem>::"
FSD = ["xdvdfsd::img_fs::FuseFilesystem::new"] + [FUSE + n for n in ("lookup", "getattr", "open", "opendir", "read", "readdir", "access")]
ROOTS = CORE_ROOTS + REPACK + CLI + FSD
FAR = 1 << 45       # no position in an image is further out: 2^32 sectors and 2^32 bytes
WRAP = 1 << 40      # nor is a partition
MAXLEN = (1 << 63) - 1
# functions of std that panic on some arguments and that the engine does not model with an obligation
PANICKY = set("""Vec::remove Vec::swap_remove Vec::insert Vec::split_off Vec::drain Vec::splice String::remove String::insert String::insert_str String::split_off
String::drain String::replace_range slice::copy_within slice::swap_with_slice slice::rotate_left slice::rotate_right slice::chunks slice::chunks_exact slice::windows
str::split_at RefCell::borrow RefCell::borrow_mut Iterator::step_by VecDeque::remove char::from_digit ArrayString::push ArrayString::push_str ArrayVec::push
Duration::from_secs_f64 Instant::duration_since hint::unreachable_unchecked i64::pow u64::pow u32::pow usize::pow num::pow num::ilog2 num::ilog10 num::ilog""".split())
BY_SIZE = ("slice::chunks", "slice::chunks_exact", "slice::chunks_mut", "slice::windows", "slice::rchunks", "Iterator::step_by")    # only a size of zero panics
PANICKY -= {"slice::rotate_left"}
FLOORS = {"panic": 60, "far": 5, "root": len(ROOTS), "iter": 4, "fits": 2, "recursion": len(ROOTS)}


def short(p):
    return "::".join(simp(p).split("::")[-2:])


def len_facts(terms):
    out = set()
    for t in terms:
        for a in allsubs(t):
            if a.op == "len":
                out |= {le(INT(0), a), le(a, INT(MAXLEN))}
    return out


def prefix(f):
    """(text, length) when the fact says that the text starts with something of that length"""
    if f.op == "app" and str(f.args[0]).endswith("starts_with") and len(f.args[1]) == 2:
        v, p = f.args[1]
        c = int_val(p)
        if c is None:
            return v, length(p)
        if 0 <= c < 128:
            return v, INT(1)
    return None


def lib_facts(facts):
    """how many parts a text splits into, and how long a digest is"""
    out = set()
    for f in facts:
        w = prefix(f)
        if w:
            out.add(le(w[1], length(w[0])))
        for a in allsubs(f):
            if a.op == "len" and a.args[0].op == "app":
                n = str(a.args[0].args[0])
                s = a.args[0].args[1][0] if a.args[0].args[1] else None
                if n.endswith("::split_terminator") and (notb(eq(length(s), INT(0))) in facts or lt(INT(0), length(s)) in facts):
                    out.add(le(INT(1), a))
                elif n.endswith("::split"):
                    out.add(le(INT(1), a))
                elif n.endswith("sha3::finalize") or n.endswith("sha3::Digest::finalize"):
                    out.add(eq(a, INT(32)))
    return out


class Loops:
    """inductive facts about loop-carried values"""

    def __init__(self, I, base, entry=None):
        self.I = I
        self.base = set(base)           # always true (facts about arguments)
        self.H = set()
        self.info = {}
        for p in I.phi_info:
            if any(b for _, _, b in I.phi_info[p].values()):
                self.info.setdefault(p.args[:2], []).append(p)

    def loop_of(self, c):
        ls = {a.args[:2] for a in allsubs(c) if a.op == "phi" and a.args[:2] in self.info and a in self.info[a.args[:2]]}
        return ls

    def known(self, facts, goal, own=None, start=False):
        """what is known at a point: an invariant only of loops that were entered on the way there, which are those
        whose values the facts or the goal mention (own: at the end of a round of this loop; start: on its way in)"""
        f = frozenset(facts) | self.base
        ls = {l for t in f | {goal} for l in self.loop_of(t)}
        if own is not None:
            ls = ls - {own} if start else ls | {own}
        f |= {h for h in self.H if self.loop_of(h) <= ls}
        f |= len_facts(list(f) + [goal]) | lib_facts(f)
        return f

    def prove(self, facts, goal, own=None, start=False):
        f = self.known(facts, goal, own, start)
        if goal is FALSE:
            return entail.inconsistent(f) or clash(f)
        return prove(self.I, f, goal)

    def edges(self, loop):
        eds = {}
        for p in self.info[loop]:
            for ed, (v, f, b) in self.I.phi_info[p].items():
                m, fs, back = eds.setdefault(ed, ({}, set(), b))
                m[p] = v
                fs |= f
        return eds

    def holds(self, c):
        """c, assumed with the others at the loop's head, holds again at the end of every round and at the start"""
        for loop in self.loop_of(c):
            for ed, (m, f, back) in self.edges(loop).items():
                g = subst(c, m)
                if g is not c and not self.prove(f, g, loop, not back):
                    return False
        return True

    def infer(self, cands):
        self.H = {c for c in cands if self.loop_of(c)}
        while True:
            bad = {c for c in self.H if not self.holds(c)}
            if not bad:
                return
            self.H -= bad


def atoms_of(goal):
    """the inequalities a goal consists of"""
    if goal.op == "andb":
        return [x for g in goal.args for x in atoms_of(g)]
    return [goal] if goal.op in ("le", "eq") else []


def counter(I, x, own, depth=6):
    """a 64-bit count: it starts at an argument or a constant and goes up by less than 2^33 at a time"""
    if depth == 0:
        return False
    if int_val(x) is not None:
        return True
    if x.op == "sym" and x.args[0] == "param":
        return True
    if x.op == "phi" and x in I.phi_info:
        return all(steps_from(I, v, x, f) or not occurs(x, v) and counter(I, v, own, depth - 1) for v, f, _ in I.phi_info[x].values())
    if x.op == "field":
        # a member of the long-lived object
        b = x
        while b.op == "field":
            b = b.args[0]
        return own and (b.op == "deref" and b.args[0] is I.rootargs[0] or b.op in ("phi", "hav") and from_self(I, b))
    return False


def from_self(I, b, seen=None):
    """the object behind self, as changed by this function"""
    seen = set() if seen is None else seen
    if b in seen:
        return False
    seen.add(b)
    if b.op == "deref":
        return b.args[0] is I.rootargs[0]
    if b.op == "sym":
        return b.args[0] == "hv"        # the object after a call that was given it
    if b.op in ("hav", "upd"):
        return from_self(I, b.args[0], seen)
    if b.op == "agg":
        return any(y.op == "field" and from_self(I, y.args[0], seen) for y in b.args[2])
    if b.op == "phi" and b in I.phi_info:
        return any(from_self(I, v, seen) for v, _, _ in I.phi_info[b].values())
    return False


def steps_from(I, v, x, facts, depth=4):
    """v is x or x plus something small, whichever way it was reached"""
    if v is x:
        return True
    if v.op == "phi" and v in I.phi_info and depth and not any(b for _, _, b in I.phi_info[v].values()):
        return all(steps_from(I, y, x, facts | f, depth - 1) for y, f, _ in I.phi_info[v].values())
    d = sub(v, x)
    return not occurs(x, d) and prove(I, facts, le(d, INT(1 << 33))) and prove(I, facts, le(INT(0), d))


def is_count(I, e, own):
    """the addition checked here only counts"""
    if not e.name.startswith("assert:overflow:Add") or len(e.snap) != 2:
        return False
    x, y = e.snap
    # 64 bits: the bound in the goal
    if not any(abs(t.args[0].args[0] if t.args[0].op == "lin" else 0) >= (1 << 62) for t in atoms_of(e.goal)):
        return False
    for a, b in ((x, y), (y, x)):
        if counter(I, a, own) and prove(I, e.facts, le(b, INT(1 << 33))) and prove(I, e.facts, le(INT(0), b)):
            # it must be the loop's own count (or a member's) that is stepped, by a small constant or an entry's size
            return a.op in ("phi", "field")
    return False


def boundary(e):
    """a text is cut where something was found in it, or after something it starts with"""
    if e.name != "assert:char_boundary":
        return False
    for w in filter(None, map(prefix, e.facts)):
        if w[1] is e.snap[1] and (w[0] is e.snap[0] or e.snap[0].op == "deref" and e.snap[0].args[0] is w[0]):
            return True
    return any(a.op == "app" and "find" in str(a.args[0]) for a in allsubs(e.snap[1]))


def arg_only(I, e):
    """depends on the command line alone"""
    ts = list(e.snap or ()) or [e.goal]
    at_ = [a for t in ts for a in allsubs(t) if a.op in ("sym", "phi", "hav")]
    return bool(at_) and all(a.op == "sym" and a.args[0] == "param" for a in at_)


def discharge(R, I, root, lo, args_free=False):
    """every panic site of one entry point"""
    todo = [e for e in evs2(I)]
    lo.infer(set(lo.H) | {le(p, INT(FAR)) for _, p in positions(I)} | {a for e in todo for a in atoms_of(e.goal)} | {neg for e in todo for f in e.facts for neg in negs(e, f)})
    n = {}
    for e in todo:
        k = e.name.split(":", 1)[1]
        good = lo.prove(e.facts, e.goal) or is_count(I, e, root in FSD) or boundary(e) or args_free and arg_only(I, e)
        if e.name == "panic:unreachable" and not good:
            good = entail.inconsistent(lo.known(e.facts, FALSE))
        fn = short(e.fn.path if hasattr(e.fn, "path") else str(e.fn))
        R.ob("panic", "%s:%s:%s" % (short(root), fn, k), good, "%s cannot fail in %s" % (k, fn), where(e),
             "reading an image can stop with a panic here (%s %s)" % (k, ", ".join(show(s)[:80] for s in (e.snap or ())[:3])))
    R.ob("recursion", short(root), not I.recursions, "no recursion", R.fn(root).span, "%s recurses, as deep as the image says" % ", ".join(map(short, I.recursions)))
    for p in [root] + sorted(I.inlined):
        f = R.P.fns.get(p)
        for b in (f.blocks if f is not None else ()):
            if b.term and b.term[0] == "call" and "p" in b.term[1] and not b.cleanup:
                c = simp(interp.norm(b.term[1]["p"]))
                k = "::".join(c.split("::")[-2:])
                sizes = [a[1]["v"].get("int") for a in b.term[2] if a[0] == "k" and isinstance(a[1].get("v"), dict)]
                if k in PANICKY and not (k in BY_SIZE and any(n is not None and int(n) > 0 for n in sizes)):
                    R.ob("panic", "%s:%s" % (short(root), c), False, "", b.span, "reading calls %s, which panics on some arguments" % c)


def negs(e, f):
    """an assertion that fails under f is impossible when f's negation is an invariant"""
    if e.goal is FALSE and f.op == "le":
        return [notb(f)]
    return []


def evs2(I):
    return [e for e in I.events() if e.kind == "panic"]


def positions(I):
    for e in evs(I, READ, SEEK):
        p = e.args[1]
        if p.op == "agg":       # SeekFrom
            if p.args[1] != 0:
                continue
            p = p.args[2][0]
        yield e, p


def far(R, I, root, lo):
    for e, p in positions(I):
        R.ob("far", short(root), lo.prove(e.facts, le(p, INT(FAR))), "positions lie within the largest possible image", where(e),
             "a position %s can be beyond any image, where adding the partition's offset overflows" % show(p)[:200])


SEEK = "std::io::Seek::seek"


def opaque(root):
    others = set(ROOTS) - {root}
    if root == OFFW + "::<T>::new":
        return lambda p: False
    return lambda p: p == READ or p in others


def check(R):
    R.extra["entry points"] = len(ROOTS)
    fields = None
    cands = []
    for root in ROOTS:
        if R.P.fns.get(root) is None and R.P.alias(root) is None:
            R.ob("root", short(root), False, "", "", "the entry point %s is gone" % root)
            continue
        R.ob("root", short(root), True, "analysed", R.fn(root).span)
        kw = {}
        I = R.analyse(root, opaque=opaque(root), esp=True, cap=600)
        base = set()
        a = I.rootargs
        if root == SCAN:
            cands, fields = iterator(R, I)
        if root == NEXT:
            nxt(R, I, root, cands, fields)
            continue
        if root.startswith("<" + OFFW):
            base = wrapper_facts(R, I, root)
        lo = Loops(I, base)
        discharge(R, I, root, lo, args_free=root in CLI)
        if root in CORE_ROOTS and not root.startswith("<"):
            far(R, I, root, lo)
        if root == OFFW + "::<T>::new":
            for st, v in I.results:
                if is_ok(v):
                    o = field(payload(v), None, R.field(OFFW, "offset"))
                    R.ob("fits", "wrapper", all(lo.prove(f, le(x, INT(WRAP))) for x, f in alts(I, o, st.facts)), "a partition starts within reach", R.fn(root).span, "an image's partition can be taken to start at " + show(o))
    made(R, OFFW, [OFFW + "::<T>::new"])


def wrapper_facts(R, I, root):
    slf = mk("deref", I.rootargs[0])
    out = {le(field(slf, None, R.field(OFFW, "offset")), INT(WRAP)), le(INT(0), field(slf, None, R.field(OFFW, "offset")))}
    p = I.rootargs[1]
    if root.endswith("seek"):
        p = field(p, 0, 0)
    return out | {le(p, INT(FAR)), le(INT(0), p)}


def made(R, adt, fns):
    """values of a type are only made in these functions"""
    ok = set(fns)
    callers = {}
    for p, f in R.P.fns.items():
        for b in f.blocks:
            if b.term and b.term[0] == "call" and "p" in b.term[1]:
                callers.setdefault(interp.norm(b.term[1]["p"]), set()).add(p.split("::{closure")[0])
    grown = True
    while grown:                        # and helpers only they call
        more = {p for p, c in callers.items() if p in R.P.fns and c <= ok | {p}} - ok
        grown = bool(more)
        ok |= more
    for p, f in R.P.fns.items():
        base_ = p.split("::{closure")[0]
        if base_ in ok or f.derived:
            continue
        for b in f.blocks:
            for s in b.stmts:
                if s[0] == "=" and s[2][0] == "agg" and isinstance(s[2][1], (list, tuple)) and len(s[2][1]) > 1 and s[2][1][0] == "adt" and interp.norm(str(s[2][1][1])) == adt:
                    R.ob("fits", "made:" + short(p), False, "", b.span, "%s makes a %s of its own" % (short(p), short(adt)))
    R.ob("fits", "made:" + short(adt), True, "values are made by %s only" % ", ".join(map(short, fns)), "")


def iterator(R, I):
    """what holds of a new iterator, among the templates"""
    a = R.P.adts[ITER]["variants"][0]["fields"]
    its = [x for st, v in I.results if is_ok(v) for x in alts(I, payload(v), st.facts)]
    x0 = its[0][0]
    ints = [i for i, y in enumerate(x0.args[2]) if y.op in ("lin", "int", "div", "field") or int_val(y) is not None] if x0.op == "agg" else []
    ints = sorted(set(ints) | {i for x, f in its if x.op == "agg" for i, y in enumerate(x.args[2]) if int_val(y) is not None})
    tm = []
    for i in ints:
        tm += [lambda x, i=i: le(INT(0), field(x, None, i)), lambda x, i=i: le(field(x, None, i), INT(2033)), lambda x, i=i: le(field(x, None, i), INT(1 << 33))]
        tm += [lambda x, i=i, j=j: le(field(x, None, i), field(x, None, j)) for j in ints if j != i]
    lo = Loops(I, ())
    good = [t for t in tm if all(lo.prove(f, t(x)) for x, f in its)]
    made(R, ITER, [SCAN])
    return good, ints


def nxt(R, I, root, tm, fields):
    me0 = mk("deref", I.rootargs[0])
    tm = list(tm)
    todo = evs2(I)
    extra = {a for e in todo for a in atoms_of(e.goal)} | {n for e in todo for f in e.facts for n in negs(e, f)}
    while True:
        lo = Loops(I, {t(me0) for t in tm})
        ps = {p for l in lo.info.values() for p in l}
        structs = {t.args[0] for f in [g for e in todo for g in list(e.facts) + [e.goal]] for t in allsubs(f) if t.op == "field" and t.args[0] in ps}
        cands = {t(p) for t in tm for p in structs}
        # the same about values kept outside the object, and kept values against the object's
        lo.infer(cands | extra)
        bad = []
        for t in tm:
            for st, v in I.results:
                me1 = I.read(st, ("D", I.rootargs[0]), ())
                if not all(lo.prove(f, t(x)) for x, f in alts(I, me1, st.facts)):
                    bad.append(t)
                    break
        if not bad:
            break
        tm = [t for t in tm if t not in bad]
    R.ob("iter", "invariants", bool(tm), "", R.fn(root).span, "no fact about the iterator is preserved")
    for t in tm:
        R.ob("iter", "kept:" + show(t(me0)), True, "established by the constructor and preserved by every step: " + show(t(me0)), R.fn(root).span)
    discharge(R, I, root, lo)
    far(R, I, root, lo)
