"""Sector allocation.  Inductive invariant of the allocator by linear-inequality abstract interpretation: from an
arbitrary allocator state and an arbitrary request, a normal return hands out the old next-free sector and advances
next-free by at least one sector, by enough sectors for the request and by no more than needed; the initial state is
sector 33; nothing but the allocator's own methods writes that state; for requests up to 4 GiB no arithmetic can wrap
and only the explicit exhaustion check can stop the allocation.  Hence all extents are disjoint and lie after the
header."""
from base import *
from mir import norm

FLOORS = {"init": 1, "step": 4, "wrap": 1, "owner": 1}
A = "xdvdfs::write::sector::SectorAllocator"
ALLOC = A + "::allocate_contiguous"
REQ = "xdvdfs::write::sector::required_sectors"


def state_field(R):
    a = R.P.adts.get(A)
    if a is None:
        raise MissingAnchor(A, "type not found")
    fs = [i for i, f in enumerate(a["variants"][0]["fields"]) if f["ty"].k == "int"]
    if len(fs) != 1:
        raise MissingAnchor(A, "the allocator's state is no longer a single sector number")
    return fs[0]


def check(R):
    k = state_field(R)
    # initial state
    p = "<%s as std::default::Default>::default" % A
    I = R.analyse(p)
    for st, v in I.results:
        R.ob("init", "default", isint_const(field(v, None, k), 33), "the first free sector is 33", R.fn(p).span,
             "a new allocator starts at sector %s instead of 33" % show(field(v, None, k)))

    span = R.fn(ALLOC).span
    n = 0
    for bounded in (False, True):
        fn = R.fn(ALLOC)
        slf = mk("sym", "param", "self", ty=fn.locals[1])
        b = mk("sym", "param", "bytes", ty=fn.locals[2])
        pre = [le(INT(0), b), le(b, INT(2 ** 32 - 1 if bounded else 2 ** 64 - 1)), le(INT(33), field(mk("deref", slf), None, k))]
        I = R.analyse(ALLOC, args=[slf, b], st=interp.State(mon=frozenset([None]), facts=frozenset(pre)))
        old = field(mk("deref", slf), None, k)
        if bounded:
            for e in evs(I, kind="panic"):
                if e.goal is not None:
                    # stopping is right when the sectors really run out
                    full = all(prove(I, f, le(INT(2 ** 43 - 2048), add(b, scale(old, 2048)))) for _, f in alts(
                        I, tup(*[g.args[0] for g in e.facts if g.op == "le"]), e.facts))
                    R.ob("wrap", e.name, full or prove(I, e.facts, e.goal), "%s cannot happen for a 32-bit size" % e.name, where(e),
                         "the number of sectors of a file of representable size can overflow (%s)" % show(e.goal))
        for st, v in I.results:
            new = field(I.load(st, slf), None, k)
            for t, facts in [c for a in alts(I, tup(v, new), st.facts) for c in mm_cases(*a)]:
                v1, new1 = t.args[2]
                used = sub(new1, v1)
                n += 1
                pr = lambda g: prove(I, facts, g)
                R.ob("step", "first", equal(I, facts, v1, old), "the extent starts at the old next free sector", span,
                     "an allocation starts at %s although the next free sector is %s" % (show(v1), show(old)))
                R.ob("step", "nonempty", pr(le(INT(1), used)), "at least one sector is taken", span,
                     "an allocation of %s bytes advances the next free sector by %s, which can be less than one" % (show(b), show(used)))
                R.ob("step", "enough", pr(le(b, scale(used, 2048))), "the extent covers the request", span,
                     "an allocation of %s bytes takes %s sectors, which may not be enough" % (show(b), show(used)))
                R.ob("step", "exact", pr(le(used, INT(1))) or pr(le(add(scale(used, 2048), INT(-2047)), b)),
                     "no more sectors than needed", span, "an allocation of %s bytes takes %s sectors, more than the size rounded up" % (show(b), show(used)))
                R.ob("wrap", "monotone", pr(le(new1, INT(2 ** 32 - 1))) and pr(le(v1, new1)), "next free sector fits in 32 bits", span,
                     "the next free sector can wrap")
    R.ob("step", "returns", n > 0, "allocation can succeed", span)

    # the shared size computation
    fn = R.fn(REQ)
    I = R.analyse(REQ)
    b = I.rootargs[0]
    for st, v in I.results:
        for x, facts in [c for a in alts(I, v, st.facts) for c in mm_cases(*a)]:
            g = prove(I, facts, le(b, scale(x, 2048))) and prove(I, facts, le(INT(1), x)) and (
                prove(I, facts, le(x, INT(1))) or prove(I, facts, le(add(scale(x, 2048), INT(-2047)), b)))
            R.ob("step", "required", g, "required_sectors rounds up, at least one", fn.span, "required_sectors(%s) = %s is not the byte count rounded up to sectors" % (show(b), show(x)))

    # nobody else changes the allocator's state, and one image uses one allocator
    made = []
    for path, f in R.P.fns.items():
        for what, w in touches(R, f, k):
            R.ob("owner", path + ":" + what, own(path), "%s: %s" % (path, what), w, "%s outside the allocator, in %s" % (what, path))
        for bb, B in enumerate(f.blocks):
            t = B.term
            if t[0] == "call" and isinstance(t[1], dict) and norm(t[1].get("r") or t[1]["p"]) in CTORS and not B.cleanup and not own(path):
                made.append((path, bb, f))
    R.ob("owner", "single", len(made) == 1 and not in_loop(R, *made[0][1:]), "one allocator per image", made[0][2].span if made else "",
         "allocators are created at %s: extents from different allocators overlap" % ", ".join("%s bb%d" % m[:2] for m in made))


CTORS = ("<%s as std::default::Default>::default" % A, A + "::new")


def own(path):
    return path.startswith(A + "::") or path.startswith("<%s as " % A)


def in_loop(R, bb, f):
    seen, todo = set(), list(f.blocks[bb].succ)
    while todo:
        b = todo.pop()
        if b == bb:
            return True
        if b not in seen:
            seen.add(b)
            todo += f.blocks[b].succ
    return False


def touches(R, f, k):
    """direct writes to, mutable borrows of, and constructions of the allocator's state"""
    for B in f.blocks:
        for s in B.stmts:
            if s[0] != "=":
                continue
            if hits(f, s[1], k):
                yield "the allocator's state is written", s[3]
            rv = s[2]
            if rv[0] == "ref" and rv[1] and hits(f, rv[2], k):
                yield "the allocator's state is borrowed mutably", s[3]
            if rv[0] == "agg" and any(isinstance(x, (str, dict, list)) and A in norm(str(x)) for x in rv[1:2]):
                yield "an allocator is constructed", s[3]


def hits(f, pl, k):
    ty = f.locals[pl[0]]
    for e in pl[1:]:
        if e == "*":
            ty = ty.e if ty is not None and not ty.box else (ty.a[0] if ty is not None and ty.a and not isinstance(ty.a[0], str) else None)
        elif e[0] == "f":
            if ty is not None and ty.k == "adt" and ty.p == A and e[1] == k:
                return True
            ty = f.tys[e[2]]
        elif e[0] == "d":
            pass
        else:
            ty = ty.e if ty is not None else None
    return False
