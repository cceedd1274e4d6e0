"""Shared by the directory-reading rules: case splits for reading one on-disk entry."""
from base import *

W = "xdvdfs::read::<impl xdvdfs::layout::DirectoryEntryTable>::"


def at(e, tag, ty=None):
    """a fresh value produced at call site e (forgotten when the site is executed again)"""
    return mk("sym", "call", e.ctx, e.bb, ("scn",) + tuple(tag), ty=ty)


class Entry:
    """terms of one entry read at a deserialisation site"""

    def __init__(self, R, e, lk, rk):
        u16 = int_ty(R, "u16")
        self.left = {"0": INT(0), "f": INT(0xffff)}.get(lk) or at(e, ("L", lk, rk), u16)
        self.right = {"0": INT(0), "f": INT(0xffff)}.get(rk) or at(e, ("R", lk, rk), u16)
        f = R.P.adts[DISKNODE]["variants"][0]["fields"]
        dt = [x["ty"] for x in f if x["name"] == "dirent"][0]
        self.data = at(e, ("D", lk, rk), dt)
        vals = {"left_entry_offset": self.left, "right_entry_offset": self.right, "dirent": self.data}
        for n in vals:
            R.field(DISKNODE, n)
        self.node = agg(DISKNODE, 0, [vals[x["name"]] for x in f])
        self.namelen = flds(R, self.data, (DISKDATA, "filename_length"))
        self.facts = []
        for k, v in ((lk, self.left), (rk, self.right)):
            if k == "x":
                self.facts += [notb(eq(v, INT(0))), notb(eq(v, INT(0xffff))), le(INT(1), v)]


KINDS = [(a, b) for a in "0fx" for b in "0fx"]


def raw_cases(I, st, e, mon):
    """outcomes of reading the 14 raw bytes: failure, 0xff blank, 0x00 blank, an entry; mon(phase) -> automaton value"""
    u8 = None
    for t in I.p.fns[e.fn].locals:
        if t is not None and t.k == "array" and t.e is not None and t.e.k == "int":
            u8 = t.e
    out = [case(I, st, err(at(e, ("io",))), mon("failed"))]
    for ph, b in (("ff", 255), ("00", 0)):
        s = st.copy()
        I.set(s, e.args[2], mk("fill", INT(b), INT(14)))
        s.mon = frozenset([mon(ph)])
        out.append((s, ok(UNIT)))
    s = st.copy()
    buf = mk("arr", tuple(at(e, ("raw", i), u8) for i in range(14)))
    I.set(s, e.args[2], buf)
    if I.assume(s, notb(eqv(buf, mk("fill", INT(255), INT(14))))) and \
            I.assume(s, notb(eqv(buf, mk("fill", INT(0), INT(14))))):
        s.mon = frozenset([mon("raw")])
        out.append((s, ok(UNIT)))
    return cases(*out)


def vec_closure(I, t):
    """how a vector value is built: (elements, other terms, terms seen)"""
    seen = set()
    todo = [t]
    pushes, inits, other = [], [], []
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_info:
            todo += [v for v, f, b in I.phi_info[x].values()]
        elif x.op == "push":
            pushes.append(x.args[1])
            todo.append(x.args[0])
        elif x.op == "slice" and int_val(x.args[1]) == 0 and sub(length(x.args[0]), x.args[2]) is INT(1):
            todo.append(x.args[0])
        elif x.op == "arr":
            inits += x.args[0]
        else:
            other.append(x)
    return pushes + inits, other, seen
