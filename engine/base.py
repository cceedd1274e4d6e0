"""Shared by all rules: program loading, obligations, violations, coverage counters."""
import os
import re

import entail
import interp
from mir import Program
from terms import *  # noqa

ASSUMPTIONS = [
    "the library transfer functions in engine/lib.py and the iterator models in models/models.rs describe std, "
    "and calls into other crates have no effect beyond what their argument types let them write",
    "rustc's MIR for the host target (debug profile, overflow checks on) is the program that runs",
]


class MissingAnchor(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key


def known_findings(path, pid):
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=\[(.*?)\] (.*)$", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


class Run:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.viol = []
        self.obs = []
        self.functions = set()
        self.roots = set()
        self.opaque = set()
        self.steps = 0
        self.extra = {}
        self.P = None
        self.crates = []
        self.nfns = 0

    # ------------------------------------------------------------ program
    def load(self, d):
        P = Program()
        for c in ("models", "xdvdfs", "xdvdfs-cli", "xdvdfs-fsd"):
            P.load(os.path.join(d, c + ".json"))
            self.crates.append(c)
        P.alias("x")
        self.P = P
        self.nfns = len(P.fns)

    def fn(self, path):
        f = self.P.fns.get(path) or self.P.alias(path)
        if f is None:
            raise MissingAnchor(path, "function %s not found in the current tree" % path)
        return f

    def field(self, adt, name, variant=None):
        """index of a field by name"""
        a = self.P.adts.get(adt)
        if a is None:
            raise MissingAnchor(adt, "type %s not found" % adt)
        v = a["variants"][variant or 0]
        for i, f in enumerate(v["fields"]):
            if f["name"] == name:
                return i
        raise MissingAnchor(adt + "." + name, "type %s has no field %s" % (adt, name))

    def variant(self, adt, name):
        a = self.P.adts.get(adt)
        if a is None:
            raise MissingAnchor(adt, "type %s not found" % adt)
        for i, v in enumerate(a["variants"]):
            if v["name"] == name:
                return i
        raise MissingAnchor(adt + "::" + name, "enum %s has no variant %s" % (adt, name))

    def analyse(self, path, args=None, st=None, poll=True, **kw):
        self.fn(path)
        I = interp.Interp(self.P, interp.Opts(**kw))
        I.run(path, args=args, st=st, poll=poll)
        self.account(I, path)
        return I

    def account(self, I, root):
        self.roots.add(root)
        self.functions.add(root)
        for f in I.inlined:
            if not f.startswith("models::"):
                self.functions.add(f)
        self.steps += I.steps
        for e in I.events():
            if e.kind == "call":
                self.opaque.add((e.fn, e.span, e.name))

    # ------------------------------------------------------------ obligations
    def ob(self, rule, key, ok, what, where="", msg=None):
        """one proof obligation; a failed one is a violation with a line-number-free key"""
        self.obs.append({"rule": rule, "ok": bool(ok), "what": what, "where": str(where), "key": key})
        if not ok:
            self.violation(rule + ":" + key, msg or what, where, rule)
        return ok

    def violation(self, key, msg, where="", rule=None):
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append({"key": key, "msg": msg, "where": str(where), "rule": rule or key.split(":")[0]})

    def rule_counts(self):
        d = {}
        for o in self.obs:
            d[o["rule"]] = d.get(o["rule"], 0) + 1
        return d

    def sample(self):
        seen = set()
        out = []
        for o in self.obs:
            if o["rule"] not in seen:
                seen.add(o["rule"])
                out.append(o)
        return out[:12]

    def finish_counts(self, floors):
        c = self.rule_counts()
        for r, n in floors.items():
            if c.get(r, 0) < n:
                self.violation("floor:" + r, "rule %s matched %d site(s), fewer than the %d confirmed by hand: "
                               "the construct it anchors to is gone or no longer recognised" % (r, c.get(r, 0), n), "",
                               "floor")


def where(e):
    return "%s (%s)" % (e.span, e.fn)


# ---------------------------------------------------------------- term helpers
def prove(I, facts, goal, depth=4):
    return entail.prove(facts, goal, depth, I)


def phis_of(I, terms):
    seen = set()
    st = list(terms)
    while st:
        t = st.pop()
        for a in subs(t):
            if a.op == "phi" and a not in seen:
                seen.add(a)
                st += [x[0] for x in I.phi_info.get(a, {}).values()]
    return seen


def is_ok(v):
    return v.op == "agg" and v.args[0] == "std::result::Result" and v.args[1] == 0


def is_err(v):
    return v.op == "agg" and v.args[0] == "std::result::Result" and v.args[1] == 1


def payload(v):
    return v.args[2][0]


def clash(facts):
    """does a value have to be two different variants?"""
    kind = {}
    for f in facts:
        if f.op == "isvar" and kind.setdefault(f.args[0], f.args[1]) != f.args[1]:
            return True
    return any(f.op == "notvar" and kind.get(f.args[0]) == f.args[1] for f in facts)


def alts(I, v, facts, n=6):
    """expand the merge points inside a value into its alternatives: [(value, facts)]"""
    if n == 0:
        return [(v, facts)]
    ph = None
    for a in subs(v):
        if a.op == "phi" and a in I.phi_info and not any(b for _, _, b in I.phi_info[a].values()):
            ph = a
            break
    if ph is None:
        return [(v, facts)]
    out = []
    for x, f, _ in I.phi_info[ph].values():
        fs = facts | f | frozenset(subst(g, {ph: x}) for g in facts if g.op in ("le", "eq", "not"))
        if clash(fs) or entail.inconsistent(fs):
            continue
        out += alts(I, subst(v, {ph: x}), fs, n - 1)
    return out


def mm_cases(v, facts, n=3):
    """expand the minima and maxima inside a value: [(value, facts)]"""
    m = next((a for a in sorted(allsubs(v), key=lambda t: t.id) if a.op in ("min", "max")), None) if n else None
    if m is None:
        return [(v, facts)]
    return [r for x, f in entail.mm_split(m, facts) for r in mm_cases(subst(v, {m: x}), f, n - 1)]


def mm_facts(facts, n=3):
    """the fact sets obtained by deciding the minima and maxima the facts compare"""
    m = next((a for a in sorted({a for f in facts for c in entail._cons(f) for a in c[1]}, key=lambda t: t.id) if a.op in ("min", "max")), None) if n else None
    if m is None:
        return [facts]
    return [r for _, f in entail.mm_split(m, facts) for r in mm_facts(f, n - 1) if not entail.inconsistent(f)]


def case_facts(I, facts):
    """the fact sets obtained by expanding the merge points the facts speak about"""
    ph = {a for f in facts for a in subs(f) if a.op == "phi" and a in I.phi_info and not any(b for _, _, b in I.phi_info[a].values())}
    return [f for _, f in alts(I, mk("arr", tuple(sorted(ph, key=repr))[:3]), facts)] if ph else [facts]


def strip_box(v):
    while v.op == "agg" and v.args[0] in ("std::boxed::Box",):
        v = v.args[2][0]
    return v


READ = "xdvdfs::blockdev::BlockDeviceRead::read"
WRITE = "xdvdfs::blockdev::BlockDeviceWrite::write"
LEN = "xdvdfs::blockdev::BlockDeviceWrite::len"


def evs(I, *names, kind="call"):
    return [e for e in I.events() if e.kind == kind and (not names or e.name in names)]


def equal(I, facts, a, b, n=2):
    if a is b:
        return True
    if prove(I, facts, le(a, b)) and prove(I, facts, le(b, a)):
        return True
    # a minimum or a maximum is one of its two arguments
    c, d = lin_parts(sub(a, b))
    for m, k in d.items() if n else ():
        if m.op in ("min", "max"):
            p, q = m.args
            rest = sub(sub(a, b), scale(m, k))
            return all(equal(I, facts | {f}, add(rest, scale(v, k)), INT(0), n - 1)
                       for f, v in ((le(p, q), p if m.op == "min" else q), (le(q, p), q if m.op == "min" else p)))
    return False


def flds(R, base_, *path):
    """project by (adt, field name) pairs"""
    v = base_
    for adt, name in path:
        v = field(v, None, R.field(adt, name))
    return v


DISKDATA = "xdvdfs::layout::DirectoryEntryDiskData"
REGION = "xdvdfs::layout::DiskRegion"
NODE = "xdvdfs::layout::DirectoryEntryNode"
DISKNODE = "xdvdfs::layout::DirectoryEntryDiskNode"
TABLE = "xdvdfs::layout::DirectoryEntryTable"
VOLUME = "xdvdfs::layout::VolumeDescriptor"


def region(R, data):
    """(first byte, size) of a DirectoryEntryDiskData term"""
    r = flds(R, data, (DISKDATA, "data"))
    return scale(flds(R, r, (REGION, "sector")), 2048), flds(R, r, (REGION, "size"))


# ---------------------------------------------------------------- scenarios
DESER = "bincode::Options::deserialize"
MAGIC = b"MICROSOFT*XBOX*MEDIA"


def case(I, st, value, mon, facts=()):
    """one outcome of a call: a copy of the state with the automaton moved to `mon`, or None when contradictory"""
    s = st.copy()
    for f in facts:
        if not I.assume(s, f):
            return None
    s.mon = frozenset([mon])
    return (s, value)


def cases(*cs):
    return [c for c in cs if c is not None]


def the_mon(st):
    assert len(st.mon) == 1, st.mon
    return next(iter(st.mon))


def fresh(tag, ty=None):
    return mk("sym", "scn", tag, ty=ty)


class U8:
    pass


def int_ty(R, name):
    """the type object of a primitive integer, as used by the program"""
    for f in R.P.fns.values():
        for t in f.locals:
            if t is not None and t.k == "int" and t.s == name:
                return t
    raise MissingAnchor(name, "no local of type " + name)


def isint_const(v, n):
    return int_val(v) == n


SEEK = "std::io::Seek::seek"
READ_EXACT = "std::io::Read::read_exact"
WRITE_ALL = "std::io::Write::write_all"
OW = "xdvdfs::blockdev::OffsetWrapper"


def ok_err(I, st, mon_ok, mon_err, val=None, tag="e"):
    return cases(case(I, st, ok(val if val is not None else UNIT), mon_ok), case(I, st, err(fresh(("err", tag))), mon_err))


def seek_start(pos):
    """the absolute position of a SeekFrom::Start value"""
    if pos.op == "agg" and pos.args[0] == "std::io::SeekFrom" and pos.args[1] == 0:
        return pos.args[2][0]
    return None


def same_place(I, a, b):
    return a is b or (a.op == "ref" and b.op == "ref" and a.args[0] == b.args[0] and a.args[1] == b.args[1])


def allsubs(t):
    """the set of all sub-terms of t, including t"""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo += children(x)
    return seen


def occurs(x, t):
    return x in allsubs(t)


def fmt_parts(t):
    """a string-building term as a list of literal strings and value terms (adjacent literals merged), or None"""
    out = []

    def lit(s):
        if s:
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)

    def go(x):
        if x.op == "str":
            lit(x.args[0])
            return True
        if x.op == "agg" and x.args[0] == "std::borrow::Cow" and len(x.args[2]) == 1:
            return go(x.args[2][0])
        nm = x.args[0].rsplit("::", 1)[-1] if x.op == "app" else None
        A = x.args[1] if nm else ()
        if nm in ("format", "from_str", "must_use") and len(A) == 1:
            return go(A[0])
        if nm in ("strcat", "add") and len(A) == 2:
            return go(A[0]) and go(A[1])
        if nm == "strpush":
            c = int_val(A[1])
            if c is None or not go(A[0]):
                return False
            lit(chr(c))
            return True
        if x.op == "ext":
            return go(x.args[0]) and go(x.args[1])
        if x.op == "arr":
            for b in x.args[0]:
                if int_val(b) is None:
                    return False
            lit(bytes(int_val(b) for b in x.args[0]).decode("latin-1"))
            return True
        if nm == "new" and len(A) == 2 and A[0].op == "arr":
            bs = [int_val(b) for b in A[0].args[0]]
            av = A[1].args[0] if A[1].op == "arr" else None
            if None in bs or av is None:
                return False
            i = k = 0
            while i < len(bs):
                b = bs[i]
                if b == 0:
                    return k == len(av)
                if b < 128:
                    lit(bytes(bs[i + 1:i + 1 + b]).decode())
                    i += 1 + b
                elif b == 0xC0 and k < len(av):
                    a = av[k]
                    if a.op != "app" or not a.args[0].endswith("::new_display") or not go(a.args[1][0]):
                        return False
                    k += 1
                    i += 1
                else:
                    return False
            return False
        out.append(x)
        return True

    return out if go(t) else None


def str_val(t):
    """the text of a constant string term"""
    p = fmt_parts(t)
    if p is None or any(not isinstance(x, str) for x in p):
        return None
    return "".join(p)


def expand(I, v, facts=None, limit=64):
    """the set of values a term can have, by replacing merged sub-terms with their alternatives (those contradicting the
    given facts are dropped)"""
    out, seen, todo = set(), set(), [(v, facts)]
    while todo:
        x, fs = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        ph = next((a for a in subs(x) if a.op == "phi" and a in I.phi_info), None)
        if ph is None or len(seen) > limit:
            out.add(x)
            continue
        for y, f, b in I.phi_info[ph].values():
            if y is ph:
                continue
            g = fs
            if fs is not None:
                g = frozenset(subst(h, {ph: y}) if ph in subs(h) else h for h in fs) - {TRUE}
                if FALSE in g or entail.inconsistent(g):
                    continue
            todo.append((subst(x, {ph: y}), g))
    return out


# ---------------------------------------------------------------- equality of values across merge points
def core(I, t):
    """t, where a merge point whose alternatives all come from one value stands for that value (unless that value may have
    been computed anew since the merge)"""
    if t.op != "phi" or t not in I.phi_info:
        return t
    seen, leaves, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "phi" and x in I.phi_info:
            todo += [v for v, f, b in I.phi_info[x].values()]
        else:
            leaves.add(x)
        if len(leaves) > 1 or len(seen) > 400:
            return t
    if len(leaves) != 1:
        return t
    leaf = leaves.pop()
    for x in seen:
        lp = I.phi_loop.get(x)
        if lp is not None and I.has_loop_atom(leaf, x.args[0], x.args[1], lp, {}):
            return t
    return leaf


def norm(I, t, _d=0):
    """t with every merge point replaced by its core"""
    for _ in range(4):
        m = {}
        for a in subs(t):
            if a.op == "phi":
                c = core(I, a)
                if c is not a:
                    m[a] = c
        if not m:
            break
        t = subst(t, m)
    return t


def cong(I, a, b, assumed=frozenset()):
    """a and b always have the same value (merge points taken at the same place are compared alternative by alternative)"""
    if a is b:
        return True
    a, b = norm(I, a), norm(I, b)
    if a is b or (a, b) in assumed:
        return True
    if a.op != b.op:
        return False
    if a.op == "phi":
        if a.args[:3] != b.args[:3]:
            return False
        x, y = I.phi_info.get(a), I.phi_info.get(b)
        if x is None or y is None or set(x) != set(y) or len(assumed) > 60:
            return False
        s = assumed | {(a, b), (b, a)}
        return all(cong(I, x[k][0], y[k][0], s) for k in x)
    if a.op == "sym":
        return False
    if a.op == "lin":
        if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
            return False
        left = list(b.args[1])
        for x, c in a.args[1]:
            h = next((p for p in left if p[1] == c and cong(I, x, p[0], assumed)), None)
            if h is None:
                return False
            left.remove(h)
        return True

    def args(x, y):
        if isinstance(x, T) and isinstance(y, T):
            return cong(I, x, y, assumed)
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(args(p, q) for p, q in zip(x, y))
        return x == y

    return args(a.args, b.args)
