"""Rewriting paths.  The construction of the overlay is interpreted three times with the outcomes of matching, listing and
recording split.  (1) The walk: every entry of every listing is looked at, directories are listed in turn, and an entry is kept
with its own path when a rule matches it, else with the prefix its directory had.  (2) The decision: an automaton follows, rule by
rule, which rule decides (the first that matches since the last matching exclusion); one deciding rule is followed by a mark, so
that the path inserted can be compared with the rule that decides at that moment.  (3) The insertion: component by component
below the node before, the entry itself at the last one.  Dry run, listing and copying read the same index, and the
command hands the rules on in the order given."""
from base import *
from phis import Phis
from rules import trie
from rules.c13 import Notes, at, vec_closure
from rules.c27 import element, same_text, last

FLOORS = {"decision": 100, "insertion": 60, "walk": 60, "placeholders": 8, "dump": 8, "read_dir": 4, "copy": 4, "command": 20}
REMAP = "xdvdfs::write::fs::remap::RemapOverlayFilesystem"
NEW = REMAP + "::<FS>::new"
READDIR = "xdvdfs::write::fs::FilesystemHierarchy::read_dir"
INSERT = "xdvdfs::write::fs::PathPrefixTree::<T>::insert_tail"
INDICES = REMAP + "::<FS>::find_match_indices"
PPT = "xdvdfs::write::fs::PathPrefixTree::<T>::"
LOOKUP, ITERATE, GET = PPT + "lookup_subdir", PPT + "iter", PPT + "get"
NEXT = "PPTIter<'a, T> as std::iter::Iterator>::next"
COPYIN = "xdvdfs::write::fs::FilesystemCopier::copy_file_in"
PRINT = "std::io::_print"
CMD = "xdvdfs::cmd_build_image::cmd_build_image"
PATHVEC = "xdvdfs::write::fs::PathVec"
SUFFIX = PATHVEC + "::suffix"
CFG = "xdvdfs::write::fs::remap::RemapOverlayConfig"
ENTRY = "xdvdfs::write::fs::remap::MapEntry"
FE = "xdvdfs::write::fs::FileEntry"
FT = "xdvdfs::write::fs::FileType"


def wax(p, n):
    return "wax::" in p and p.endswith("::" + n)


def replaces(p):
    return p.endswith("::replace") and "str" in p


def globs(I, s):
    """s is the list of the patterns made from the rules"""
    return s.op == "phi" and any(v.op == "push" and any(a.op == "app" and wax(a.args[0], "new") for a in allsubs(v.args[1])) for v, f, b in I.phi_info.get(s, {}).values())


def through(I, f, rules=None):
    """the fact says that the list of patterns, or of rules, is used up"""
    x = f.args[0]
    return x.op == "lin" and any(a.op == "len" and (globs(I, a.args[0]) or a.args[0] is rules) and c == 1 for a, c in x.args[1])


def atom(t, *names):
    return t.op == "sym" and isinstance(t.args[-1], tuple) and t.args[-1][0] == "scn" and t.args[-1][1] in names


def colour(t):
    """the colours of the decisions a term is made from"""
    return {a.args[-1][2] for a in allsubs(t) if atom(a, "match", "text", "ix")}


def reach(I, t):
    """all the terms a value can be made of"""
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        for a in [x] + list(allsubs(x)):
            if a not in seen:
                seen.add(a)
                if a.op == "phi" and a in I.phi_info:
                    todo += [v for v, f, b in I.phi_info[a].values()]
    return seen


def rule_of(t, k):
    """t is side k of a rule: the rule's index"""
    t = same_text(t)
    while t.op == "deref":
        t = same_text(t.args[0])
    if t.op == "field" and t.args[2] == k and t.args[0].op == "elem":
        return t.args[0].args[1]


class Decision:
    def __init__(self, R):
        self.R = R
        self.span = R.fn(NEW).span
        self.kr = R.field(CFG, "map_rules")
        self.polar, self.inserts, self.matches, self.templates, self.texts, self.gets, self.suffixes = set(), [], [], [], [], [], []
        self.I = R.analyse(NEW, result=self.result, learned=self.learned, monitor=self.monitor, mon0=(("none", "", False, "over"),), esp=True, cap=900,
                           opaque=lambda p: p in (INSERT, INDICES, SUFFIX) or wax(p, "matched") or wax(p, "get") or replaces(p))
        self.P = Phis(self.I)

    def polarity(self, facts, turn=None):
        """what the facts say about a rule being an exclusion (rule number `turn`)"""
        for f in facts:
            g, neg = (f.args[0], False) if f.op == "not" else (f, True)
            if g.op == "app" and last(g) == "starts_with" and (isint_const(g.args[1][1], 33) or literal(g.args[1][1]) == "!"):
                k = rule_of(g.args[1][0], 0)
                if k is None or turn is not None and not (k is turn or k.op == turn.op == "phi" and k.args[:2] == turn.args[:2]):
                    continue
                self.polar.add(k)
                return neg

    @staticmethod
    def step(m, neg):
        """the match pending is of an exclusion / of an inclusion"""
        D, pend, used, ins = m
        if neg:
            return ("none", "", used, ins)
        return (pend if D == "none" else D, "", used or D == "none" and pend == "W", ins)

    def settle(self, m):
        return sorted({self.step(m, True), self.step(m, False)}) if m[1] else [m]

    def result(self, I, st, e, ret):
        m = the_mon(st)
        failed = ("failed", "", False, "")
        if wax(e.name, "matched"):
            self.matches.append(e)
            out = []
            for D, pend, used, ins in self.settle(m):
                if ins:
                    D, used, ins = "none", False, ""
                k = (D, pend, used, ins)
                out.append(case(I, st, mk("agg", OPTION, 0, ()), k))
                for c in ("O",) if used or D != "none" else ("O", "W"):
                    s = st.copy()
                    p = self.polarity(s.facts, e.snap[0].args[1]) if e.snap[0].op == "elem" else None
                    h = (D, c, used, ins)
                    x = mk("app", "models::matched", (at(e, "match", c), e.snap[0].args[1] if e.snap[0].op == "elem" else e.snap[0]))
                    out.append(case(I, s, mk("agg", OPTION, 1, (x,)), h if p is None else self.step(h, p)))
            return cases(*out)
        if e.name == SUFFIX:
            self.suffixes.append(e)
            return cases(case(I, st, at(e, "suffix"), m))
        D = m[0]
        if e.name == INDICES:
            self.templates.append((e, m))
            return cases(case(I, st, ok(mk("app", "models::indices", (at(e, "ix", D), rule_of(e.snap[0], 1) or INT(-1)))), m), case(I, st, err(at(e, "bad")), failed))
        if wax(e.name, "get"):
            self.gets.append((e, m))
            x = mk("app", "models::found", (at(e, "found"), e.snap[1]))
            return cases(case(I, st, mk("agg", OPTION, 0, ()), m), case(I, st, mk("agg", OPTION, 1, (x,)), m))
        if replaces(e.name):
            self.texts.append((e, m))
            return cases(case(I, st, at(e, "text", D), m))
        if e.name == INSERT:
            out = []
            for D, pend, used, ins in self.settle(m):
                self.inserts.append((e, D, ins))
                pre = field(e.snap[2], None, self.R.field(ENTRY, "is_prefix_directory"))
                out.append(case(I, st, mk("ref", ("D", at(e, "node")), (), True), (D, pend, used, "part" if pre is TRUE else "done")))
            return cases(*out)

    def monitor(self, m, e, st, I):
        if e.kind in ("iter", "iterend") and records_list(I, e.snap[0]):
            return [("none", "", False, "" if e.kind == "iter" else "over")]

    def learned(self, m, st, I):
        D, pend, used, ins = m
        if pend:
            p = self.polarity(I.fresh)
            if p is not None:
                return [self.step(m, p)]
        if not ins and (any(through(I, f) for f in st.facts if f.op == "le") or
                        any(through(I, f, field(I.rootargs[1], None, self.kr)) for f in I.fresh if f.op == "le")):
            return [(x[0], "", x[2], "no") for x in self.settle(m)]
        if ins == "no" and any(f.op == "le" and f.args[0].op == "len" and self.made(I, f.args[0].args[0]) for f in st.facts):
            return [(D, pend, used, "done")]

    @staticmethod
    def made(I, t):
        """t is a list made from a decided text"""
        return any(atom(a, "text", "suffix") or a.op == "app" and last(a) == "split" for a in reach(I, t))


class Flow:
    """values across merge points of one interpretation"""

    def __init__(self, I):
        self.I, self.P, self.memo = I, Phis(I), {}

    def cyclic(self, p):
        return any(b for v, f, b in self.I.phi_info.get(p, {}).values()) and p in self.P.reach(p)

    def vals(self, t):
        """the values t can have, with loop-carried values left in"""
        P, out, seen, todo = self.P, set(), {t}, [t]
        while todo:
            v = P.settle(todo.pop())
            ps = [p for p in P.phis(v) if not self.cyclic(p)]
            if not ps:
                out.add(v)
                continue
            p = max(ps, key=lambda a: a.id)
            same = [q for q in ps if q.args[:2] == p.args[:2]]
            for ed in self.I.phi_info[p]:
                w = subst(v, {q: self.I.phi_info[q][ed][0] for q in same if ed in self.I.phi_info[q]})
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return out

    def spread(self, t, facts=frozenset(), deep=None):
        """the values t can have, each with what is known on its way; part `deep` of t is followed through loops too"""
        P, out, todo, n = self.P, [], [(t, frozenset(facts), frozenset())], 0
        while todo:
            v, f, seen = todo.pop()
            n += 1
            if clash(f) or n < 400 and entail.inconsistent(f):
                continue
            ps = [p for p in P.phis(v) if not self.cyclic(p)]
            ps += [p for h in f if h.op == "isvar" for p in P.phis(h.args[0]) if p is h.args[0] and not self.cyclic(p)]
            inner = False
            if not ps and deep is not None:
                ps = [p for p in [self.head(v.args[2][deep])] if p is not None and p.op == "phi" and p in self.I.phi_info and p not in seen]
                inner = True
            if not ps or n > 400:
                out.append((v, f))
                continue
            p = max(ps, key=lambda a: a.id)
            near = {q for x in [v] + list(f) for q in P.phis(x) if q.args[:2] == p.args[:2] and (deep is not None or not self.cyclic(q))} | {p}
            for ed, (_, g, _) in self.I.phi_info[p].items():
                m = {q: self.I.phi_info[q][ed][0] for q in near if ed in self.I.phi_info[q]}
                todo.append((subst(v, m), (frozenset(subst(h, m) for h in f) | frozenset(g)) - {TRUE}, seen | {p}))
        return out

    def leaves(self, t):
        """what a number can come from: constants and steps from values already seen"""
        out, seen, todo = set(), set(), [t]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi" and x in self.I.phi_info:
                todo += [v for v, f, b in self.I.phi_info[x].values()]
            elif x.op == "lin" and len(x.args[1]) == 1 and x.args[1][0][0].op == "phi" and x.args[1][0][1] == 1:
                out.add(("+", x.args[0]))
                todo.append(x.args[1][0][0])
            else:
                out.add(int_val(x))
        return out

    def counts(self, t):
        """t goes through 0, 1, 2 ... (seen from some round on)"""
        return self.leaves(t) <= {0, 1, ("+", 1)}

    def aligned(self, a, b, seen=frozenset()):
        """two counters are equal wherever both are known"""
        for x in self.vals(tup(a, b)):
            p, q = x.args[2]
            if p is q or (p, q) in seen:
                continue
            (c, m), (d, n) = self.parts(p), self.parts(q)
            if c != d:
                return False
            if m is None and n is None:
                continue
            if m is None or n is None or m.op != "phi" or n.op != "phi" or m.args[:3] != n.args[:3]:
                return False
            i, j = self.I.phi_info.get(m), self.I.phi_info.get(n)
            if i is None or j is None or set(i) != set(j):
                return False
            if not all(self.aligned(i[k][0], j[k][0], seen | {(p, q), (m, n)}) for k in i):
                return False
        return True

    def same_item(self, a, b):
        """the same placeholder of one template"""
        if a is b:
            return True
        if not (a.op == "elem" and b.op == "elem") or not self.aligned(a.args[1], b.args[1]):
            return False
        x, y = a.args[0], b.args[0]
        return x is y or self.template(x) and self.template(y) and colour(x) == colour(y)

    def template(self, t):
        """t is the list of the placeholders of a template"""
        return all(x.op == "app" and x.args[0] == "models::indices" for x, in self.heads(t))

    @staticmethod
    def parts(t):
        if t.op == "lin":
            if not t.args[1]:
                return t.args[0], None
            if len(t.args[1]) == 1 and t.args[1][0][1] == 1:
                return t.args[0], t.args[1][0][0]
        return 0, t

    @staticmethod
    def head(t):
        """the value a chain of projections starts from"""
        while True:
            t = same_text(t)
            if t.op in ("field", "deref"):
                t = t.args[0]
            elif t.op == "ref" and t.args[0][0] == "D":
                t = t.args[0][1]
            else:
                return t

    def heads(self, *ts):
        """the values of several projections taken together, followed through every merge point"""
        out, seen, todo = set(), {ts}, [ts]
        while todo:
            vs = todo.pop()
            ps = [p for p in (self.head(v) for v in vs) if p is not None and p.op == "phi" and p in self.I.phi_info]
            if not ps or len(seen) > 3000:
                out.add(vs)
                continue
            p = max(ps, key=lambda a: a.id)
            same = [q for q in ps if q.args[:3] == p.args[:3]]
            for ed in self.I.phi_info[p]:
                m = {q: self.I.phi_info[q][ed][0] for q in same if ed in self.I.phi_info[q]}
                w = tuple(subst(v, m) if self.head(v) in m else v for v in vs)
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return out

    def origins(self, t):
        """the texts a trimmed or carried text is made from"""
        out, seen, todo = set(), set(), [t]
        while todo:
            x = same_text(todo.pop())
            while x.op == "deref" or x.op == "app" and (last(x) in ("From", "unwrap_or") or last(x) in ("trim_start_matches", "strip_prefix") and slash(x.args[1][1])):
                x = same_text(x.args[0] if x.op == "deref" else x.args[1][0])
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi" and x in self.I.phi_info:
                todo += [v for v, f, b in self.I.phi_info[x].values()]
            else:
                out.add(x)
        return out

    def records(self, t):
        """t is always a part of an element of one list: {(list, part)}, indices"""
        out, ix = set(), set()
        for x, in self.heads(t):
            x = same_text(x)
            while x.op == "deref":
                x = x.args[0]
            k = None
            if x.op == "field" and x.args[0].op == "elem":
                k, x = x.args[2], x.args[0]
            elif x.op == "ref" and x.args[0][0] == "D" and len(x.args[1]) == 2 and x.args[1][0][0] == "e":
                k, x = x.args[1][1][2], mk("elem", mk("deref", x.args[0][1]), x.args[1][0][1])
            if k is None:
                out.add((None, show(x)))
            else:
                out.add((x.args[0], k))
                ix.add(x.args[1])
        return out, ix


def literal(t):
    """the text of a constant"""
    return str_val(t.args[0][1] if t.op == "ref" and t.args[0][0] == "C" and not t.args[1] else t)


def slash(t):
    return isint_const(t, 47) or literal(t) == "/"


def joined(t):
    """the components a path's whole text is made of"""
    parts = fmt_parts(t)
    if parts and len(parts) == 2 and parts[0] == "/" and not isinstance(parts[1], str):
        t = parts[1]
    t = same_text(t)
    if t.op == "app" and last(t) == "join" and slash(t.args[1][1]):
        return t.args[1][0]


def one(s):
    s = set(s)
    return next(iter(s)) if len(s) == 1 else None


def decision(R):
    X = Decision(R)
    I, P, span = X.I, X.P, X.span
    F = Flow(I)
    comp = R.field(PATHVEC, "components")
    kr = R.field(CFG, "map_rules")
    rules = field(I.rootargs[1], None, kr)

    def ob(key, good, what, e, msg):
        R.ob("decision", key, good, what, e if isinstance(e, str) else where(e), msg)
        return good

    # every record is gone through and leads to what its rules say
    for e in I.events():
        new = e.kind in ("iter", "iterend") and records_list(I, e.snap[0])
        if new or e.kind == "call" and wax(e.name, "matched"):
            for D, pend, used, ins in [x for m in e.mon or () for x in X.settle(m)]:
                ob("left out", not (ins == "no" and D != "none"), "what a rule includes is inserted", e, "a path that a rule includes can be left out of the image")
                ob("partial", ins != "part", "a path is inserted whole", e, "a path can be inserted without its last component")
                ob("skipped", ins != "" or not new, "every record is tried", e, "a record can be passed over without all rules being tried")

    # which pattern is tried on which text
    tried, part = [], set()
    ms = [e for e in evs(I) if wax(e.name, "matched")]
    ob("tried", ms, "every rule's pattern is tried", span, "no pattern is tried on its own")
    for e in ms:
        g = e.snap[0]
        if not ob("pattern", g.op == "elem" and globs(I, g.args[0]), "the patterns of the rules are tried", e, "what is tried is " + show(g)):
            continue
        tried.append(g.args[1])
        rec, ix = set(), set()
        for t in F.origins(e.snap[1]):
            p = joined(t)
            r, i = F.records(p.args[0]) if p is not None and p.op == "field" and p.args[2] == comp else ({None}, set())
            rec, ix = rec | r, ix | i
        part |= rec
        ob("text", one(rec) is not None and one(rec)[0] is not None, "on a path recorded in the walk", e, "a pattern is tried on " + show(e.snap[1]))
        ob("records", all(F.counts(j) for j in ix), "record after record", e, "the records tried are number " + ", ".join(map(show, ix)))
    ls = set().union(*(F.leaves(g) for g in tried)) if tried else set()
    ob("first", 0 in ls and ls <= {0, 1, ("+", 1)}, "from the first pattern on, one by one", span, "the patterns tried are number %s" % sorted(map(str, ls)))
    prefix = one(part)
    turns = {y for g in tried for y in F.vals(g)}
    polar = {y for p in X.polar for y in F.vals(p)}
    for p in polar:
        good = int_val(p) is not None or any(F.aligned(p, g) for g in turns if int_val(g) is None)
        ob("polarity", good, "whether a rule excludes is read from the rule tried", span, "whether a rule excludes is read from rule number " + show(p))
    ob("polarity", bool(polar) and all(int_val(g) is not None or any(F.aligned(p, g) for p in polar) for g in turns), "whether a rule excludes is looked at", span, "no rule excludes anything")

    # what the deciding rule makes of it
    for e in evs(I, INDICES):
        i = rule_of(e.snap[0], 1)
        ob("template", i is not None, "the rule's image path is the template", e, "the template is " + show(e.snap[0]))
    for e in [e for e in evs(I) if wax(e.name, "get")]:
        D = the_mon(e)[0]
        for x in F.vals(tup(e.snap[0], e.snap[1])):
            m, k = x.args[2]
            good = m.op == "app" and m.args[0] == "models::matched" and k.op == "elem" and k.args[0].op == "app" and k.args[0].args[0] == "models::indices"
            if ob("capture", good, "captures of the match are substituted", e, "what is substituted is capture %s of %s" % (show(k), show(m))):
                ob("capture", colour(m) == {D}, "of the rule that decides", e, "a capture of another rule's match is substituted")
                ob("same rule", F.aligned(m.args[1][1], k.args[0].args[1][1]), "the template belongs to the pattern that matched", e,
                   "pattern %s decides, the image path is that of rule %s" % (show(m.args[1][1]), show(k.args[0].args[1][1])))
    for e in [e for e in evs(I) if replaces(e.name)]:
        D = the_mon(e)[0]
        txt = [x for x, in F.heads(e.snap[0])]
        ob("template", all(rule_of(x, 1) is not None or atom(same_text(x), "text") for x in txt), "substitution starts from the rule's image path", e, "substitution starts from " + ", ".join(map(show, txt)))
        parts = fmt_parts(e.snap[1])
        if ob("placeholder", parts is not None and len(parts) == 3 and parts[0] == "{" and parts[2] == "}", "{n} is replaced", e, "what is replaced is " + show(e.snap[1])):
            for x in F.vals(tup(parts[1], e.snap[2])):
                n, v = x.args[2]
                v = same_text(v)
                ob("capture", v.op == "app" and v.args[0] == "models::found" and F.same_item(v.args[1][1], n) or literal(v) == "" or v.op == "app" and last(v) == "default",
                   "by capture n, or nothing", e, "{%s} is replaced by %s" % (show(n), show(v)))

    # the path made of it
    pieces = 0
    for e in evs(I, kind="push"):
        for a in allsubs(e.args[1]):
            if not (a.op == "app" and last(a) == "split"):
                continue
            t, sep = a.args[1][0], a.args[1][1]
            ob("split", isint_const(sep, 47) or literal(sep) == "/", "the path is split at /", e, "the path is split at " + show(sep))
            while t.op == "app" and last(t) in ("trim_start_matches", "trim_matches", "strip_prefix"):
                t = t.args[1][0]
            pieces += 1
            for x, g in F.spread(t, e.facts):
                text(R, X, F, e, x, g, ob, prefix, comp)
    ob("pieces", pieces > 0, "the image path is made of the text's parts", span, "no image path is made")
    for e in evs(I, SUFFIX):
        a, ia = F.records(e.snap[0])
        b, ib = F.records(e.snap[1])
        good = prefix is not None and one(a) is not None and one(b) == prefix and one(a)[0] is prefix[0]
        ob("suffix", good and all(record(x) is record(y) for x, y in F.heads(*e.snap[:2])), "the rest of the path below the part matched", e,
           "the rest appended is %s without %s" % (show(e.snap[0]), show(e.snap[1])))
    roles = insertion(R, X, F, prefix, comp)

    # the end of the construction
    n = 0
    kt = R.field(REMAP, "img_to_host")
    for st, v in I.results:
        D, pend, used, ins = the_mon(st)
        if v.op != "agg" or v.args[1] != 0:
            continue
        n += 1
        ob("left out", not (D != "none" and ins == "no"), "what a rule includes is inserted", span, "a path that a rule includes can be left out of the image")
        ob("partial", ins != "part", "a path is inserted whole", span, "a path can be inserted without its last component")
        ob("decided", not pend, "every match counts", span, "a match can go without effect")
    ob("succeeds", n > 0, "construction can succeed", span, "construction never succeeds")
    return X, F, prefix, roles


def record(t):
    """the number of the record a term is a part of"""
    t = same_text(t)
    while t.op == "deref":
        t = t.args[0]
    for a in [t] + list(allsubs(t)):
        if a.op == "elem":
            return a.args[1]
    return t


def text(R, X, F, e, x, g, ob, prefix, comp):
    """x is the text the image path is made of"""
    I = X.I
    D = the_mon(e)[0]
    parts = fmt_parts(x)
    whole = False
    if parts and len(parts) == 3 and parts[1] == "/" and parts[2].op == "app" and last(parts[2]) == "join":
        c = parts[2].args[1][0]
        whole = all(atom(y.args[0], "suffix") if y.op == "field" else False for y in F.vals(c))
        ob("suffix", whole, "the rest of the path is appended", e, "what is appended is " + show(c))
        x = same_text(parts[0])
        while x.op == "app" and last(x) in ("trim_end_matches", "trim_end", "strip_suffix", "trim_matches"):
            x = same_text(x.args[1][0])
    for y, h in F.spread(x, g):
        for z, in F.heads(y):
            z = same_text(z)
            ob("base", rule_of(z, 1) is not None or atom(z, "text") and colour(z) == {D}, "from the deciding rule's image path", e, "the image path is made from " + show(z))
        if not whole:
            z = [a for a in {b for h_ in h for b in allsubs(h_)} if atom(a, "suffix")]
            ob("suffix", any(prove(I, h, le(length(field(a, None, comp)), INT(0))) for a in z), "without the rest only when there is none", e,
               "the rest of the path below the part matched is not appended")
        used = [a for a in {b for h_ in h for b in allsubs(h_)} if a.op == "len" and F.template(a.args[0])]
        ob("substituted", any(prove(I, h, le(a, k)) for a in used for k in allphis(h) | {INT(0)}), "after every placeholder was replaced", e, "a placeholder can be left as it is")


def allphis(fs):
    return {a for f in fs for a in allsubs(f) if a.op == "phi"}


def insertion(R, X, F, prefix, comp):
    """component after component, each below the node before; the entry itself last"""
    I, P = X.I, X.P
    kp, kh, ke = (R.field(ENTRY, n) for n in ("is_prefix_directory", "host_path", "host_entry"))
    kind = R.field(FE, "file_type")
    DIR = R.variant(FT, "Directory")
    roles, roots = [set(), set()], set()

    def ob(key, good, what, e, msg):
        R.ob("insertion", key, good, what, where(e), msg)
        return good

    n = 0
    for e in evs(I, INSERT):
        n += 1
        for D, pend, used, ins in X.settle(the_mon(e)):
            ob("included", D != "none", "only what a rule includes", e, "a path can be inserted that no rule includes, or that a rule excludes")
            ob("decided", ins != "", "after all rules were tried", e, "a path is inserted before all rules were tried")
            ob("again", ins != "done", "once", e, "more is inserted below the last component")
            c = e.snap[1]
            heads = {x for x, in F.heads(c) if x.op != "bad"}
            if not ob("component", all(seq_of(x) is not None for x in heads), "the parts of the image path are inserted", e, "what is inserted is " + show(c)):
                continue
            for x in heads:
                ob("rule", colour_of(I, seq_of(x)) <= {D} and (X.made(I, seq_of(x)) or seq_of(x).op == "sym"), "the path made by the rule that decides", e, "the path inserted was made by a rule that does not decide")
            if ins == "no":
                roots.add(e.args[0].args[0] if e.args[0].op == "ref" else e.args[0])
                ob("first", all(isint_const(index_of(y), 0) for y in heads), "from the first part on", e, "the first part inserted is " + show(c))
            else:
                ls = set().union(*(F.leaves(index_of(x)) for x in heads))
                ob("order", 1 in ls and ls <= {1, 2, ("+", 1)}, "part after part", e, "the parts inserted are number %s" % sorted(map(str, ls)))
                node = F.vals(e.args[0])
                ob("below", all(atom(y, "node") or y.op == "ref" and y.args[0][0] == "D" and atom(y.args[0][1], "node") and not y.args[1] for y in node), "below the part before", e,
                   "a part is inserted at " + ", ".join(map(show, node)))
            v = e.snap[2]
            pre = field(v, None, kp)
            for x, f in F.spread(tup(field(v, None, kh), field(v, None, ke), pre, c), e.facts, 3):
                h, en, pr, cc = x.args[2]
                i, C = index_of(cc), seq_of(cc)
                if C is None:
                    continue
                Cs = {C} | {a.args[0] for g in f for a in allsubs(g) if a.op == "len" and X.made(I, a.args[0])}
                end = any(prove(I, f, le(length(c_), add(i, INT(1)))) for c_ in Cs)
                more = any(prove(I, f, lt(add(i, INT(1)), length(c_))) for c_ in Cs)
                if pr is TRUE:
                    ob("directory", en.op == "agg" and is_kind(field(en, None, kind), DIR), "a directory where more follows", e, "a part above is recorded as " + show(en))
                    ob("above", more, "only above the last part", e, "the last part can be recorded as a mere directory")
                elif pr is FALSE:
                    ob("last", end, "the entry at the last part", e, "the entry is recorded although more parts follow")
                    a, ia = F.records(h)
                    b, ib = F.records(en)
                    roles[0] |= a
                    roles[1] |= b
                    ob("same", all(record(x) is record(y) for x, y in F.heads(h, en)), "path and entry of one record", e, "path %s is recorded with entry %s" % (show(h), show(en)))
                else:
                    ob("last", False, "", e, "whether more parts follow is recorded as " + show(pr))
    R.ob("insertion", "inserts", n > 0, "paths are inserted", X.span, "nothing is inserted")
    for k, r in zip(("path", "entry"), roles):
        R.ob("insertion", k, None not in (one(r), prefix) and one(r)[0] is prefix[0], "the %s walked is recorded" % k, X.span, "the %s recorded is %s" % (k, sorted(map(str, r))))
    R.ob("insertion", "root", len(roots) == 1, "into one index", X.span, "paths are inserted into several indexes")
    return one(roles[0]), one(roles[1])


def is_kind(t, k):
    return t.op == "agg" and t.args[1] == k


def seq_of(x):
    x = same_text(x)
    while x.op == "deref":
        x = same_text(x.args[0])
    if x.op == "elem":
        return x.args[0]
    if x.op == "ref" and x.args[1] and x.args[1][-1][0] == "e" and x.args[0][0] == "D" and len(x.args[1]) == 1:
        return mk("deref", x.args[0][1])
    if x.op == "ref" and x.args[1] and x.args[1][-1][0] == "e" and x.args[0][0] == "L":
        return mk("sym", "local", repr(x.args[0]), repr(x.args[1][:-1]))
    return None


def index_of(x):
    x = same_text(x)
    while x.op == "deref":
        x = same_text(x.args[0])
    return x.args[1] if x.op == "elem" else x.args[1][-1][1] if x.op == "ref" and x.args[1] else x


def colour_of(I, t):
    return {a.args[-1][2] for a in reach(I, t) if atom(a, "match", "text", "ix")}


# ---------------------------------------------------------------- the walk
def walk(R, prefix, roles):
    """which entries are recorded, with what"""
    span = R.fn(NEW).span
    note = Notes(R, "walk")
    comp = R.field(PATHVEC, "components")
    kinds, kname = R.field(FE, "file_type"), R.field(FE, "name")
    DIR, FILE = R.variant(FT, "Directory"), R.variant(FT, "File")
    kp, ke, kq = roles[0][1], roles[1][1], prefix[1]
    dirs = set()
    START = ("walk", "", "", "", False, False)

    def is_list(t):
        return atom(t, "list")

    def is_entry(t):
        return t.op == "elem" and is_list(t.args[0])

    def close(m, e):
        """the entry under consideration is done with"""
        ph, match, par, kind, rec, queued = m
        if match == "":
            return
        if match == "F":
            match = par or "F"
        if match in "?":
            note("tested", e, "an entry can be passed over without being tried against the rules")
        if match in ("T", "P") and not rec:
            note("recorded", e, "an entry %s is not recorded" % ("a rule matches" if match == "T" else "below a directory that a rule matches"))
        if match == "F":
            note("inherited", e, "an entry that no rule matches itself is %s whether or not its directory was matched" % ("recorded" if rec else "left out"))
        if match == "N" and rec:
            note("recorded", e, "an entry that no rule matches, nor a directory above, is recorded")
        if kind == "D" and not queued:
            note("descend", e, "a directory's contents are not looked at")
        if kind != "D" and queued:
            note("descend", e, "something that may not be a directory is listed")
        if kind == "" and not queued:
            note("descend", e, "an entry is passed over without asking whether it is a directory")

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name == READDIR:
            dirs.add(e.snap[1])
            return cases(case(I, st, ok(at(e, "list")), ("listed", "", "", "", False, False)), case(I, st, err(at(e, "io")), ("failed", "", "", "", False, False)))
        if wax(e.name, "is_match"):
            ph, match, par, kind, rec, queued = m
            return cases(*[case(I, s, v, (ph, c, par, kind, rec, queued)) for s, v, c in ((st.copy(), TRUE, "T"), (st, FALSE, "F"))])
        if wax(e.name, "matched"):
            return cases(case(I, st, mk("agg", OPTION, 0, ()), m))

    def parent(fresh):
        for f in fresh:
            if f.op in ("isvar", "notvar") and any(d.op == "field" and f.args[0].op == "field" and f.args[0].args[0] is d.args[0] for d in dirs):
                return "NP"[f.args[1] if f.op == "isvar" else 1 - f.args[1]]

    def monitor(m, e, st, I):
        ph, match, par, kind, rec, queued = m
        if e.kind in ("iter", "iterend") and any(is_list(a) for a in allsubs(e.snap[0])):
            if e.kind == "iterend":
                return [START]
            return [(ph, "?", par, "", False, False)]
        if e.kind == "push":
            v = e.args[1]
            if v.op == "agg" and any(is_entry(x) for x in v.args[2]):
                return [(ph, match, par, kind, True, queued)]
            if v.op == "agg" and len(v.args[2]) == 2 and match != "":
                return [(ph, match, par, kind, rec, True)]

    def learned(m, st, I):
        ph, match, par, kind, rec, queued = m
        if kind == "" and match != "":
            for f in I.fresh:
                x = f.args[0] if f.op in ("isvar", "notvar") else None
                if x is not None and x.op == "field" and is_entry(x.args[0]) and x.args[2] == kinds:
                    kind = "D" if (f.args[1] == DIR) == (f.op == "isvar") else "F"
        if match == "F" and par == "":
            par = parent(I.fresh) or ""
        return [(ph, match, par, kind, rec, queued)]

    I = R.analyse(NEW, result=result, monitor=monitor, learned=learned, mon0=(START,), esp=True, cap=600,
                  opaque=lambda p: p in (INSERT, INDICES, SUFFIX) or wax(p, "matched") or wax(p, "is_match") or replaces(p))
    F = Flow(I)

    def ob(key, good, what, e, msg):
        R.ob("walk", key, good, what, e if isinstance(e, str) else where(e), msg)
        return good

    for e in I.events():
        for m in e.mon or ():
            if e.kind in ("iter", "iterend") and any(is_list(a) for a in allsubs(e.snap[0])):
                close(m, e)
                if not is_list(e.snap[0]):
                    note("whole", e, "only a part of the listing is considered: " + show(e.snap[0]))
            if e.kind == "call" and e.name == READDIR:
                close(m, e)
                if m[0] == "listed":
                    note("whole", e, "another directory is listed although entries are left")
            if e.kind == "push" and e.args[1].op == "agg" and any(is_entry(x) for x in e.args[1].args[2]) and m[1] in ("", "?"):
                note("tested", e, "an entry is recorded before it is tried against the rules")
    reads = evs(I, READDIR)
    work = set()
    for e in reads:
        for x in F.vals(e.snap[1]):
            x = same_text(x)
            good = x.op == "field" and x.args[0].op == "elem" and x.args[0].args[0].op == "phi"
            if ob("worklist", good, "directories are taken from the list of those found", e, "what is listed is " + show(x)):
                work.add((x.args[0].args[0], x.args[2]))
    taken = {x for e in reads for x in F.vals(e.snap[1])}

    def own(v, c):
        """v is the path of the entry c of the listing"""
        v = field(v, None, comp)
        if v.op == "arr" and v.args[0]:
            v = mk("push", mk("arr", v.args[0][:-1]), v.args[0][-1])
        return v.op == "push" and same_text(v.args[1]) is field(c, None, kname) and all(x in taken for y in base_of(v.args[0]) for x in F.vals(y))

    def base_of(t):
        return [t.args[0]] if t.op == "field" and t.args[2] == comp else [field(t, None, comp)]

    def above(v):
        """v is the prefix that belongs to the directory listed"""
        v = same_text(v)
        return v.op == "field" and v.args[1] == 1 and v.args[0].op == "field" and any(v.args[0].args[0] is d.args[0] and v.args[0].args[2] == 1 - d.args[2] for d in taken if d.op == "field")

    n = q = 0
    for e in evs(I, kind="push"):
        m, v = the_mon(e), e.args[1]
        if not m[1] or v.op != "agg":
            continue
        M = m[2] if m[1] == "F" and m[2] else m[1]
        if len(v.args[2]) == 3 and any(is_entry(x) for x in v.args[2]):
            n += 1
            for x, f in F.spread(v, e.facts):
                p, c, w = (field(x, None, k) for k in (kp, ke, kq))
                if not ob("entry", is_entry(c), "the entry itself is recorded", e, "recorded is the entry " + show(c)):
                    continue
                ob("path", own(p, c), "with its own path", e, "an entry is recorded with the path " + show(p))
                ob("prefix", (own(w, c) if M == "T" else above(w)) or entail.inconsistent(f), "and the path that was matched", e,
                   "an entry that %s is recorded as matched by %s" % ("a rule matches" if M == "T" else "only a directory above matches", show(w)))
        elif len(v.args[2]) == 2:
            q += 1
            for x, f in F.spread(v, e.facts):
                entries = [c for c in allsubs(x) if is_entry(c)]
                for wl, k in work:
                    d, w = field(x, None, k), field(x, None, 1 - k)
                    ob("child", any(own(d, c) for c in entries), "a directory is listed by its own path", e, "a directory is listed as " + show(d))
                    if w.op == "agg" and w.args[1] == 1:
                        good = any(own(w.args[2][0], c) for c in entries) if M == "T" else M == "P" and above(w.args[2][0])
                    elif w.op == "agg":
                        good = M in "NF"
                    else:
                        good = M != "T" and w.op == "field" and any(w.args[0] is t.args[0] and w.args[2] == 1 - t.args[2] for t in taken if t.op == "field")
                    ob("handed on", good or entail.inconsistent(f), "with the path that was matched", e,
                       "a directory that %s hands %s on to what it contains" % ("a rule matches" if M == "T" else "no rule matches itself", show(w)))
    ob("records", n > 0, "entries are recorded", span, "nothing is recorded")
    ob("queues", q > 0, "directories are walked", span, "directories are not walked")

    # what is tried
    pats = set()
    for e in [e for e in evs(I) if wax(e.name, "is_match")]:
        js = [joined(t) for t in F.origins(e.snap[1])]
        ob("tried", js and all(j is not None and own_components(j, F, taken, comp, kname) for j in js), "an entry's own path is tried", e, "what is tried is " + show(e.snap[1]))
        pats |= {x for x in F.vals(e.snap[0])}
    for g in pats:
        src = [a for a in allsubs(g) if globs(I, a)]
        ob("patterns", len(src) == 1 and any(a.op == "app" and wax(a.args[0], "any") for a in allsubs(g)), "against all the rules' patterns", span, "entries are tried against " + show(g))
        for a in src:
            patterns(R, I, F, a, ob, span)

    # where it starts and ends
    for wl, k in work:
        first = [v for v, f, b in I.phi_info[wl].values() if not b] if wl in I.phi_info else []
        start = [x for v in first for x in F.vals(v)]
        ob("root", start and all(x.op == "arr" and len(x.args[0]) == 1 and isint_const(length(field(field(x.args[0][0], None, k), None, comp)), 0) and
                                 field(x.args[0][0], None, 1 - k).op == "agg" and field(x.args[0][0], None, 1 - k).args[1] == 0 for x in start),
           "the walk starts at the root, which nothing matched", span, "the walk starts with " + ", ".join(map(show, start)))
    tree = R.field(REMAP, "img_to_host")
    under = R.field(REMAP, "fs")
    done = 0
    for st, v in I.results:
        m = the_mon(st)
        if is_ok(v):
            done += 1
            ob("ok", m[0] == "walk" and not m[1], "success only after every listing was gone through", span, "construction succeeds although entries were not looked at")
            ob("drained", work and all(any(prove(I, st.facts, le(length(w), INT(0))) for w in heads_of(F, wl)) for wl, k in work), "and every directory was listed", span,
               "construction can succeed with directories left to list")
            ob("through", any(f.op == "le" and any(a.op == "len" and a.args[0].op == "phi" and records_list(I, a.args[0]) for a in allsubs(f)) and
                              any(prove(I, st.facts, le(length(a.args[0]), z)) for a in allsubs(f) if a.op == "len" for z in allphis([f])) for f in st.facts),
               "and every record was gone through", span, "construction can succeed with records left")
            for x in F.vals(payload(v)):
                if x.op == "agg":
                    good = all(y.op == "hav" or y is I.rootargs[0] or y.op == "sym" for y, in F.heads(field(x, None, under)))
                    ob("source", good, "over the source given", span, "the source kept is " + show(field(x, None, under)))
        else:
            ob("err", True, "", span, "")
    ob("succeeds", done > 0, "construction can succeed", span, "construction never succeeds")
    note.flush()
    return I, F


def heads_of(F, wl):
    return [wl] + [q for q in F.I.phi_info if q.args[:1] == wl.args[:1] and q.args[3] == wl.args[3]]


def records_list(I, t):
    return t.op == "phi" and any(v.op == "push" and v.args[1].op == "agg" and len(v.args[1].args[2]) == 3 for x in reach(I, t) for v in [x])


def own_components(t, F, taken, comp, kname):
    for v in F.vals(t):
        if v.op == "arr" and v.args[0]:
            v = mk("push", mk("arr", v.args[0][:-1]), v.args[0][-1])
        n = same_text(v.args[1]) if v.op == "push" else v
        if not (n.op == "field" and n.args[2] == kname and n.args[0].op == "elem" and atom(n.args[0].args[0], "list")):
            return False
        b = v.args[0]
        if not (b.op == "field" and b.args[2] == comp and all(x in taken for x in F.vals(b.args[0])) or b.op == "arr" and not b.args[0]):
            return False
    return True


def patterns(R, I, F, a, ob, span):
    """the patterns are those of the rules, in order"""
    kr = R.field(CFG, "map_rules")
    rules = field(I.rootargs[1], None, kr)
    vals = [v for v, f, b in I.phi_info[a].values()]
    for v in vals:
        if v.op == "push":
            t = [x.args[1][0] for x in allsubs(v.args[1]) if x.op == "app" and wax(x.args[0], "new")]
            k = None
            if len(t) == 1:
                x = same_text(t[0])
                while x.op == "app" and last(x) in ("trim_start_matches", "strip_prefix", "unwrap_or"):
                    if last(x) != "unwrap_or" and not (isint_const(x.args[1][1], 33) or literal(x.args[1][1]) == "!"):
                        break
                    x = same_text(x.args[1][0])
                k = rule_of(x, 0)
            ob("glob", v.args[0] is a and k is not None and F.counts(k), "each rule's pattern, without its !", span, "a pattern is made of " + show(v.args[1]))
        else:
            ob("glob", v.op in ("arr", "vec") and isint_const(length(v), 0), "and nothing else", span, "the patterns start with " + show(v))


# ---------------------------------------------------------------- reading the index
class Lister:
    """a function that goes through directories of the index: each entry listed is followed until the next one"""

    def __init__(self, R, path, rule, roles, handled, cap=400):
        self.R, self.rule, self.handled = R, rule, handled
        self.kp = R.field(ENTRY, "is_prefix_directory")
        self.ke = R.field(ENTRY, "host_entry")
        self.kinds, self.DIR = R.field(FE, "file_type"), R.variant(FT, "Directory")
        self.span = R.fn(path).span
        self.listed, self.subs = {}, {}
        self.I = R.analyse(path, result=self.result, monitor=self.monitor, learned=self.learned, esp=True, cap=cap,
                           mon0=(("listed", False, "", "", False, False),), opaque=lambda p: p == LOOKUP or p == ITERATE or p.endswith(NEXT))

    def entry(self, t):
        """t is (a copy of) an entry listed"""
        while t.op == "deref" or t.op == "ref" and t.args[0][0] == "D" and not t.args[1]:
            t = t.args[0] if t.op == "deref" else t.args[0][1]
        return atom(t, "entry")

    def part(self, t):
        """(field, field of the recorded entry) t is read from, outermost first"""
        t, out = same_text(t), []
        while t.op == "field":
            out.append(t.args[2])
            t = same_text(t.args[0])
        return tuple(out) if self.entry(t) else None

    def result(self, I, st, e, ret):
        ph, on, kind, pre, out, queued = the_mon(st)
        if e.name == LOOKUP:
            x = at(e, "sub")
            self.subs[x] = e
            return cases(case(I, st, mk("agg", OPTION, 1, (mk("ref", ("D", x), (), False),)), ("found", False, "", "", False, False)),
                         case(I, st, mk("agg", OPTION, 0, ()), ("missing", False, "", "", False, False)))
        if e.name == ITERATE:
            x = at(e, "iter")
            self.listed[x] = e.snap[0]
            return cases(case(I, st, x, ("listing", False, "", "", False, False)))
        if e.name.endswith(NEXT):
            I.set(st, e.args[0], e.snap[0])
            return cases(case(I, st.copy(), mk("agg", OPTION, 1, (tup(at(e, "name"), mk("ref", ("D", at(e, "entry")), (), False)),)), (ph, True, "", "", False, False)),
                         case(I, st, mk("agg", OPTION, 0, ()), ("listed", False, "", "", False, False)))

    def monitor(self, m, e, st, I):
        if e.kind == "push" and m[1]:
            k = self.handled(self, e, I)
            if k:
                return [m[:4] + (m[4] or k == "out", m[5] or k == "queue")]

    def learned(self, m, st, I):
        ph, on, kind, pre, out, queued = m
        if on:
            for f in I.fresh:
                g, neg = (f.args[0], True) if f.op == "not" else (f, False)
                if g.op == "field" and self.part(g) == (self.kp,):
                    pre = "F" if neg else "T"
                if g.op in ("isvar", "notvar") and self.part(g.args[0]) == (self.kinds, self.ke):
                    kind = "D" if (g.args[1] == self.DIR) == (g.op == "isvar") else "F"
            return [(ph, on, kind, pre, out, queued)]


def own_child(R, F, v, dirs):
    """v is the path of the entry just listed, below the directory looked up"""
    comp = R.field(PATHVEC, "components")
    v = field(v, None, comp)
    if v.op == "arr" and v.args[0]:
        v = mk("push", mk("arr", v.args[0][:-1]), v.args[0][-1])
    if v.op != "push" or not atom(same_text(v.args[1]), "name"):
        return False
    b = v.args[0]
    if b.op == "field" and b.args[2] == comp:
        return bool({x for x, in F.heads(b.args[0])} & dirs)
    return b.op == "arr" and not b.args[0]


def dump(R, roles):
    """the dry run lists every file mapped, with the path it is read from"""
    path = REMAP + "::<FS>::dump"
    kh = R.field(ENTRY, "host_path")

    def handled(L, e, I):
        v = e.args[1]
        return "out" if v.op == "agg" and len(v.args[2]) == 2 and any(atom(a, "entry") for a in reach(I, v)) else "queue" if any(atom(a, "name") for a in reach(I, v)) and v.op in ("agg", "upd", "phi") else None

    L = Lister(R, path, "dump", roles, handled)
    I, F = L.I, Flow(L.I)

    def ob(key, good, what, e, msg):
        R.ob("dump", key, good, what, e if isinstance(e, str) else where(e), msg)
        return good

    dirs = {x for e in evs(I, LOOKUP) for x in F.vals(e.snap[1])}
    tree = field(mk("deref", I.rootargs[0]), None, R.field(REMAP, "img_to_host"))
    n = 0
    work = set()
    for e in evs(I, LOOKUP):
        ob("tree", norm(I, e.snap[0]) is norm(I, tree), "the index is listed", e, "what is listed is " + show(e.snap[0]))
    for x in dirs:
        if ob("worklist", x.op == "elem", "directories come from those found", L.span, "listed is " + show(x)):
            work.add(x.args[0])
    for e in I.events():
        for ph, on, kind, pre, out, queued in e.mon or ():
            if e.kind == "call" and e.name.endswith(NEXT) and on:
                ob("out", out == (pre == "F"), "exactly the mapped entries are listed", e, "an entry that %s is %s" % ("is mapped" if pre == "F" else "is only a directory above" if pre == "T" else "may not be mapped", "listed" if out else "not listed"))
                ob("descend", queued == (kind == "D"), "exactly the directories are descended into", e, "an entry that %s a directory is %s" % ({"D": "is", "F": "is not", "": "may be"}[kind], "descended into" if queued else "not descended into"))
            if e.kind == "call" and e.name == LOOKUP:
                ob("whole", ph in ("idle", "listed"), "after the listing before", e, "the next directory is listed although entries are left")
            if e.kind == "call" and e.name == ITERATE:
                ob("iterates", all(x.op == "ref" and atom(x.args[0][1], "sub") for x in F.vals(e.snap[0])) or atom(e.snap[0], "sub") or e.snap[0].op == "deref" and atom(e.snap[0].args[0], "sub"), "the directory looked up is gone through", e, "gone through is " + show(e.snap[0]))
        if e.kind == "push" and e.mon and any(m[1] for m in e.mon):
            k = handled(L, e, I)
            if k:
                n += 1
            for x in F.vals(e.args[1]) if k else ():
                if k == "out":
                    a, b = x.args[2]
                    ob("pair", L.part(a) == (kh,) and own_child(R, F, b, dirs), "as host path and image path", e, "listed as %s -> %s" % (show(a), show(b)))
                else:
                    ob("child", own_child(R, F, x, dirs), "by their own path", e, "descended into as " + show(x))
    ob("lists", n > 1, "mapped entries are listed and directories descended into", L.span, "nothing is listed")
    for w in work:
        start = [x for v, f, b in I.phi_info.get(w, {}).values() if not b for x in F.vals(v)]
        comp = R.field(PATHVEC, "components")
        ob("root", start and all(x.op == "arr" and len(x.args[0]) == 1 and isint_const(length(field(x.args[0][0], None, comp)), 0) for x in start), "from the root on", L.span, "the listing starts at " + ", ".join(map(show, start)))
    for st, v in I.results:
        ph = the_mon(st)[0]
        ob("end", ph in ("listed", "idle"), "the end after whole listings", L.span, "listing can end although entries are left")
        ob("drained", any(prove(I, st.facts, le(length(w), INT(0))) for w in work), "when no directory is left", L.span, "listing can end with directories left")
        els, other, _ = vec_closure(I, v)
        ob("result", els and not other and all(x.op == "agg" and L.part(x.args[2][0]) is not None for x in els), "the list is what was collected", L.span, "the list returned is changed: " + ", ".join(map(show, other)))


def read_dir(R, roles):
    """a directory of the overlay holds what the index holds there"""
    path = next(p for p in R.P.fns if p.endswith("FilesystemHierarchy>::read_dir") and "RemapOverlayFilesystem" in p)
    kn, kk, kl = (R.field(FE, n) for n in ("name", "file_type", "len"))

    def handled(L, e, I):
        return "out" if any(atom(a, "name", "entry") for a in reach(I, e.args[1])) else None

    L = Lister(R, path, "read_dir", roles, handled)
    I, F = L.I, Flow(L.I)

    def ob(key, good, what, e, msg):
        R.ob("read_dir", key, good, what, e if isinstance(e, str) else where(e), msg)
        return good

    tree = field(mk("deref", I.rootargs[0]), None, R.field(REMAP, "img_to_host"))
    for e in evs(I, LOOKUP):
        ob("tree", norm(I, e.snap[0]) is norm(I, tree) and e.snap[1] in (I.rootargs[1], mk("deref", I.rootargs[1])), "the directory asked for is looked up", e, "looked up is %s in %s" % (show(e.snap[1]), show(e.snap[0])))
    n = 0
    for e in I.events():
        for ph, on, kind, pre, out, queued in e.mon or ():
            if e.kind == "call" and e.name.endswith(NEXT) and on:
                ob("out", out, "every entry is returned", e, "an entry can be left out")
        if e.kind == "push" and e.mon and any(m[1] for m in e.mon) and handled(L, e, I):
            n += 1
            for x in F.vals(e.args[1]):
                good = x.op == "agg" and x.args[0] == FE and atom(same_text(field(x, None, kn)), "name") and L.part(field(x, None, kk)) == (kk, L.ke) and L.part(field(x, None, kl)) == (kl, L.ke)
                ob("entry", good, "with its name in the image, its kind and size", e, "an entry is returned as " + show(x))
    ob("entries", n > 0, "entries are returned", L.span, "no entries are returned")
    for st, v in I.results:
        ph = the_mon(st)[0]
        if is_ok(v):
            ob("ok", ph == "listed", "all of a directory found", L.span, "success in phase " + ph)
            els, other, _ = vec_closure(I, payload(v))
            ob("result", els and not other, "and nothing else", L.span, "the list returned is changed: " + ", ".join(map(show, other)))
        else:
            ob("err", ph == "missing", "fails only where there is no directory", L.span, "listing fails in phase " + ph)


def copies(R, roles):
    """a file's bytes are read from the path it is mapped from"""
    path = next(p for p in R.P.fns if p.endswith("FilesystemCopier<BDW>>::copy_file_in") and "RemapOverlayFilesystem" in p)
    kh = R.field(ENTRY, "host_path")
    span = R.fn(path).span

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name == GET:
            return cases(case(I, st.copy(), mk("agg", OPTION, 1, (mk("ref", ("D", at(e, "entry")), (), False),)), "found"), case(I, st, mk("agg", OPTION, 0, ()), "missing"))
        if e.name == COPYIN:
            return cases(case(I, st.copy(), ok(at(e, "n")), "copied"), case(I, st, err(at(e, "io")), "failed"))

    I = R.analyse(path, result=result, mon0=("none",), esp=True, opaque=lambda p: p in (GET, COPYIN))
    A = I.rootargs
    slf = mk("deref", A[0])

    def ob(key, good, what, e, msg):
        R.ob("copy", key, good, what, e if isinstance(e, str) else where(e), msg)

    for e in evs(I, GET):
        ob("lookup", norm(I, e.snap[0]) is norm(I, field(slf, None, R.field(REMAP, "img_to_host"))) and e.snap[1] in (A[1], mk("deref", A[1])), "the path asked for is looked up", e, "looked up is " + show(e.snap[1]))
    n = 0
    for e in evs(I, COPYIN):
        n += 1
        p = e.snap[1]
        base_ = p.args[0] if p.op == "field" else p
        while base_.op == "deref":
            base_ = base_.args[0]
        ob("path", p.op == "field" and p.args[2] == kh and (atom(base_, "entry") or base_.op == "ref" and atom(base_.args[0][1], "entry")), "from the path it is mapped from", e, "the bytes are read from " + show(p))
        ob("args", [norm(I, x) for x in e.args[3:6]] == [norm(I, x) for x in A[3:6]], "the part asked for", e, "what is copied is " + ", ".join(map(show, e.args[3:6])))
        ob("dest", e.args[2] is A[2] or e.snap[2] is mk("deref", A[2]) or e.args[2].op == "ref" and e.args[2].args[0] == ("D", A[2]), "to the place asked for", e, "copied to " + show(e.args[2]))
    ob("copies", n > 0, "bytes are copied", span, "nothing is copied")
    for st, v in I.results:
        m = the_mon(st)
        if is_ok(v):
            ob("ok", m == "copied" and atom(payload(v), "n"), "the count of the copy", span, "returned is " + show(payload(v)))
        else:
            ob("err", m in ("missing", "failed"), "fails only when that fails", span, "copying fails in phase " + m)


def placeholders(R):
    """{n} asks for capture n, n in decimal; anything else in braces is refused"""
    span = R.fn(INDICES).span
    CODE = {123: True, 125: False}

    def char(f):
        """the fact says which character is looked at: (its code, or None when it is no digit)"""
        x = f.args[0]
        if f.op == "isvar" and x.op == "app" and last(x) == "to_digit" and f.args[1] == 0:
            return "none"
        if f.op == "eq" and x.op == "lin" and len(x.args[1]) == 1 and x.args[1][0][0].op == "elem" and abs(x.args[1][0][1]) == 1:
            return abs(x.args[0])

    def monitor(m, e, st, I):
        if e.kind == "push":
            return [("B",) + m[1:]]

    def learned(m, st, I):
        for f in I.fresh:
            k = char(f)
            if k == "none" and m[2]:
                m = (m[0], True, m[2])
            elif k in CODE:
                m = m[:2] + (CODE[k],)
        return [m]

    I = R.analyse(INDICES, monitor=monitor, learned=learned, mon0=(("A", False, False),), esp=True)
    F = Flow(I)

    def ob(key, good, what, e, msg):
        R.ob("placeholders", key, good, what, e if isinstance(e, str) else where(e), msg)
        return good

    def sources(v):
        """the numbers a placeholder can have: (odd ones, merge points gone through, digits added)"""
        odd, seen, added, todo = [], set(), 0, [v]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "phi" and x in I.phi_info:
                todo += [y for y, f, b in I.phi_info[x].values()]
            elif int_val(x) == 0:
                pass
            elif x.op == "lin" and x.args[0] == 0 and sorted(c for t, c in x.args[1]) == [1, 10]:
                d = next(t for t, c in x.args[1] if c == 1)
                if any(a.op == "app" and last(a) == "to_digit" and isint_const(a.args[1][1], 10) for a in allsubs(d)):
                    added += 1
                    todo.append(next(t for t, c in x.args[1] if c == 10))
                else:
                    odd.append(x)
            elif x.op == "field" and x.args[0].op == "app" and last(x.args[0]) == "to_digit":
                pass            # the first digit
            else:
                odd.append(x)
        return odd, seen, added

    n = 0
    for e in evs(I, kind="push"):
        n += 1
        ob("closed", any(char(f) == 125 for f in e.facts), "a placeholder ends at }", e, "a placeholder can end elsewhere")
        odd, seen, added = sources(e.args[1])
        ob("decimal", not odd and added, "its number is read in decimal", e, "a placeholder's number can be " + ", ".join(map(show, odd)))
        if the_mon(e)[0] == "B":
            ob("afresh", not any("('A'" in str(x.args[2]) for x in seen if x.op == "phi"), "each number starts afresh", e, "a placeholder's number goes on from the one before")
    ob("found", n > 0, "placeholders are found", span, "no placeholders are found")
    for st, v in I.results:
        ph, bad, open_ = the_mon(st)
        if is_ok(v):
            ob("ok", not bad and not open_, "only well-formed ones are accepted", span, "a malformed placeholder is accepted")
            els, other, _ = vec_closure(I, payload(v))
            ob("result", not other, "all placeholders are returned", span, "the list is changed: " + ", ".join(map(show, other)))
        else:
            ob("err", bad or open_, "only malformed ones are refused", span, "a well-formed placeholder can be refused")


def command(R):
    """build-image hands the rules on in the order given; the dry run and the image use the same overlay"""
    span = R.fn(CMD).span
    ARGS = "xdvdfs::cmd_build_image::BuildImageArgs"
    km, kd, ks = (R.field(ARGS, n) for n in ("map_rules", "dry_run", "source_path"))
    kr = R.field(CFG, "map_rules")
    OVER = "RemapOverlayFilesystem::<FS>::"

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name.endswith(OVER + "new"):
            return cases(case(I, st.copy(), ok(at(e, "overlay")), m), case(I, st, err(at(e, "bad")), "failed"))
        if e.name.endswith(OVER + "dump"):
            return cases(case(I, st, at(e, "mapped"), "listed"))
        if e.name.endswith("::Path::is_dir"):
            return cases(case(I, st, at(e, "isdir", "dir"), m))
        if e.name.endswith("::create_xdvdfs_image"):
            return cases(case(I, st.copy(), ok(UNIT), "created"), case(I, st, err(at(e, "bad")), "failed"))

    def mapped(e):
        return any(atom(a, "mapped") for a in allsubs(e.snap[0]))

    def monitor(m, e, st, I):
        if e.kind in ("iter", "iterend") and mapped(e):
            return ["pending" if e.kind == "iter" else "dumped"]
        if e.kind == "call" and e.name == PRINT and m == "pending":
            return ["shown"]

    I = R.analyse(CMD, result=result, monitor=monitor, mon0=("none",), esp=True, cap=300,
                  opaque=lambda p: p.endswith(OVER + "new") or p.endswith(OVER + "dump") or p.endswith("::create_xdvdfs_image"))
    F = Flow(I)
    args = mk("deref", I.rootargs[0])

    def ob(key, good, what, e, msg):
        R.ob("command", key, good, what, e if isinstance(e, str) else where(e), msg)
        return good

    n, kinds = 0, set()
    for e in I.events():
        if e.kind != "call" or not e.mon:
            continue
        if e.name.endswith(OVER + "new"):
            n += 1
            kinds |= rules(R, I, F, field(e.snap[1], None, kr), field(args, None, km), e, ob)
            for x, f in F.spread(e.snap[0], e.facts):
                x = plain(x.args[2][0] if x.op == "agg" and len(x.args[2]) == 1 else x)
                up = x.op == "field" and x.args[0].op == "app" and last(x.args[0]) == "parent"
                y = plain(x.args[0].args[1][0]) if up else x
                while y.op == "field" and y.args[0] is not args:
                    y = y.args[0]
                known = {a.args[-1][2]: h.op != "not" for h in f for a in [h.args[0] if h.op == "not" else h] if atom(a, "isdir")}
                good = y.op == "field" and y.args[2] == ks or y.op == "sym" and y.args[0] == "call"
                ob("source", good and known.get("dir") is (not up), "over the source directory given, or the one the file given is in", e, "the overlay is over " + show(x))
        if e.name.endswith(OVER + "dump") or e.name.endswith("::create_xdvdfs_image"):
            ob("same", all(atom(x, "overlay") for x in F.vals(e.snap[0])), "the overlay made from the rules is used", e, "used is " + show(e.snap[0]))
    ob("sources", kinds == {"option", "table"}, "rules come from the options and from the file", span, "rules come only from: " + ", ".join(sorted(kinds)))
    ob("overlay", n > 0, "the overlay is made", span, "no overlay is made")
    turns = set()
    for e in I.events():
        if e.kind in ("iter", "iterend") and mapped(e):
            ob("printed", atom(e.snap[0], "mapped"), "the whole list is printed", e, "only a part of the list is printed")
            ob("printed", "pending" not in (e.mon or ()), "entry by entry", e, "an entry of the mapping is not printed")
            if e.kind == "iter":
                turns |= F.leaves(e.snap[1])
        if e.kind == "call" and e.name == PRINT and "pending" in (e.mon or ()):
            order = {0: [], 1: []}
            for n, x in enumerate(fmt_parts(e.snap[0]) or ()):
                for a in allsubs(x) if not isinstance(x, str) else ():
                    if a.op == "field" and a.args[2] in order and all(h.op == "field" and h.args[0].op == "elem" and atom(h.args[0].args[0], "mapped") for h, in F.heads(a)):
                        order[a.args[2]].append(n)
            ob("pair", order[0] and order[1] and max(order[0]) < min(order[1]), "the source's path and then the image's", e, "what is printed is " + show(e.snap[0]))
    ob("printed", 0 in turns and turns <= {0, 1, ("+", 1)}, "from the first entry on", span, "the entries printed are number %s" % sorted(map(str, turns)))
    for st, v in I.results:
        m = the_mon(st)
        if is_ok(v):
            ob("ok", m in ("dumped", "created"), "success after the image is made or the list printed", span, "success in phase " + m)


def rules(R, I, F, t, given, e, ob):
    """the rules are those given, in that order"""
    kinds = set()
    for x in F.vals(t):
        els, other, _ = vec_closure(I, x)
        ob("rules", not other, "rules are only added one after another", e, "the rules are also changed: " + ", ".join(map(show, other)))
        for y in els:
            for z, f in F.spread(y):
                if not ob("rule", z.op == "agg" and len(z.args[2]) == 2, "as patterns with image paths", e, "a rule is " + show(z)):
                    continue
                h, p = (plain(a) for a in z.args[2])
                kinds.add("option" if h.op == "elem" else "table")
                if h.op == "elem" and h.args[0].op == "app" and last(h.args[0]) in ("split", "splitn", "split_once"):
                    r = h.args[0].args[1][0]
                    seq = unref(r.args[0]) if r.op == "elem" else r
                    if seq.op == "deref" and seq.args[0].op == "app" and last(seq.args[0]) == "default":
                        continue        # an empty list has no elements
                    ob("host", isint_const(h.args[1], 0) and r.op == "elem" and seq.op == "field" and seq.args[0] is given and F.counts(r.args[1]), "the text before the colon of each option in turn", e,
                       "a rule's pattern is " + show(h))
                    ob("image", literal(p) == "" or p.op == "elem" and p.args[0] is h.args[0] and isint_const(p.args[1], 1), "the text after it, or nothing", e, "a rule's image path is " + show(p))
                elif h.op == "field" and not any(a is given for a in allsubs(h)):
                    src = h
                    while src.op in ("field", "deref"):
                        src = src.args[0]
                    q = [a.args[1][0] for a in allsubs(p) if a.op == "app" and last(a) == "as_str"]
                    if not q and p.op == "field" and p.args[1] is not None:
                        q = [plain(p.args[0])]      # the text of the value matched
                    good = len(q) == 1 and q[0].op == "field" and h.args[0] is q[0].args[0] and (h.args[2], q[0].args[2]) == (0, 1)
                    ob("table", good, "key and value of the table", e, "a rule is %s -> %s" % (show(h), show(p)))
                else:
                    ob("host", False, "", e, "a rule's pattern is " + show(h))
    return kinds


def unref(t):
    """the value behind a reference to part of what a pointer points to"""
    if t.op == "deref" and t.args[0].op == "ref" and t.args[0].args[0][0] == "D" and all(x[0] == "f" for x in t.args[0].args[1]):
        x = mk("deref", t.args[0].args[0][1])
        for _, v, i in t.args[0].args[1]:
            x = field(x, v, i)
        return x
    return t


def plain(t):
    t = same_text(t)
    while t.op == "deref":
        t = same_text(t.args[0])
    return t


def check(R):
    X, F, prefix, roles = decision(R)
    if prefix is None or None in roles:
        return
    walk(R, prefix, roles)
    placeholders(R)
    dump(R, roles)
    read_dir(R, roles)
    copies(R, roles)
    command(R)
