"""On-disk layout.  For every structure stored on disk the sequence of fields its encoder emits and its decoder
consumes is extracted by abstract interpretation of the Serialize / Visitor implementations (a typestate automaton
records the field of each step; success requires the complete sequence), flattened down to primitive widths and
compared with the format table; the encode/decode entry points are checked to run that codec on the whole value /
buffer with little-endian fixed-width integers and nothing else.  Attribute bit positions and the descriptor
constructor are compared with the format as well."""
from base import *

FLOORS = {"layout": 2, "fields": 12, "options": 4, "bits": 4, "descriptor": 3}
L = "xdvdfs::layout::"

ENTRY = [("left_entry_offset", "u16"), ("right_entry_offset", "u16"), ("dirent.data.sector", "u32"),
         ("dirent.data.size", "u32"), ("dirent.attributes.0", "u8"), ("dirent.filename_length", "u8")]
DESC = [("magic0", "[u8; 20]"), ("root_table.region.sector", "u32"), ("root_table.region.size", "u32"), ("filetime", "u64"),
        ("unused", "[u8; 1992]"), ("magic1", "[u8; 20]")]
BITS = {"read_only": 0, "hidden": 1, "system": 2, "directory": 4, "archive": 5, "normal": 7}
STEP_SER = ("serde::ser::SerializeStruct::serialize_field", "serde::ser::SerializeTupleStruct::serialize_field",
            "serde::ser::SerializeTuple::serialize_element")
END_SER = ("serde::ser::SerializeStruct::end", "serde::ser::SerializeTupleStruct::end", "serde::ser::SerializeTuple::end")
START_SER = ("serde::Serializer::serialize_struct", "serde::Serializer::serialize_tuple_struct", "serde::Serializer::serialize_tuple")
NEWTYPE = "serde::Serializer::serialize_newtype_struct"
NEXT = "serde::de::SeqAccess::next_element"
SOPT = "bincode::Options::serialize"


def find(R, *pats):
    for p in pats:
        for f in R.P.fns:
            if f == p:
                return f
    raise MissingAnchor(pats[0], "implementation %s not found" % pats[0])


def ser_fn(R, adt):
    return find(R, "xdvdfs::layout::_::<impl serde::Serialize for %s>::serialize" % adt, "<%s as serde::Serialize>::serialize" % adt)


def fields(R, adt):
    a = R.P.adts.get(adt)
    if a is None:
        raise MissingAnchor(adt, "type %s not found" % adt)
    return a["variants"][0]["fields"]


def unwrap_with(R, I, e, v):
    """the field behind a `serialize_with` wrapper, when the wrapper only encodes that field as a plain array"""
    if v.op == "agg" and "__SerializeWith" in v.args[0]:
        w = "<%s<'__a> as serde::Serialize>::serialize" % v.args[0]
        if w not in R.P.fns:
            return None
        J = R.analyse(w, opaque=lambda p: p.startswith("serde_big_array"))
        inner = evs(J, "serde_big_array::BigArray::serialize")
        if len(inner) != 1 or any(r is not inner[0].ret for _, r in J.results) or len(list(evs(J))) != 1:
            return None
        x = inner[0].args[0]
        # the wrapper holds (&field, ..): follow the reference stored in it
        path = []
        while x.op == "field":
            path.append(x.args[2])
            x = x.args[0]
        if x is not mk("deref", J.rootargs[0]):
            return None
        y = v
        for i in reversed(path):
            y = field(y, None, i)
        return I.load(e.state, y) if e.state is not None else None
    return v


def ser_seq(R, adt):
    """field indices emitted, in order, by the encoder of adt"""
    path = ser_fn(R, adt)
    key = adt.rsplit("::", 1)[1]
    probs = []

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name in STEP_SER or e.name == NEWTYPE:
            v = e.snap[-1]
            w = unwrap_with(R, I, e, v)
            if w is None:
                probs.append("a field is encoded through " + show(v)[:80])
                w = v
            slf = mk("deref", I.rootargs[0])
            idx = None
            for i in range(len(fields(R, adt))):
                if field(slf, None, i) is w:
                    idx = i
            if idx is None:
                probs.append("something other than a field is encoded: " + show(w)[:80])
            return ok_err(I, st, m + (idx,), "failed", fresh("s"))
        if e.name in START_SER:
            return ok_err(I, st, m, "failed", fresh("s"))
        if e.name in END_SER:
            return ok_err(I, st, m + ("end",), "failed", fresh("s"))
        if e.name.startswith("serde::"):
            probs.append("unexpected codec call " + e.name)

    def opq(p):
        return p.startswith("serde_big_array") or "__SerializeWith" in p

    I = R.analyse(path, result=result, mon0=((),), esp=True, keep_state=True, opaque=opq)
    seqs = set()
    for st, v in I.results:
        m = the_mon(st)
        if is_ok(v):
            seqs.add(m)
        else:
            R.ob("fields", key + ":encode-fail", is_err(v) and m == "failed", "%s: encoding fails only when the writer fails" % key, R.fn(path).span,
                 "%s: encoding returns %s after %s" % (key, show(v)[:60], m))
    for p in probs:
        R.ob("fields", key + ":encode", False, "", R.fn(path).span, "%s: %s" % (key, p))
    good = len(seqs) == 1
    R.ob("fields", key + ":encode-one", good, "%s: one encoding sequence" % key, R.fn(path).span, "%s is encoded as %s" % (key, sorted(map(str, seqs))))
    if not good:
        return []
    s = [i for i in next(iter(seqs)) if i != "end" and i is not None]
    return s


def de_seq(R, adt):
    """field indices filled, in order, by the decoder of adt"""
    key = adt.rsplit("::", 1)[1]
    imp = "xdvdfs::layout::_::<impl serde::Deserialize<'de> for %s>::deserialize" % adt
    vis = "<%s::__Visitor<'de> as serde::de::Visitor<'de>>::" % imp
    n = len(fields(R, adt))
    D = R.analyse(find(R, imp, "<%s as serde::Deserialize<'de>>::deserialize" % adt))
    ent = [e for e in evs(D) if e.name.startswith("serde::Deserializer::deserialize_")]
    good = len(ent) == 1 and all(r is ent[0].ret for _, r in D.results)
    kind = ent[0].name.rsplit("_", 2) if good else None
    newtype = False
    if good:
        nm = ent[0].name.rsplit("::", 1)[1]
        if nm == "deserialize_struct":
            good = int_val(length(ent[0].snap[2])) == n
        elif nm == "deserialize_newtype_struct":
            newtype = True
        elif nm in ("deserialize_tuple", "deserialize_tuple_struct"):
            good = int_val(ent[0].snap[1 if nm == "deserialize_tuple" else 2]) == n
        else:
            good = False
    R.ob("fields", key + ":decode-entry", good, "%s: decoded as a sequence of its %d fields" % (key, n), R.fn(imp).span,
         "%s: the decoder does not read its %d fields as a plain sequence" % (key, n))
    if newtype:
        p = find(R, vis + "visit_newtype_struct")
        I = R.analyse(p)
        de = evs(I, "serde::Deserialize::deserialize")
        good = len(de) == 1 and n == 1
        for st, v in I.results:
            if is_ok(v):
                good = good and payload(v) is agg(adt, 0, [field(de[0].ret, 0, 0)])
        R.ob("fields", key + ":decode", good, "%s: decoded as its single field" % key, R.fn(p).span)
        return [0] if good else []
    p = find(R, vis + "visit_seq")
    nexts = []

    def result(I, st, e, ret):
        m = the_mon(st)
        if e.name == NEXT:
            nexts.append(e)
            v = at(e, ("item",))
            return cases(case(I, st, ok(some(v)), m + (v,)), case(I, st, ok(agg("std::option::Option", 0, ())), "failed"),
                         case(I, st, err(at(e, ("e",))), "failed"))

    from rules.dirent import at
    I = R.analyse(p, result=result, mon0=((),), esp=True)
    out = set()
    for st, v in I.results:
        m = the_mon(st)
        if not is_ok(v):
            R.ob("fields", key + ":decode-fail", m == "failed", "%s: decoding fails only when the input does" % key, R.fn(p).span,
                 "%s: decoding a complete sequence can fail" % key)
            continue
        if m == "failed" or payload(v).op != "agg":
            out.add(("incomplete",))
            continue
        vals = list(payload(v).args[2])
        seq = []
        for x in m:
            for i, y in enumerate(vals):
                if y is x or (y.op == "field" and y.args[0] is x and "unused" == fields(R, adt)[i]["name"]):
                    seq.append(i)
                    break
            else:
                seq.append("dropped")
        out.add(tuple(seq))
    R.ob("fields", key + ":decode", len(out) == 1, "%s: one decoding sequence" % key, R.fn(p).span, "%s is decoded as %s" % (key, sorted(map(str, out))))
    return list(next(iter(out))) if len(out) == 1 else []


def flatten(R, adt, seqs, i):
    out = []
    fs = fields(R, adt)
    for k in seqs[adt][i]:
        if not isinstance(k, int):
            out.append((str(k), "?"))
            continue
        f = fs[k]
        t = f["ty"]
        if t.k == "adt" and t.s in seqs:
            out += [(f["name"] + "." + n, s) for n, s in flatten(R, t.s, seqs, i)]
        else:
            out.append((f["name"], t.s))
    return out


def chain(R, t):
    """(operation, options, subject) of a codec call term, or None"""
    if t.op != "app":
        return None
    f, A = t.args[0], t.args[1]
    if f in ("bincode::serialize", "bincode::deserialize") and len(A) == 1:
        return f.rsplit("::", 1)[1], {"fixint", "little"}, A[0]
    if f not in (SOPT, DESER):
        return None
    opts = []
    x = A[0]
    while x.op == "app" and len(x.args[1]) == 1 and x.args[0].startswith("bincode::Options::"):
        opts.append(x.args[0].rsplit("::", 1)[1])
        x = x.args[1][0]
    if x.op != "app" or not x.args[0].startswith("bincode::") or not x.args[0].endswith("DefaultOptions::new"):
        opts.append("base " + show(x))
    # bincode's default options: little-endian, variable-length integers; the last setter of each kind wins
    eff = {"endian": "little", "int": "varint"}
    other = []
    for o in reversed(opts):
        if o in ("with_little_endian", "with_big_endian", "with_native_endian"):
            eff["endian"] = o.split("_")[1]
        elif o in ("with_fixint_encoding", "with_varint_encoding"):
            eff["int"] = o.split("_")[1]
        elif o in ("with_no_limit", "reject_trailing_bytes"):
            pass
        else:
            other.append(o)
    return f.rsplit("::", 1)[1], set(eff.values()) | set(other), A[1]


def options(R):
    for adt in (DISKNODE, VOLUME):
        key = adt.rsplit("::", 1)[1]
        for op in ("serialize", "deserialize"):
            path = adt + "::" + op
            I = R.analyse(path)
            for st, v in I.results:
                c = chain(R, v)
                good = c is not None and c[0] == op and c[1] in ({"fixint", "little"}, {"fixint", "little", "allow_trailing_bytes"})
                subj = c[2] if c else None
                if good:
                    good = subj in (I.rootargs[0], mk("deref", I.rootargs[0]))
                R.ob("options", key + "." + op, good, "%s: whole value, fixed little-endian integers" % path, R.fn(path).span,
                     "%s::%s does not run the little-endian fixed-width codec on the whole value: %s" % (
                         key, op, "options %s on %s" % (sorted(c[1]), show(subj)) if c else show(v)[:160]))


def check(R):
    seqs = {}
    for adt in (DISKNODE, DISKDATA, REGION, L + "DirentAttributes", VOLUME, TABLE):
        seqs[adt] = (ser_seq(R, adt), de_seq(R, adt))
    for adt, want in ((DISKNODE, ENTRY), (VOLUME, DESC)):
        for i, what in ((0, "encoded"), (1, "decoded")):
            got = flatten(R, adt, seqs, i)
            R.ob("layout", "%s:%s" % (adt.rsplit("::", 1)[1], what), got == want, "%s is %s as %s" % (adt, what, got),
                 ser_fn(R, adt), "%s is %s as %s; the format is %s" % (
                     adt, what, ", ".join("%s: %s" % x for x in got), ", ".join("%s: %s" % x for x in want)))
    options(R)

    # attribute bits
    for n, b in BITS.items():
        p = L + "DirentAttributes::" + n
        if p not in R.P.fns:
            if n == "directory":
                R.fn(p)
            continue
        I = R.analyse(p)
        for st, v in I.results:
            x = field(mk("deref", I.rootargs[0]), None, 0)
            good = v.op == "bit" and v.args[0] is x and int_val(v.args[1] if not isinstance(v.args[1], int) else INT(v.args[1])) == b
            R.ob("bits", n, good, "attribute %s is bit %d" % (n, b), R.fn(p).span, "attribute %s is read as %s, not bit %d" % (n, show(v), b))

    # constructors
    I = R.analyse(VOLUME + "::new")
    magic = mk("arr", tuple(INT(b) for b in MAGIC))
    vals = {"magic0": magic, "magic1": magic, "root_table": I.rootargs[0], "filetime": INT(0)}
    for st, v in I.results:
        for f, x in zip(fields(R, VOLUME), v.args[2] if v.op == "agg" else []):
            if f["name"] in vals:
                R.ob("descriptor", f["name"], x is vals[f["name"]], "a new descriptor has %s = %s" % (f["name"], show(x)[:60]), R.fn(VOLUME + "::new").span,
                     "a new volume descriptor has %s = %s" % (f["name"], show(x)[:100]))
    I = R.analyse(TABLE + "::new")
    size, sector = I.rootargs
    for st, v in I.results:
        reg = field(v, None, R.field(TABLE, "region"))
        R.ob("descriptor", "table", field(reg, None, R.field(REGION, "size")) is size and field(reg, None, R.field(REGION, "sector")) is sector,
             "a table is made from (size, sector)", R.fn(TABLE + "::new").span, "DirectoryEntryTable::new(size, sector) builds %s" % show(v))
    # a directory's table is the extent recorded in its entry
    I = R.analyse(DISKDATA + "::dirent_table")
    d = mk("deref", I.rootargs[0])
    for st, v in I.results:
        if v.op == "agg" and v.args[1] == 1:
            t = v.args[2][0]
            R.ob("descriptor", "dirent_table", field(t, None, R.field(TABLE, "region")) is field(d, None, R.field(DISKDATA, "data")),
                 "a directory's table is its entry's extent", R.fn(DISKDATA + "::dirent_table").span, "the table of a directory is %s" % show(t))
