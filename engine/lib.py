"""Transfer functions for library code (std and third-party crates).

Everything not listed here is treated as an opaque effect: the call is recorded
as an event, whatever it can reach through `&mut` is forgotten and its result
is a fresh unknown.
"""
import re

from terms import *
from mir import norm

BOX = "std::boxed::Box"
ORD = "std::cmp::Ordering"

_gen = re.compile(r"::<impl [^>]*(?:<[^<>]*>)?[^>]*>")


def simp(name):
    """strip generic arguments / inherent impl markers from a path"""
    if name is None:
        return None
    if name.startswith("<"):
        return name
    out = []
    depth = 0
    i = 0
    while i < len(name):
        if name.startswith("::<", i) and depth == 0:
            # skip balanced <...>
            j = i + 2
            d = 0
            while j < len(name):
                if name[j] == "<":
                    d += 1
                elif name[j] == ">" and name[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(name[i])
        i += 1
    return "".join(out)


# result depends only on the (pointed-to) argument values, no effect
PURE = set("""
std::path::Path::join std::path::Path::with_extension std::path::Path::with_file_name std::path::Path::file_name
std::path::Path::extension std::path::Path::parent std::path::Path::display std::path::Path::starts_with
std::path::Path::to_str std::path::Path::to_string_lossy std::path::Path::components std::path::Path::is_absolute
std::path::Path::file_stem std::path::Path::strip_prefix std::path::Path::ends_with
std::path::Path::iter std::path::Path::has_root std::path::Path::is_relative
std::ffi::OsStr::to_str std::ffi::OsStr::to_string_lossy std::ffi::OsStr::to_os_string std::ffi::OsStr::len
std::str::trim_start_matches std::str::trim_end_matches std::str::trim std::str::trim_matches std::str::starts_with std::str::ends_with
std::str::replace std::str::contains std::str::strip_prefix std::str::strip_suffix std::str::split_once std::str::rsplit_once
std::str::to_lowercase std::str::to_uppercase std::str::to_ascii_lowercase std::str::to_ascii_uppercase std::str::find
std::str::rfind std::str::parse std::str::eq_ignore_ascii_case std::str::trim_start std::str::trim_end std::str::repeat
std::slice::join std::slice::concat std::slice::starts_with std::slice::ends_with std::slice::contains
std::char::methods::to_ascii_uppercase std::char::methods::to_ascii_lowercase std::char::methods::to_digit
std::char::methods::is_ascii std::char::methods::is_alphanumeric std::char::methods::len_utf8
std::num::to_ascii_uppercase std::num::to_ascii_lowercase std::num::eq_ignore_ascii_case
bincode::DefaultOptions::new bincode::Options::serialize bincode::Options::deserialize
bincode::Options::with_fixint_encoding bincode::Options::with_little_endian bincode::Options::with_big_endian
bincode::Options::with_varint_encoding bincode::Options::allow_trailing_bytes bincode::Options::reject_trailing_bytes
bincode::Options::with_limit bincode::Options::with_no_limit bincode::Options::with_native_endian
bincode::Options::serialized_size bincode::options
encoding_rs::Encoding::decode_without_bom_handling_and_without_replacement
encoding_rs::Encoding::new_encoder encoding_rs::Encoding::decode encoding_rs::Encoding::encode
std::fs::Metadata::is_dir std::fs::Metadata::is_file std::fs::Metadata::len std::fs::Metadata::modified
std::fs::Metadata::accessed std::fs::Metadata::created std::fs::Metadata::file_type std::fs::Metadata::is_symlink
std::fs::DirEntry::path std::fs::DirEntry::file_name
std::os::unix::fs::MetadataExt::ctime std::os::unix::fs::MetadataExt::ctime_nsec
std::os::unix::fs::MetadataExt::dev std::os::unix::fs::MetadataExt::ino
std::fs::FileType::is_dir std::fs::FileType::is_file
std::collections::BTreeMap::get std::collections::HashMap::get std::collections::BTreeMap::len
std::collections::HashMap::len std::collections::BTreeMap::first_key_value std::collections::BTreeMap::last_key_value
std::collections::BTreeMap::contains_key std::collections::HashMap::contains_key
std::collections::BTreeMap::is_empty std::collections::HashMap::is_empty
std::collections::BTreeMap::range std::collections::BTreeMap::keys std::collections::BTreeMap::values
std::fmt::rt::Argument::new_debug std::fmt::rt::Argument::new_display std::fmt::rt::Argument::new_lower_hex
std::fmt::rt::Argument::new_upper_hex std::fmt::Arguments::new std::fmt::Arguments::from_str
std::fmt::Arguments::from_str_nonconst std::fmt::format
anyhow::__private::format_err anyhow::__private::must_use anyhow::Error::msg anyhow::error::msg
std::io::error::new std::io::error::other std::io::Error::new std::io::Error::other std::io::error::kind std::io::Error::kind
std::time::Duration::new std::time::Duration::from_secs
wax::MatchedText::get wax::Pattern::is_match wax::Pattern::matched wax::Glob::new wax::any
toml::Value::as_str toml::map::Map::iter toml::map::Map::new
fuser::Request::uid fuser::Request::gid
std::ops::Add::add std::ops::Mul::mul std::ops::Sub::sub
proc_bitfield::BitRange::bit_range
sha3::Digest::new md5::Digest::new sha3::Digest::finalize md5::Digest::finalize digest::Digest::new digest::Digest::finalize
std::str::from_utf8 std::string::String::from_utf8 std::string::String::from_utf8_lossy
std::num::count_ones std::num::leading_zeros std::num::trailing_zeros std::num::pow std::num::is_power_of_two
std::num::from_le_bytes std::num::from_be_bytes std::num::to_le_bytes std::num::to_be_bytes
log::max_level std::num::isqrt std::num::swap_bytes
arrayvec::ArrayString::capacity arrayvec::ArrayString::remaining_capacity
std::mem::size_of std::any::type_name
std::env::args std::io::stdout std::io::stderr
""".split())

# same pointer / value comes back
IDENT = set("""
std::ops::Deref::deref std::ops::DerefMut::deref_mut std::convert::AsRef::as_ref std::convert::AsMut::as_mut
std::borrow::Borrow::borrow std::borrow::BorrowMut::borrow_mut
std::string::String::as_str std::string::String::as_bytes std::str::as_bytes std::vec::Vec::as_slice std::vec::Vec::as_mut_slice
std::array::as_slice std::path::Path::new std::path::PathBuf::as_path std::path::Path::as_os_str std::string::String::as_mut_str
std::ffi::OsStr::new std::ffi::OsString::as_os_str std::boxed::Box::leak std::slice::as_ref
std::pin::Pin::new_unchecked std::pin::Pin::new std::pin::Pin::as_mut std::pin::Pin::get_mut std::pin::Pin::get_unchecked_mut
std::future::IntoFuture::into_future std::hint::must_use std::convert::identity
arrayvec::ArrayString::as_str std::borrow::Cow::as_ref std::hint::black_box
std::vec::Vec::into_iter_unused std::io::Read::by_ref std::io::Write::by_ref std::path::PathBuf::into_os_string
std::string::String::into_bytes std::path::PathBuf::into_boxed_path std::string::String::into_boxed_str
""".split())

# contents of the argument, as an owned value
CONTENT = set("""
std::borrow::ToOwned::to_owned std::string::ToString::to_string std::path::Path::to_path_buf std::slice::to_vec
std::borrow::Cow::into_owned std::clone::Clone::clone std::str::to_owned std::path::Path::to_owned
std::option::Option::cloned_unused std::string::String::from_str std::slice::into_vec std::borrow::Cow::to_string
std::ffi::OsStr::to_owned std::ffi::OsStr::to_os_string std::boxed::Box::clone
""".split())

NOEVENT = set("""
log::__private_api::log log::__private_api::loc log::__private_api::enabled
std::vec::Vec::reserve std::vec::Vec::reserve_exact std::string::String::reserve std::fmt::Formatter::write_str
std::future::get_context
""".split())

CONTENT_TYPES = ("std::string::String", "std::path::PathBuf", "std::vec::Vec", "std::ffi::OsString")


class Lib:
    nosplit = {"#IterR", "#IterV", "#RevR", "#RevV"}
    enums = {OPTION, RESULT, CFLOW, POLL}

    def __init__(self, I):
        self.I = I
        self.tab = {}
        for n in dir(self):
            if n.startswith("b_"):
                f = getattr(self, n)
                for nm in (f.__doc__ or "").split():
                    self.tab[nm] = f

    # ------------------------------------------------------------ dispatch
    def builtin(self, st, call):
        I = self.I
        if simp(call.name) in ("std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once"):
            return self.b_call(st, call)        # the arguments come as a tuple
        if call.rname:
            f = I.resolve(call.rname)
            if f is not None:
                if not f.derived:
                    return None
                m = f.method
                if m == "clone":
                    return [(st, I.load(st, call.args[0]))]
                if m in ("eq", "ne"):
                    pass
                elif m in ("fmt",):
                    return [(st, app("fmt"))]
                else:
                    return None
        n = simp(call.name)
        f = self.tab.get(n)
        if f is not None:
            r = f(st, call)
            if r is not None:
                return r
        if n in IDENT:
            a = call.args[0]
            if n in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref",
                     "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow"):
                return self.deref(st, call, a)
            if n == "std::borrow::Cow::as_ref":
                return [(st, a)]
            if n.startswith("std::pin::Pin::as_mut"):
                return [(st, I.load(st, a))] if a.op == "ref" and I.load(st, a).op in ("ref", "agg") else [(st, a)]
            return [(st, a)]
        if n in CONTENT:
            a = call.args[0]
            t = call.argtys[0] if call.argtys else None
            if t is not None and t.k == "ref" and t.e is not None and t.e.k in ("int", "bool", "char") and \
                    n == "std::string::ToString::to_string":
                return [(st, app("disp", I.load(st, a)))]
            if n == "std::clone::Clone::clone":
                v = I.load(st, a)
                if v.op == "agg" and v.args[0] == BOX:
                    return [(st, v)]
                return [(st, v)]
            v = I.load(st, a) if (t is None or t.k == "ref") else a
            v = I.deep(st, v)
            if v.op == "app" and v.args[0] in ("Path::to_string_lossy", "std::path::Path::to_string_lossy"):
                pass
            return [(st, v)]
        if n in PURE:
            return [(st, self.pure(st, call, n))]
        if n in NOEVENT:
            t = call.destty
            if t is not None and t.k == "tuple" and not t.a:
                return [(st, UNIT)]
            return [(st, mk("sym", "noise", n))]
        return None

    def pure(self, st, call, n):
        I = self.I
        return app(n, *[I.deep(st, a) for a in call.args], ty=call.destty)

    def model(self, call):
        n = simp(call.name)
        p = "models::" + n.replace("::", "_")
        return self.I.p.fns.get(p)

    def future_result(self, st, call, fut):
        return None

    # ------------------------------------------------------------ helpers
    def split(self, st, v, adt, call=None):
        """enum value -> [(state, agg)]"""
        I = self.I
        if v.op == "agg" and v.args[0] == adt:
            return [(st, v)]
        a = I.p.adts.get(adt)
        nv = len(a["variants"]) if a else 2
        out = []
        for k in range(nv):
            s = st.copy()
            if I.refine(s, v, adt, k):
                fs = tuple(field(v, k, i, (f["ty"] if f["ty"] is not None and f["ty"].k in ("int", "bool", "adt") else None))
                           for i, f in enumerate(a["variants"][k]["fields"]))
                out.append((s, agg(adt, k, fs)))
        return out

    def splitp(self, st, p, adt):
        """enum behind a pointer -> [(state, agg)] (memory refined)"""
        I = self.I
        v = I.load(st, p)
        if v.op == "agg":
            return [(st, v)]
        out = []
        for s, a in self.split(st, v, adt):
            I.set(s, p, a)
            out.append((s, a))
        return out

    def panic(self, st, call, why, goal, args=()):
        I = self.I
        if goal is TRUE:
            return True
        I.emit(st, call, why, list(args), kind="panic", goal=goal)
        return I.assume(st, goal)

    def adt_of(self, t):
        if t is None:
            return None
        if t.k == "ref":
            t = t.e
        return t.p if t is not None and t.k == "adt" else None

    def argadt(self, call, i=0):
        if call.argtys and i < len(call.argtys) and call.argtys[i] is not None:
            return self.adt_of(call.argtys[i])
        return None

    def deref(self, st, call, a):
        I = self.I
        # &Box<T> / &Arc<T> -> pointer to the inside ; &Vec/&String/&PathBuf/ArrayString -> same pointer
        t = call.argtys[0] if call.argtys else None
        v = I.load(st, a) if a.op == "ref" else None
        if v is not None and v.op == "agg" and v.args[0] in (BOX, "std::sync::Arc", "std::rc::Rc"):
            return [(st, I.sub_ptr(a, ("f", None, 0)))]
        e = t.e if t is not None and t.k == "ref" else None
        if e is not None and (e.box or e.k == "adt" and e.p in ("std::sync::Arc", "std::rc::Rc")):
            return [(st, I.sub_ptr(a, ("f", None, 0)))]
        if v is not None and v.op == "ref" and e is not None and e.k == "ref":
            return [(st, v)]
        if e is not None and e.k == "adt" and e.p.startswith("std::sync::") and "Guard" in e.p:
            return [(st, mk("ref", ("D", I.load(st, a)), (), True))]
        if e is not None and e.k == "adt" and e.p in I.p.adts and I.p.adts[e.p].get("local"):
            return None
        return [(st, a)]

    # ------------------------------------------------------------ Try / Option / Result
    def b_branch(self, st, call):
        "std::ops::Try::branch"
        v = call.args[0]
        adt = v.args[0] if v.op == "agg" else self.argadt(call)
        if adt not in (RESULT, OPTION):
            return None
        out = []
        for s, a in self.split(st, v, adt):
            if adt == RESULT:
                if a.args[1] == 0:
                    out.append((s, agg(CFLOW, 0, a.args[2])))
                else:
                    out.append((s, agg(CFLOW, 1, (err(a.args[2][0]),))))
            else:
                if a.args[1] == 1:
                    out.append((s, agg(CFLOW, 0, a.args[2])))
                else:
                    out.append((s, agg(CFLOW, 1, (NONE,))))
        return out

    def convert(self, st, call, v, fr, to):
        """From/Into conversion -> [(state, value)]"""
        I = self.I
        if fr is not None and to is not None and fr.s == to.s:
            return [(st, v)]
        if to is not None:
            if to.k in ("int", "char"):
                if v.op == "bool" or (fr is not None and fr.k == "bool"):
                    return [(st, I.intcast(st, v, to, fr))]
                return [(st, v)]
            if to.k == "adt" and to.p in CONTENT_TYPES:
                return [(st, I.deep(st, v))]
            if to.box:
                d = I.deep(st, v) if v.op == "ref" else v
                if fr is not None and fr.k == "adt" and fr.p == "std::vec::Vec" or fr is not None and fr.k == "ref":
                    return [(st, agg(BOX, 0, (d,)))]
            if to.k == "adt" and fr is not None:
                for imp in I.p.impls:
                    if imp.get("trait") == "std::convert::From" and imp["self"].k == "adt" and imp["self"].p == to.p \
                            and imp["trait_args"]:
                        ta = imp["trait_args"][-1]
                        if not isinstance(ta, str) and (ta.s == fr.s or ta.k == fr.k == "adt" and ta.p == fr.p):
                            f = I.p.fns.get(imp["methods"].get("from"))
                            if f is not None:
                                return I.inline(st, call, f, [v])
            if to.k == "adt" and to.p == OPTION:
                return [(st, some(v))]
        return [(st, app("From", v, ty=to))]

    def b_from_residual(self, st, call):
        "std::ops::FromResidual::from_residual"
        v = call.args[0]
        d = call.destty
        if v.op == "agg" and v.args[0] == OPTION:
            return [(st, NONE)]
        if d is not None and d.k == "adt" and d.p == OPTION:
            return [(st, NONE)]
        e = field(v, 1, 0)
        fr = None
        if call.argtys and call.argtys[0] is not None and call.argtys[0].k == "adt" and len(call.argtys[0].a) > 1:
            fr = call.argtys[0].a[1]
        to = d.a[1] if d is not None and d.k == "adt" and len(d.a) > 1 else None
        if fr is None or isinstance(fr, str) or to is None or isinstance(to, str):
            return [(st, err(e))]
        return [(s, err(x)) for s, x in self.convert(st, call, e, fr, to)]

    def b_from_output(self, st, call):
        "std::ops::Try::from_output"
        d = call.destty
        if d is not None and d.is_adt(OPTION):
            return [(st, some(call.args[0]))]
        return [(st, ok(call.args[0]))]

    def b_from(self, st, call):
        "std::convert::From::from std::convert::Into::into std::str::FromStr::from_str arrayvec::ArrayString::from"
        n = simp(call.name)
        if n == "arrayvec::ArrayString::from":
            # fallible: CapacityError when the text is longer than the capacity
            v = self.I.deep(st, call.args[0])
            m = re.search(r"ArrayString<(\d+)", call.destty.s if call.destty is not None else "")
            cap = INT(int(m.group(1))) if m else mk("sym", "cap")
            s1, s2 = st.copy(), st.copy()
            out = []
            if self.I.assume(s1, le(length(v), cap)):
                out.append((s1, ok(v)))
            if self.I.assume(s2, lt(cap, length(v))):
                out.append((s2, err(app("CapacityError"))))
            return out
        if n == "std::str::FromStr::from_str":
            d = call.destty
            if d is not None and d.k == "adt" and d.a and not isinstance(d.a[0], str) and d.a[0].k == "adt" \
                    and d.a[0].p in CONTENT_TYPES:
                return [(st, ok(self.I.deep(st, call.args[0])))]
            return [(st, self.pure(st, call, n))]
        fr = call.argtys[0] if call.argtys else None
        return self.convert(st, call, call.args[0], fr, call.destty)

    def b_try_into(self, st, call):
        "std::convert::TryInto::try_into std::convert::TryFrom::try_from"
        I = self.I
        d = call.destty
        fr = call.argtys[0] if call.argtys else None
        if d is None or d.k != "adt" or not d.a or isinstance(d.a[0], str):
            return None
        to = d.a[0]
        v = call.args[0]
        if to.k == "int" and fr is not None and fr.k == "int":
            lo, hi = to.range()
            f0 = fr.range()
            out = []
            s1 = st.copy()
            if I.assume(s1, andb(le(INT(lo), v) if f0[0] < lo else TRUE, le(v, INT(hi)) if f0[1] > hi else TRUE)):
                out.append((s1, ok(v)))
            if f0[1] > hi:
                s2 = st.copy()
                if I.assume(s2, lt(INT(hi), v)):
                    out.append((s2, err(app("TryFromIntError"))))
            if f0[0] < lo:
                s2 = st.copy()
                if I.assume(s2, lt(v, INT(lo))):
                    out.append((s2, err(app("TryFromIntError"))))
            return out
        if to.k == "array":
            w = I.deep(st, v)
            nn = to.n
            out = []
            s1, s2 = st.copy(), st.copy()
            try:
                c = eq(length(w), INT(int(nn)))
            except (TypeError, ValueError):
                c = mk("b", "lenmatch", w)
            if I.assume(s1, c):
                out.append((s1, ok(w)))
            if I.assume(s2, notb(c)):
                out.append((s2, err(app("TryFromSliceError"))))
            return out
        return None

    def b_testvar(self, st, call):
        """std::option::Option::is_some std::option::Option::is_none std::result::Result::is_ok std::result::Result::is_err"""
        I = self.I
        n = simp(call.name)
        adt = OPTION if "Option" in n else RESULT
        k = {"is_some": 1, "is_none": 0, "is_ok": 0, "is_err": 1}[n.rsplit("::", 1)[1]]
        out = []
        for s, a in self.splitp(st, call.args[0], adt):
            out.append((s, BOOL(a.args[1] == k)))
        return out

    def b_optmap(self, st, call):
        """std::option::Option::map std::option::Option::and_then std::option::Option::map_or std::option::Option::map_or_else
        std::option::Option::ok_or std::option::Option::ok_or_else std::option::Option::unwrap_or
        std::option::Option::unwrap_or_else std::option::Option::unwrap_or_default std::option::Option::unwrap
        std::option::Option::expect std::option::Option::filter std::option::Option::is_some_and
        std::option::Option::is_none_or std::option::Option::or std::option::Option::or_else
        std::option::Option::inspect std::option::Option::ok_or_unused std::option::Option::copied std::option::Option::cloned
        std::option::Option::flatten std::option::Option::and std::option::Option::transpose std::option::Option::xor
        std::option::Option::zip std::option::Option::unzip_unused std::option::Option::unwrap_unchecked"""
        I = self.I
        m = simp(call.name).rsplit("::", 1)[1]
        out = []
        A = call.args
        for s, a in self.split(st, A[0], OPTION):
            isn = a.args[1] == 0
            x = None if isn else a.args[2][0]
            if m == "map":
                if isn:
                    out.append((s, NONE))
                else:
                    out += [(s2, some(r)) for s2, r in I.call_value(s, call, A[1], [x])]
            elif m == "and_then":
                out += [(s, NONE)] if isn else I.call_value(s, call, A[1], [x])
            elif m == "map_or":
                out += [(s, A[1])] if isn else I.call_value(s, call, A[2], [x])
            elif m == "map_or_else":
                out += I.call_value(s, call, A[1], []) if isn else I.call_value(s, call, A[2], [x])
            elif m == "ok_or":
                out.append((s, err(A[1]) if isn else ok(x)))
            elif m == "ok_or_else":
                if isn:
                    out += [(s2, err(r)) for s2, r in I.call_value(s, call, A[1], [])]
                else:
                    out.append((s, ok(x)))
            elif m == "unwrap_or":
                out.append((s, A[1] if isn else x))
            elif m == "unwrap_or_else":
                out += I.call_value(s, call, A[1], []) if isn else [(s, x)]
            elif m == "unwrap_or_default":
                out.append((s, self.default_of(call.destty) if isn else x))
            elif m in ("unwrap", "expect", "unwrap_unchecked"):
                if isn:
                    I.emit(s, call, "panic:" + m, [A[0]], kind="panic", goal=FALSE)
                else:
                    out.append((s, x))
            elif m == "filter":
                if isn:
                    out.append((s, NONE))
                else:
                    root = ("L", ("tmp", call.ctx, call.bb), 0)
                    s.mem[root] = x
                    for s2, r in I.call_value(s, call, A[1], [mk("ref", root, (), False)]):
                        for s3, b in self.boolsplit(s2, r):
                            out.append((s3, some(s3.mem.get(root, x)) if b else NONE))
            elif m == "is_some_and":
                out += [(s, FALSE)] if isn else I.call_value(s, call, A[1], [x])
            elif m == "is_none_or":
                out += [(s, TRUE)] if isn else I.call_value(s, call, A[1], [x])
            elif m == "or":
                out.append((s, A[1] if isn else a))
            elif m == "or_else":
                out += I.call_value(s, call, A[1], []) if isn else [(s, a)]
            elif m == "and":
                out.append((s, NONE if isn else A[1]))
            elif m == "inspect":
                out.append((s, a))
            elif m in ("copied", "cloned"):
                out.append((s, NONE if isn else some(I.load(s, x))))
            elif m == "flatten":
                out.append((s, NONE if isn else x))
            elif m == "zip":
                for s2, b in self.split(s, A[1], OPTION):
                    out.append((s2, NONE if isn or b.args[1] == 0 else some(tup(x, b.args[2][0]))))
            elif m == "transpose":
                if isn:
                    out.append((s, ok(NONE)))
                else:
                    for s2, r in self.split(s, x, RESULT):
                        out.append((s2, ok(some(r.args[2][0])) if r.args[1] == 0 else r))
            else:
                return None
        return out

    def boolsplit(self, st, r):
        I = self.I
        if r.op == "bool":
            return [(st, r.args[0])]
        out = []
        for b in (True, False):
            s = st.copy()
            if I.assume_b(s, r if b else notb(r)):
                out.append((s, b))
        return out

    def default_of(self, t):
        if t is None:
            return mk("sym", "default")
        if t.k == "int":
            return INT(0)
        if t.k == "bool":
            return FALSE
        if t.k == "adt":
            if t.p in ("std::vec::Vec",):
                return mk("arr", ())
            if t.p == "std::string::String":
                return STR("")
            if t.p == OPTION:
                return NONE
        if t.k == "tuple":
            return agg("tuple", 0, [self.default_of(x) for x in t.a])
        return app("default", STR(t.s), ty=t)

    def b_default(self, st, call):
        "std::default::Default::default"
        t = call.destty
        if t is not None and (t.k in ("int", "bool") or t.k == "adt" and t.p in (OPTION, "std::vec::Vec", "std::string::String")):
            return [(st, self.default_of(t))]
        return [(st, self.default_of(t))]

    def b_resmap(self, st, call):
        """std::result::Result::map std::result::Result::map_err std::result::Result::and_then std::result::Result::unwrap_or
        std::result::Result::unwrap_or_else std::result::Result::ok std::result::Result::err std::result::Result::unwrap
        std::result::Result::expect std::result::Result::is_ok_and std::result::Result::or_else std::result::Result::map_or
        std::result::Result::unwrap_or_default std::result::Result::inspect_err std::result::Result::expect_err
        std::result::Result::transpose std::result::Result::unwrap_err std::result::Result::and std::result::Result::or
        std::result::Result::map_or_else std::result::Result::is_err_and std::result::Result::inspect
        std::result::Result::copied std::result::Result::cloned"""
        I = self.I
        m = simp(call.name).rsplit("::", 1)[1]
        A = call.args
        out = []
        for s, a in self.split(st, A[0], RESULT):
            isok = a.args[1] == 0
            x = a.args[2][0]
            if m == "map":
                out += [(s2, ok(r)) for s2, r in I.call_value(s, call, A[1], [x])] if isok else [(s, a)]
            elif m == "map_err":
                out += [(s2, err(r)) for s2, r in I.call_value(s, call, A[1], [x])] if not isok else [(s, a)]
            elif m == "and_then":
                out += I.call_value(s, call, A[1], [x]) if isok else [(s, a)]
            elif m == "or_else":
                out += I.call_value(s, call, A[1], [x]) if not isok else [(s, a)]
            elif m == "unwrap_or":
                out.append((s, x if isok else A[1]))
            elif m == "unwrap_or_else":
                out += [(s, x)] if isok else I.call_value(s, call, A[1], [x])
            elif m == "unwrap_or_default":
                out.append((s, x if isok else self.default_of(call.destty)))
            elif m == "ok":
                out.append((s, some(x) if isok else NONE))
            elif m == "err":
                out.append((s, NONE if isok else some(x)))
            elif m in ("unwrap", "expect"):
                if isok:
                    out.append((s, x))
                else:
                    I.emit(s, call, "panic:" + m, [A[0]], kind="panic", goal=FALSE)
            elif m in ("unwrap_err", "expect_err"):
                if not isok:
                    out.append((s, x))
                else:
                    I.emit(s, call, "panic:" + m, [A[0]], kind="panic", goal=FALSE)
            elif m == "is_ok_and":
                out += I.call_value(s, call, A[1], [x]) if isok else [(s, FALSE)]
            elif m == "is_err_and":
                out += I.call_value(s, call, A[1], [x]) if not isok else [(s, FALSE)]
            elif m == "map_or":
                out += I.call_value(s, call, A[2], [x]) if isok else [(s, A[1])]
            elif m == "map_or_else":
                out += I.call_value(s, call, A[2], [x]) if isok else I.call_value(s, call, A[1], [x])
            elif m in ("inspect_err", "inspect"):
                out.append((s, a))
            elif m == "and":
                out.append((s, A[1] if isok else a))
            elif m == "or":
                out.append((s, a if isok else A[1]))
            elif m in ("copied", "cloned"):
                out.append((s, ok(I.load(s, x)) if isok else a))
            elif m == "transpose":
                if not isok:
                    out.append((s, some(a)))
                else:
                    for s2, r in self.split(s, x, OPTION):
                        out.append((s2, some(ok(r.args[2][0])) if r.args[1] == 1 else NONE))
            else:
                return None
        return out

    def b_optref(self, st, call):
        """std::option::Option::as_ref std::option::Option::as_mut std::option::Option::as_deref std::option::Option::as_deref_mut
        std::result::Result::as_ref std::result::Result::as_mut"""
        I = self.I
        p = call.args[0]
        out = []
        if "Result" in simp(call.name):
            for s, a in self.splitp(st, p, RESULT):
                out.append((s, agg(RESULT, a.args[1], (I.sub_ptr(p, ("f", a.args[1], 0)),))))
            return out
        for s, a in self.splitp(st, p, OPTION):
            if a.args[1] == 0:
                out.append((s, NONE))
            else:
                q = I.sub_ptr(p, ("f", 1, 0))
                if "deref" in simp(call.name):
                    inner = I.load(s, q)
                    ta = call.callee.get("a") or [None]
                    boxed = isinstance(ta[0], int) and call.fn is not None and getattr(call.fn.tys[ta[0]], "box", False)
                    if inner.op == "agg" and inner.args[0] == BOX or boxed:
                        q = I.sub_ptr(q, ("f", None, 0))
                    elif inner.op == "ref":
                        q = inner
                out.append((s, some(q)))
        return out

    def b_opttake(self, st, call):
        "std::option::Option::take std::option::Option::replace std::option::Option::insert"
        I = self.I
        p = call.args[0]
        out = []
        for s, a in self.splitp(st, p, OPTION):
            if simp(call.name).endswith("take"):
                I.set(s, p, NONE)
                out.append((s, a))
            elif simp(call.name).endswith("replace"):
                I.set(s, p, some(call.args[1]))
                out.append((s, a))
            else:
                I.set(s, p, some(call.args[1]))
                out.append((s, I.sub_ptr(p, ("f", 1, 0))))
        return out

    def b_get_or_insert(self, st, call):
        "std::option::Option::get_or_insert_with std::option::Option::get_or_insert"
        I = self.I
        p = call.args[0]
        out = []
        for s, a in self.splitp(st, p, OPTION):
            if a.args[1] == 1:
                out.append((s, I.sub_ptr(p, ("f", 1, 0))))
            else:
                rs = I.call_value(s, call, call.args[1], []) if call.name.endswith("with") else [(s, call.args[1])]
                for s2, r in rs:
                    I.set(s2, p, some(r))
                    out.append((s2, I.sub_ptr(p, ("f", 1, 0))))
        return out

    def b_then(self, st, call):
        "std::bool::then std::bool::then_some"
        I = self.I
        out = []
        for s, b in self.boolsplit(st, call.args[0]):
            if not b:
                out.append((s, NONE))
            elif simp(call.name).endswith("then"):
                out += [(s2, some(r)) for s2, r in I.call_value(s, call, call.args[1], [])]
            else:
                out.append((s, some(call.args[1])))
        return out

    # ------------------------------------------------------------ functions as values
    def b_call(self, st, call):
        "std::ops::Fn::call std::ops::FnMut::call_mut std::ops::FnOnce::call_once"
        a = call.args[1]
        args = list(a.args[2]) if a.op == "agg" and a.args[0] == "tuple" else [a]
        return self.I.call_value(st, call, call.args[0], args)

    # ------------------------------------------------------------ futures
    def b_poll(self, st, call):
        "std::future::Future::poll"
        return [(s, agg(POLL, 0, (v,))) for s, v in self.I.poll(st, call, call.args[0])]

    def b_block_on(self, st, call):
        "futures::executor::block_on tokio::runtime::Runtime::block_on xv::await"
        return self.I.poll(st, call, call.args[-1])

    # ------------------------------------------------------------ boxes
    def b_box_new(self, st, call):
        "std::boxed::Box::new std::boxed::Box::pin std::sync::Arc::new std::rc::Rc::new"
        n = simp(call.name)
        k = BOX if "Box" in n else n.rsplit("::", 1)[0]
        return [(st, agg(k, 0, (call.args[0],)))]

    def b_box_uninit(self, st, call):
        "std::boxed::Box::new_uninit"
        return [(st, agg(BOX, 0, (mk("uninit", call.ctx, call.bb),)))]

    def b_box_vec(self, st, call):
        "std::boxed::box_assume_init_into_vec_unsafe"
        v = call.args[0]
        return [(st, field(field(field(v, None, 0), None, 1), None, 0))]

    def b_into_boxed(self, st, call):
        "std::vec::Vec::into_boxed_slice std::string::String::into_boxed_str"
        return [(st, agg(BOX, 0, (call.args[0],)))]

    def b_box_raw(self, st, call):
        "std::boxed::Box::into_raw std::boxed::Box::from_raw"
        return [(st, call.args[0])]     # there and back: the same box

    def b_mem(self, st, call):
        "std::mem::swap std::mem::replace std::mem::take std::mem::drop std::mem::forget"
        I = self.I
        m = simp(call.name).rsplit("::", 1)[1]
        if m == "drop":
            t = call.argtys[0] if call.argtys else None
            if t is not None and any(x in t.s for x in I.o.drop_types):
                I.emit(st, call, "drop", [call.args[0]], kind="drop")
            return [(st, UNIT)]
        if m == "forget":
            return [(st, UNIT)]
        a = call.args[0]
        va = I.load(st, a)
        if m == "swap":
            b = call.args[1]
            vb = I.load(st, b)
            I.set(st, a, vb)
            I.set(st, b, va)
            return [(st, UNIT)]
        if m == "replace":
            I.set(st, a, call.args[1])
            return [(st, va)]
        I.set(st, a, self.default_of(call.destty))
        return [(st, va)]

    # ------------------------------------------------------------ comparisons
    def veq(self, a, b, st=None):
        I = self.I
        if a is b:
            return TRUE
        if st is not None:
            a, b = I.deep(st, a), I.deep(st, b)
            if a is b:
                return TRUE
        if a.op == "lin" or b.op == "lin" or (a.ty is not None and a.ty.k in ("int", "char")) \
                or (b.ty is not None and b.ty.k in ("int", "char")):
            if a.op not in ("agg", "arr", "str") and b.op not in ("agg", "arr", "str"):
                return eq(a, b)
        if a.op == "bool" and b.op == "bool":
            return BOOL(a is b)
        if a.op == "bool":
            return b if a.args[0] else notb(b)
        if b.op == "bool":
            return a if b.args[0] else notb(a)
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0]:
            if a.args[1] != b.args[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.args[2], b.args[2]):
                r = andb(r, self.veq(x, y, st))
            return r
        for x, y in ((a, b), (b, a)):
            if x.op == "agg" and not x.args[2] and y.op != "agg":
                ad = I.p.adts.get(x.args[0])
                if ad and ad["kind"] == "enum":
                    return mk("testvar", y, x.args[0], x.args[1])
        return eqv(a, b)

    def b_eq(self, st, call):
        "std::cmp::PartialEq::eq std::cmp::PartialEq::ne"
        I = self.I
        a, b = I.deep(st, call.args[0]), I.deep(st, call.args[1])
        r = self.veq(a, b, st)
        ne = call.name.endswith("ne")
        if r.op == "bool":
            return [(st, notb(r) if ne else r)]
        # decide now: keeps enum refinements visible
        x = r
        if x.op == "testvar":
            out = []
            for s, bb in self.boolsplit(st, x):
                out.append((s, BOOL(bb != ne)))
            return out
        return [(st, notb(r) if ne else r)]

    def b_ord(self, st, call):
        "std::cmp::PartialOrd::lt std::cmp::PartialOrd::le std::cmp::PartialOrd::gt std::cmp::PartialOrd::ge"
        I = self.I
        t = call.argtys[0] if call.argtys else None
        if t is not None and "log::Level" in t.s:
            return [(st, FALSE)]
        a, b = I.deep(st, call.args[0]), I.deep(st, call.args[1])
        e = t.e if t is not None and t.k == "ref" else t
        while e is not None and e.k == "ref":
            e = e.e
        m = call.name.rsplit("::", 1)[1]
        if e is not None and e.k in ("int", "char"):
            r = {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[m]
            return [(st, r)]
        return [(st, app("cmp:" + m, a, b))]

    def b_cmp(self, st, call):
        "std::cmp::Ord::cmp std::cmp::PartialOrd::partial_cmp"
        I = self.I
        a, b = I.deep(st, call.args[0]), I.deep(st, call.args[1])
        t = call.argtys[0] if call.argtys else None
        e = t.e if t is not None and t.k == "ref" else t
        r = None
        if call.rname is None and call.callee.get("trait"):
            f = I.dispatch(st, call)
            if f is not None:
                return I.inline(st, call, f, call.args)
        num = e is not None and e.k in ("int", "char")
        if e is None or e.k not in ("int", "char", "ref", "adt", "tuple", "array", "slice", "str"):
            # generic code: the terms tell what is compared
            u = a.ty or b.ty
            num = u is not None and u.k in ("int", "char") or \
                a.op == "app" and a.args[0].startswith("std::char::methods::to_ascii_")
        if num:
            out = []
            for k, c in ((0, lt(a, b)), (1, eq(a, b)), (2, lt(b, a))):
                s = st.copy()
                if I.assume(s, c):
                    out.append((s, agg(ORD, k, ())))
            if call.name.endswith("partial_cmp"):
                out = [(s, some(v)) for s, v in out]
            return out
        v = app("cmp", a, b)
        if call.name.endswith("partial_cmp"):
            return [(st, some(v))]
        return [(st, v)]

    def b_ordm(self, st, call):
        """std::cmp::Ordering::is_lt std::cmp::Ordering::is_le std::cmp::Ordering::is_gt std::cmp::Ordering::is_ge
        std::cmp::Ordering::is_eq std::cmp::Ordering::is_ne std::cmp::Ordering::reverse std::cmp::Ordering::then std::cmp::Ordering::then_with"""
        m = call.name.rsplit("::", 1)[1]
        out = []
        for s, a in self.split(st, call.args[0], ORD):
            k = a.args[1]
            if m == "reverse":
                out.append((s, agg(ORD, 2 - k, ())))
            elif m == "then":
                out.append((s, call.args[1] if k == 1 else a))
            elif m == "then_with":
                out += self.I.call_value(s, call, call.args[1], []) if k == 1 else [(s, a)]
            else:
                b = {"is_lt": k == 0, "is_le": k <= 1, "is_gt": k == 2, "is_ge": k >= 1, "is_eq": k == 1, "is_ne": k != 1}[m]
                out.append((s, BOOL(b)))
        return out

    def b_minmax(self, st, call):
        "std::cmp::min std::cmp::max std::cmp::Ord::min std::cmp::Ord::max"
        op = call.name.rsplit("::", 1)[1]
        t = call.destty
        if t is not None and t.k != "int":
            return None
        r = minmax(op, call.args[0], call.args[1])
        if r.op in ("min", "max") and r.ty is None:
            r.ty = t
        return [(st, r)]

    def b_clamp(self, st, call):
        "std::cmp::Ord::clamp"
        a, lo, hi = call.args
        return [(st, minmax("min", minmax("max", a, lo), hi))]

    # ------------------------------------------------------------ integers
    def b_intops(self, st, call):
        """std::num::div_ceil std::num::checked_add std::num::checked_sub std::num::checked_mul std::num::saturating_sub
        std::num::saturating_add std::num::wrapping_add std::num::wrapping_sub std::num::wrapping_mul std::num::abs_diff
        std::num::next_multiple_of std::num::checked_div std::num::saturating_mul std::num::checked_rem std::num::checked_next_multiple_of
        std::num::is_multiple_of std::num::div_floor std::num::rem_euclid std::num::div_euclid std::num::min_value std::num::max_value
        std::num::overflowing_add std::num::overflowing_sub std::num::overflowing_mul std::num::abs std::num::unsigned_abs
        std::num::unchecked_add std::num::unchecked_sub std::num::unchecked_mul"""
        I = self.I
        m = simp(call.name).rsplit("::", 1)[1]
        a = call.args[0] if call.args else None
        b = call.args[1] if len(call.args) > 1 else None
        t = call.argtys[0] if call.argtys else None
        rng = t.range() if t is not None else None
        if rng is None:
            return None
        lo, hi = INT(rng[0]), INT(rng[1])
        if m == "div_ceil":
            k = int_val(b)
            if k and k > 0:
                return [(st, div(add(a, INT(k - 1)), INT(k)))]
            return [(st, app("div_ceil", a, b, ty=t))]
        if m in ("next_multiple_of", "checked_next_multiple_of"):
            k = int_val(b)
            if k and k > 0:
                r = scale(div(add(a, INT(k - 1)), INT(k)), k)
                if m == "next_multiple_of":
                    if not self.panic(st, call, "assert:overflow:next_multiple_of", le(r, hi), [a, b]):
                        return []
                    return [(st, r)]
                return self.checked(st, r, lo, hi)
            return None
        if m == "is_multiple_of":
            return [(st, eq(rem(a, b), INT(0)))]
        if m in ("div_floor", "div_euclid"):
            return [(st, div(a, b))]
        if m.startswith("unchecked_"):
            return [(st, {"add": add, "sub": sub, "mul": mul}[m[10:]](a, b))]
        if m == "rem_euclid":
            return [(st, rem(a, b))]
        if m.startswith("checked_") or m.startswith("overflowing_"):
            op = m.split("_")[1]
            if op in ("div", "rem"):
                out = []
                s1, s2 = st.copy(), st.copy()
                if I.assume(s1, notb(eq(b, INT(0)))):
                    out.append((s1, some(div(a, b) if op == "div" else rem(a, b))))
                if I.assume(s2, eq(b, INT(0))):
                    out.append((s2, NONE))
                return out
            r = {"add": add, "sub": sub, "mul": mul}[op](a, b)
            if m.startswith("overflowing"):
                return [(st, tup(mk("trunc", r, t.s, ty=t), notb(andb(le(lo, r), le(r, hi)))))]
            return self.checked(st, r, lo, hi)
        if m.startswith("saturating_"):
            r = {"add": add, "sub": sub, "mul": mul}[m.split("_")[1]](a, b)
            return [(st, minmax("min", minmax("max", r, lo), hi))] if m.endswith("mul") or t.signed else \
                [(st, minmax("min", r, hi) if m.endswith("add") else minmax("max", r, lo))]
        if m.startswith("wrapping_"):
            r = {"add": add, "sub": sub, "mul": mul}[m.split("_")[1]](a, b)
            import entail
            if entail.quick_range(r, st.facts, rng):
                return [(st, r)]
            return [(st, mk("trunc", r, t.s, ty=t))]
        if m == "abs_diff":
            return [(st, sub(minmax("max", a, b), minmax("min", a, b)))]
        if m in ("abs", "unsigned_abs"):
            return [(st, minmax("max", a, scale(a, -1)))]
        return None

    def checked(self, st, r, lo, hi):
        I = self.I
        out = []
        s1 = st.copy()
        if I.assume(s1, andb(le(lo, r), le(r, hi))):
            out.append((s1, some(r)))
        for c in (lt(hi, r), lt(r, lo)):
            if int_val(lo) == 0 and c is not None:
                pass
            s2 = st.copy()
            import entail
            if I.assume(s2, c):
                out.append((s2, NONE))
        return out

    def b_bits(self, st, call):
        "proc_bitfield::Bit::bit proc_bitfield::Bit::set_bit"
        I = self.I
        n = None
        for x in call.callee.get("a", []):
            if isinstance(x, dict) and "const" in x:
                n = INT(int(x["const"]))
        if n is None:
            return None
        a = I.deep(st, call.args[0])
        if call.name.endswith("set_bit"):
            b = call.args[1]
            if int_val(a) is not None and b.op == "bool":
                v, k = int_val(a), int_val(n)
                return [(st, INT(v | (1 << k) if b.args[0] else v & ~(1 << k)))]
            return [(st, mk("setbit", a, n, b, ty=call.destty))]
        while a.op == "setbit":
            if a.args[1] is n:
                return [(st, a.args[2])]
            a = a.args[0]
        if int_val(a) is not None:
            return [(st, BOOL(bool(int_val(a) >> int_val(n) & 1)))]
        return [(st, mk("bit", a, n))]

    def b_setrange(self, st, call):
        "proc_bitfield::BitRange::set_bit_range"
        return [(st, app("set_bit_range", *[self.I.deep(st, a) for a in call.args], ty=call.destty))]

    # ------------------------------------------------------------ sequences
    def range_of(self, r, n):
        """(start, end) of a range value, or None"""
        if r.op != "agg":
            return None
        k = str(r.args[0]).rsplit("::", 1)[-1]
        f = r.args[2]
        if k == "Range":
            return f[0], f[1]
        if k == "RangeFrom":
            return f[0], n
        if k == "RangeTo":
            return INT(0), f[0]
        if k == "RangeFull":
            return INT(0), n
        if k == "RangeInclusive":
            return f[0], add(f[1], INT(1))
        if k == "RangeToInclusive":
            return INT(0), add(f[0], INT(1))
        return None

    def b_range_new(self, st, call):
        "std::ops::RangeInclusive::new"
        return [(st, agg("std::ops::RangeInclusive", 0, (call.args[0], call.args[1], FALSE)))]

    def b_range_contains(self, st, call):
        "std::ops::RangeInclusive::contains std::ops::Range::contains"
        I = self.I
        r = I.deep(st, call.args[0])
        x = I.deep(st, call.args[1])
        b = self.range_of(r, None)
        if b is None:
            return None
        return [(st, andb(le(b[0], x), lt(x, b[1])))]

    def b_index(self, st, call):
        "std::ops::Index::index std::ops::IndexMut::index_mut"
        I = self.I
        p, ix = call.args
        mut = call.name.endswith("mut")
        t = call.argtys[0] if call.argtys else None
        ad = self.adt_of(t)
        ixt = call.argtys[1] if len(call.argtys) > 1 else None
        if ad in ("std::collections::BTreeMap", "std::collections::HashMap"):
            m = I.deep(st, p)
            I.emit(st, call, "panic:map_index", [m, I.deep(st, ix)], kind="panic", goal=app("map.contains", m, I.deep(st, ix)))
            g = app(ad + "::get", m, I.deep(st, ix))
            I.assume(st, mk("isvar", g, 1))
            return [(st, field(g, 1, 0))]
        v = I.load(st, p)
        if v.op == "agg" and v.args[0] == BOX:
            p = I.sub_ptr(p, ("f", None, 0))
            v = I.load(st, p)
        if v.op == "ref":
            p = v
            v = I.load(st, p)
        n = length(v)
        r = self.range_of(ix, n)
        if r is not None:
            a, b = r
            if not self.panic(st, call, "assert:slice_index", andb(le(a, b), le(b, n)), [a, b, n]):
                return []
            if t is not None and (t.k == "ref" and t.e is not None and (t.e.k == "str" or t.e.is_adt("std::string::String"))):
                for x in (a, b):
                    if int_val(x) != 0 and x is not n:
                        I.emit(st, call, "assert:char_boundary", [v, x], kind="panic", goal=app("char_boundary", v, x))
            q = I.sub_ptr(p, ("s", a, b))
            return [(st, q)]
        if ixt is not None and ixt.k == "int" or ix.op == "lin":
            if not self.panic(st, call, "assert:bounds", lt(ix, n), [ix, n]):
                return []
            return [(st, I.sub_ptr(p, ("e", ix)))]
        return None

    def b_get(self, st, call):
        "std::slice::get std::slice::get_mut std::vec::Vec::get std::slice::first std::slice::last std::slice::first_mut std::slice::last_mut std::str::get"
        I = self.I
        p = call.args[0]
        v = I.load(st, p)
        n = length(v)
        m = simp(call.name).rsplit("::", 1)[1]
        if m.startswith("first"):
            ix = INT(0)
        elif m.startswith("last"):
            ix = sub(n, INT(1))
        else:
            ix = call.args[1]
        r = self.range_of(ix, n)
        out = []
        s1, s2 = st.copy(), st.copy()
        if r is not None:
            a, b = r
            c = andb(le(a, b), le(b, n))
            q = I.sub_ptr(p, ("s", a, b))
        else:
            c = lt(ix, n) if not m.startswith("last") else le(INT(1), n)
            q = I.sub_ptr(p, ("e", ix))
        if I.assume(s1, c):
            out.append((s1, some(q)))
        if I.assume(s2, notb(c)):
            out.append((s2, NONE))
        return out

    def b_len(self, st, call):
        """std::slice::len std::vec::Vec::len std::str::len std::string::String::len std::slice::is_empty std::vec::Vec::is_empty
        std::str::is_empty std::string::String::is_empty arrayvec::ArrayString::len arrayvec::ArrayString::is_empty"""
        I = self.I
        v = I.deep(st, call.args[0])
        n = length(v)
        if n.op == "len" and n.ty is None:
            n.ty = call.destty if not call.name.endswith("is_empty") else None
        if call.name.endswith("is_empty"):
            return [(st, eq(n, INT(0)))]
        return [(st, n)]

    def b_vecnew(self, st, call):
        "std::vec::Vec::new std::vec::Vec::with_capacity"
        return [(st, mk("arr", ()))]

    def b_strnew(self, st, call):
        "std::string::String::new std::string::String::with_capacity std::path::PathBuf::new"
        return [(st, STR(""))]

    def b_from_elem(self, st, call):
        "std::vec::from_elem"
        return [(st, mk("fill", call.args[0], call.args[1]))]

    def b_push(self, st, call):
        "std::vec::Vec::push"
        self.push1(st, call, call.args[0], call.args[1])
        return [(st, UNIT)]

    def push1(self, st, call, p, x):
        I = self.I
        v = I.load(st, p)
        if v.op == "arr" and len(v.args[0]) < 8:
            I.set(st, p, mk("arr", v.args[0] + (x,)))
        else:
            I.set(st, p, mk("push", v, x))
        I.emit(st, call, "std::vec::Vec::push", [p, x], kind="push", snap=[v, x])

    def b_pop(self, st, call):
        "std::vec::Vec::pop"
        I = self.I
        p = call.args[0]
        v = I.load(st, p)
        if v.op == "push":
            I.set(st, p, v.args[0])
            return [(st, some(v.args[1]))]
        if v.op == "arr":
            if not v.args[0]:
                return [(st, NONE)]
            I.set(st, p, mk("arr", v.args[0][:-1]))
            return [(st, some(v.args[0][-1]))]
        n = length(v)
        out = []
        s1, s2 = st.copy(), st.copy()
        if I.assume(s1, le(INT(1), n)):
            x = elem(v, sub(n, INT(1)))
            I.set(s1, p, slice_(v, INT(0), sub(n, INT(1))))
            out.append((s1, some(x)))
        if I.assume(s2, eq(n, INT(0))):
            out.append((s2, NONE))
        return out

    def b_extend(self, st, call):
        "std::vec::Vec::extend_from_slice std::iter::Extend::extend std::vec::Vec::append"
        I = self.I
        p = call.args[0]
        t = call.argtys[0] if call.argtys else None
        v = I.load(st, p)
        x = call.args[1]
        y = I.deep(st, x)
        xt = call.argtys[1] if len(call.argtys) > 1 else None
        if xt is not None and xt.is_adt(OPTION):
            out = []
            for s, o in self.split(st, y, OPTION):
                if o.args[1] == 1:
                    self.push1(s, call, p, o.args[2][0])
                out.append((s, UNIT))
            return out
        if y.op == "agg" and y.args[0] in ("#IterR", "#IterV"):
            y = y.args[2][0]
            y = I.deep(st, y)
        if y.op == "arr" and 0 < len(y.args[0]) <= 8 and self.adt_of(t) == "std::vec::Vec":
            for z in y.args[0]:
                self.push1(st, call, p, z)
            return [(st, UNIT)]
        if y.op == "agg" and y.args[0] in ("#IterR", "#IterV"):
            pass
        elif y.op == "agg" and y.args[0] not in (BOX,):
            if self.adt_of(t) != "std::vec::Vec":
                return None
            m = I.p.fns.get("models::extend_vec")
            if m is not None:
                return I.inline(st, call, m, [p, x])
        elif y.op not in ("arr", "fill", "slice", "supd", "eupd", "push", "ext", "str", "hav", "app", "elem", "field", "deref", "phi", "sym"):
            return None
        I.emit(st, call, "std::vec::Vec::extend", call.args, kind="push", snap=[v, y])
        if v.op == "arr" and not v.args[0]:
            I.set(st, p, y)
        else:
            I.set(st, p, mk("ext", v, y))
        return [(st, UNIT)]

    def b_strpush(self, st, call):
        "std::string::String::push std::string::String::push_str std::ffi::OsString::push std::path::PathBuf::push std::path::PathBuf::set_extension std::path::PathBuf::set_file_name"
        I = self.I
        p = call.args[0]
        v = I.load(st, p)
        m = simp(call.name)
        y = I.deep(st, call.args[1])
        if m.endswith("PathBuf::push"):
            I.set(st, p, app("std::path::Path::join", v, y))
        elif m.endswith("set_extension"):
            I.set(st, p, app("std::path::Path::with_extension", v, y))
            return [(st, mk("sym", "noise", m))]
        elif m.endswith("set_file_name"):
            I.set(st, p, app("std::path::Path::with_file_name", v, y))
        elif m.endswith("String::push") and "OsString" not in m:
            I.set(st, p, app("strpush", v, y))
        else:
            I.set(st, p, app("strcat", v, y))
        return [(st, UNIT)]

    def b_repeat(self, st, call):
        "std::iter::repeat std::iter::repeat_n"
        if simp(call.name).endswith("repeat_n"):
            return [(st, agg("#IterV", 0, (mk("fill", call.args[0], call.args[1]), INT(0))))]
        return [(st, agg("#Repeat", 0, (call.args[0],)))]

    def b_trunc(self, st, call):
        "std::vec::Vec::clear std::vec::Vec::truncate std::vec::Vec::resize"
        I = self.I
        p = call.args[0]
        v = I.load(st, p)
        m = simp(call.name).rsplit("::", 1)[1]
        if m == "clear":
            I.set(st, p, mk("arr", ()))
        elif m == "truncate":
            I.set(st, p, slice_(v, INT(0), minmax("min", length(v), call.args[1])))
        else:
            # resize: pad with value / truncate
            n = length(v)
            out = []
            s1, s2 = st.copy(), st.copy()
            if I.assume(s1, le(n, call.args[1])):
                I.set(s1, p, mk("ext", v, mk("fill", call.args[2], sub(call.args[1], n))))
                out.append((s1, UNIT))
            if I.assume(s2, lt(call.args[1], n)):
                I.set(s2, p, slice_(v, INT(0), call.args[1]))
                out.append((s2, UNIT))
            return out
        return [(st, UNIT)]

    def b_copy_from_slice(self, st, call):
        "std::slice::copy_from_slice std::slice::clone_from_slice"
        I = self.I
        d, s_ = call.args
        dv, sv = I.load(st, d), I.deep(st, s_)
        if not self.panic(st, call, "assert:copy_len", eq(length(dv), length(sv)), [length(dv), length(sv)]):
            return []
        I.emit(st, call, "slice.copy", call.args, kind="copy", snap=[dv, sv])
        I.set(st, d, sv)
        return [(st, UNIT)]

    def b_fill(self, st, call):
        "std::slice::fill"
        I = self.I
        d = call.args[0]
        I.set(st, d, mk("fill", call.args[1], length(I.load(st, d))))
        return [(st, UNIT)]

    def b_rot(self, st, call):
        "std::slice::rotate_right std::slice::rotate_left std::slice::reverse std::slice::sort std::slice::sort_by std::slice::sort_by_key std::slice::sort_unstable std::slice::sort_unstable_by"
        I = self.I
        d = call.args[0]
        v = I.load(st, d)
        m = simp(call.name).rsplit("::", 1)[1]
        r = mk("perm", v, m, tuple(call.args[1:]))
        I.set(st, d, r)
        return [(st, UNIT)]

    def b_swap(self, st, call):
        "std::slice::swap"
        I = self.I
        d, i, j = call.args
        v = I.load(st, d)
        n = length(v)
        if not self.panic(st, call, "assert:bounds", andb(lt(i, n), lt(j, n)), [i, j, n]):
            return []
        a, b = elem(v, i), elem(v, j)
        I.set(st, d, mk("eupd", mk("eupd", v, i, b), j, a))
        return [(st, UNIT)]

    def b_split_at(self, st, call):
        "std::slice::split_at std::slice::split_at_mut"
        I = self.I
        p, k = call.args
        n = length(I.load(st, p))
        if not self.panic(st, call, "assert:split_at", le(k, n), [k, n]):
            return []
        return [(st, tup(I.sub_ptr(p, ("s", INT(0), k)), I.sub_ptr(p, ("s", k, n))))]

    # ------------------------------------------------------------ iterators
    def seq_iter(self, p):
        return agg("#IterR", 0, (p, INT(0)))

    def b_iter(self, st, call):
        "std::slice::iter std::slice::iter_mut std::vec::Vec::iter std::vec::Vec::iter_mut"
        return [(st, self.seq_iter(call.args[0]))]

    def b_striter(self, st, call):
        """std::str::chars std::str::split std::str::bytes std::str::split_terminator std::str::char_indices std::str::lines
        std::str::split_whitespace std::str::rsplit std::str::splitn std::slice::chunks_exact std::slice::windows
        std::slice::chunks_mut std::slice::split_unused std::vec::Vec::drain_unused"""
        I = self.I
        n = simp(call.name)
        v = app(n, *[I.deep(st, a) for a in call.args])
        return [(st, agg("#IterV", 0, (v, INT(0))))]

    def b_chunks(self, st, call):
        "std::slice::chunks"
        if "models::ChunksIt" not in self.I.p.adts:
            return None
        return [(st, agg("models::ChunksIt", 0, (call.args[0], call.args[1], INT(0))))]

    def b_step_by(self, st, call):
        "std::iter::Iterator::step_by"
        r = call.args[0]
        if r.op == "agg" and r.args[0] == "std::ops::Range" and "models::StepRange" in self.I.p.adts:
            return [(st, agg("models::StepRange", 0, (r.args[2][0], r.args[2][1], call.args[1])))]
        return None

    def b_mapiter(self, st, call):
        """std::collections::BTreeMap::iter std::collections::HashMap::iter std::collections::BTreeMap::into_values
        std::collections::BTreeMap::into_keys"""
        n = simp(call.name)
        n = {"std::collections::BTreeMap::iter": "map.iter", "std::collections::HashMap::iter": "hmap.iter"}.get(n, n)
        v = app(n, self.I.deep(st, call.args[0]))
        return [(st, agg("#IterV", 0, (v, INT(0))))]

    @staticmethod
    def order(t):
        """iteration in key order, or in an arbitrary order"""
        return "hmap.iter" if t.p.rsplit("::", 1)[1].startswith("Hash") else "map.iter"

    def b_into_iter(self, st, call):
        "std::iter::IntoIterator::into_iter"
        I = self.I
        a = call.args[0]
        t = call.argtys[0] if call.argtys else None
        if a.op == "agg" and a.args[0] in ("#IterR", "#IterV", "#RevR", "#RevV", "std::ops::Range", "std::ops::RangeInclusive"):
            return [(st, a)]
        if a.op == "agg" and (str(a.args[0]).startswith("models::")):
            return [(st, a)]
        if t is not None and t.k == "ref":
            e = t.e
            if e.k in ("array", "slice") or e.k == "adt" and e.p == "std::vec::Vec":
                return [(st, self.seq_iter(a))]
            if e.k == "adt" and e.p.startswith("std::collections::"):
                return [(st, agg("#IterV", 0, (app(self.order(e), I.deep(st, a)), INT(0))))]
        if t is not None and (t.k == "array" or t.k == "adt" and t.p == "std::vec::Vec"):
            return [(st, agg("#IterV", 0, (a, INT(0))))]
        if t is not None and t.k == "adt" and t.p.startswith("std::collections::"):
            return [(st, agg("#IterV", 0, (app(self.order(t), a), INT(0))))]
        if a.op in ("arr", "fill", "push", "ext") and (t is None or t.k == "param"):
            return [(st, agg("#IterV", 0, (a, INT(0))))]
        if call.rname is None or simp(call.rname).startswith("<I as std::iter::IntoIterator>"):
            return [(st, a)]
        return None

    def b_next(self, st, call):
        "std::iter::Iterator::next"
        I = self.I
        p = call.args[0]
        v = I.load(st, p)
        n = 0
        while v.op == "ref" and n < 3:
            p = v
            v = I.load(st, p)
            n += 1
        if v.op == "agg" and v.args[0] in ("#IterR", "#IterV", "#RevR", "#RevV"):
            k = v.args[0]
            src, i = v.args[2]
            if k.endswith("R"):
                seq = I.load(st, src)
                if seq.op == "agg" and seq.args[0] == BOX:
                    seq = seq.args[2][0]
            else:
                seq = src
            ln = length(seq)
            out = []
            s1, s2 = st.copy(), st.copy()
            if I.assume(s1, lt(i, ln)):
                j = i if k.startswith("#Iter") else sub(sub(ln, INT(1)), i)
                x = I.sub_ptr(src, ("e", j)) if k.endswith("R") else elem(seq, j, self.opt_arg(call))
                I.set(s1, p, agg(k, 0, (src, add(i, INT(1)))))
                I.emit(s1, call, "iter.next", [seq, j], kind="iter", snap=[seq, j])
                out.append((s1, some(x)))
            if I.assume(s2, le(ln, i)):
                I.emit(s2, call, "iter.end", [seq, i], kind="iterend", snap=[seq, i])
                out.append((s2, NONE))
            return out
        if v.op == "agg" and v.args[0] == "std::ops::Range":
            a, b = v.args[2]
            out = []
            s1, s2 = st.copy(), st.copy()
            if I.assume(s1, lt(a, b)):
                I.set(s1, p, agg("std::ops::Range", 0, (add(a, INT(1)), b)))
                out.append((s1, some(a)))
            if I.assume(s2, le(b, a)):
                out.append((s2, NONE))
            return out
        if v.op == "agg" and v.args[0] == "std::ops::RangeFrom":
            a, = v.args[2]
            I.set(st, p, agg("std::ops::RangeFrom", 0, (add(a, INT(1)),)))
            return [(st, some(a))]
        if v.op == "agg" and isinstance(v.args[0], str) and v.args[0] not in ("tuple", BOX):
            f = I.dispatch(st, call)
            if f is not None:
                return I.inline(st, call, f, [p])
        return None

    def opt_arg(self, call):
        d = call.destty
        if d is not None and d.k == "adt" and d.a and not isinstance(d.a[0], str):
            return d.a[0]
        return None

    def b_adapt(self, st, call):
        """std::iter::Iterator::map std::iter::Iterator::enumerate std::iter::Iterator::peekable std::iter::Iterator::filter
        std::iter::Iterator::filter_map std::iter::Iterator::skip std::iter::Iterator::take std::iter::Iterator::zip
        std::iter::Iterator::chain std::iter::Iterator::inspect std::iter::Iterator::take_while std::iter::Iterator::skip_while
        std::iter::Iterator::map_while std::iter::Iterator::flat_map_unused std::iter::Iterator::fuse"""
        m = simp(call.name).rsplit("::", 1)[1]
        A = call.args
        key = "models::" + {"map": "MapIt", "enumerate": "EnumIt", "peekable": "PeekIt", "filter": "FilterIt",
                            "filter_map": "FilterMapIt", "skip": "SkipIt", "take": "TakeIt", "zip": "ZipIt",
                            "chain": "ChainIt", "inspect": "Inspect", "take_while": "TakeWhileIt",
                            "skip_while": "SkipWhileIt", "map_while": "MapWhileIt", "fuse": "Fuse"}[m]
        if m in ("inspect", "fuse"):
            return [(st, A[0])]
        if m == "take" and A[0].op == "agg" and A[0].args[0] == "#Repeat":
            return [(st, agg("#IterV", 0, (mk("fill", A[0].args[2][0], A[1]), INT(0))))]
        if key not in self.I.p.adts:
            return None
        if m == "enumerate":
            return [(st, agg(key, 0, (A[0], INT(0))))]
        if m == "peekable":
            return [(st, agg(key, 0, (A[0], NONE)))]
        if m == "zip":
            b = A[1]
            t = call.argtys[1] if len(call.argtys) > 1 else None
            if t is not None and t.k == "ref":
                b = self.seq_iter(b)
            elif b.op in ("arr", "fill", "push"):
                b = agg("#IterV", 0, (b, INT(0)))
            return [(st, agg(key, 0, (A[0], b)))]
        if m == "chain":
            b = A[1]
            if b.op in ("arr", "fill", "push"):
                b = agg("#IterV", 0, (b, INT(0)))
            return [(st, agg(key, 0, (A[0], b, FALSE)))]
        if m == "skip_while":
            return [(st, agg(key, 0, (A[0], A[1], FALSE)))]
        return [(st, agg(key, 0, tuple(A)))]

    def b_rev(self, st, call):
        "std::iter::Iterator::rev"
        a = call.args[0]
        if a.op == "agg" and a.args[0] in ("#IterR", "#IterV") and int_val(a.args[2][1]) == 0:
            return [(st, agg("#Rev" + a.args[0][-1], 0, a.args[2]))]
        return [(st, app("rev", a, ty=call.destty))]

    def b_cloned(self, st, call):
        "std::iter::Iterator::cloned std::iter::Iterator::copied"
        if "models::ClonedIt" in self.I.p.adts:
            return [(st, agg("models::ClonedIt", 0, (call.args[0],)))]
        return None

    def b_collect(self, st, call):
        "std::iter::Iterator::collect std::iter::FromIterator::from_iter"
        I = self.I
        d = call.destty
        it = call.args[0]
        if d is None or d.k != "adt":
            return None
        if d.p in ("std::vec::Vec",):
            if it.op == "agg" and it.args[0] == "#IterV" and int_val(it.args[2][1]) == 0:
                return [(st, it.args[2][0])]
            m = I.p.fns.get("models::collect_vec")
            if m is not None and it.op == "agg":
                return I.inline(st, call, m, [it])
        if d.p == RESULT and d.a and not isinstance(d.a[0], str) and d.a[0].k == "adt" and d.a[0].p == "std::vec::Vec":
            m = I.p.fns.get("models::collect_result_vec")
            if m is not None and it.op == "agg":
                return I.inline(st, call, m, [it])
        if d.p == "std::collections::BTreeMap":
            m = I.p.fns.get("models::collect_map")
            if m is not None and it.op == "agg":
                return I.inline(st, call, m, [it])
        if d.p == RESULT and d.a and not isinstance(d.a[0], str) and d.a[0].k == "adt" and d.a[0].p == "std::collections::BTreeMap":
            m = I.p.fns.get("models::collect_result_map")
            if m is not None and it.op == "agg":
                return I.inline(st, call, m, [it])
        if I.p.adts.get(d.p, {}).get("local"):
            for imp in I.p.impls:
                if imp.get("trait") == "std::iter::FromIterator" and imp["self"].k == "adt" and imp["self"].p == d.p:
                    ms = [i for i in I.p.impls if i.get("trait") == "std::iter::FromIterator" and i["self"].k == "adt"
                          and i["self"].p == d.p]
                    if len(ms) == 1:
                        f = I.p.fns.get(imp["methods"]["from_iter"])
                        if f is not None and f.path not in I.stack(call.ctx):
                            return I.inline(st, call, f, [it])
        # drain the iterator for its effects, result is a function of what it yields
        if it.op == "agg" and it.args[0] == "#IterV":
            return [(st, app("collect", it.args[2][0], ty=d))]
        m = I.p.fns.get("models::collect_vec")
        if m is not None and it.op == "agg":
            return [(s, app("collect", v, ty=d)) for s, v in I.inline(st, call, m, [it])]
        return [(st, app("collect", it, ty=d))]

    def b_drive(self, st, call):
        """std::iter::Iterator::for_each std::iter::Iterator::fold std::iter::Iterator::try_fold std::iter::Iterator::any
        std::iter::Iterator::all std::iter::Iterator::sum std::iter::Iterator::count std::iter::Iterator::find
        std::iter::Iterator::position std::iter::Iterator::last std::iter::Iterator::nth std::iter::Iterator::max
        std::iter::Iterator::min std::iter::Iterator::find_map std::iter::Iterator::try_for_each
        std::iter::Iterator::cmp std::iter::Iterator::partial_cmp std::iter::Iterator::eq std::iter::Peekable::peek
        std::iter::Peekable::next_if std::iter::Iterator::product"""
        I = self.I
        m = simp(call.name).rsplit("::", 1)[1]
        it = I.deep(st, call.args[0])
        if not (it.op == "agg"):
            return None
        if m == "try_fold" or m == "try_for_each":
            d = call.destty
            m2 = m + ("_opt" if d is not None and d.is_adt(OPTION) else "_res")
        elif m == "sum":
            m2 = "sum"
        else:
            m2 = m
        f = I.p.fns.get("models::drive_" + m2)
        if f is None:
            return None
        if m in ("all", "any") and it.args[0] in ("#IterR", "#IterV"):
            r = self.all_const(st, call, it, m)
            if r is not None:
                return r
        a0 = call.args[0]
        t1 = f.locals[1]
        if t1.k == "ref" and a0.op != "ref":
            root = ("L", ("it", call.ctx, call.bb), 0)
            st.mem[root] = a0
            a0 = mk("ref", root, (), True)
        elif t1.k != "ref" and a0.op == "ref":
            # by-value model on a borrowed iterator: operate through the reference
            pass
        return I.inline(st, call, f, [a0] + list(call.args[1:]))

    def all_const(self, st, call, it, m):
        """all(|x| x == c) / any(|x| x != c) over an array: the same test as comparing it with a constant array"""
        I = self.I
        src, i = it.args[2]
        seq = I.load(st, src) if it.args[0] == "#IterR" else src
        n = int_val(length(seq))
        if n is None or not 0 < n <= 64 or int_val(i) != 0:
            return None
        c = None
        for k in range(n):
            x = I.sub_ptr(src, ("e", INT(k))) if it.args[0] == "#IterR" else elem(seq, INT(k))
            r = I.call_value(st.copy(), call, call.args[1], [x])
            if not r or len(r) != 1:
                return None
            t = r[0][1]
            if m == "any":
                t = notb(t)
            e = elem(seq, INT(k))
            if c is None:
                for v in range(256):
                    if t is eq(e, INT(v)):
                        c = v
                if c is None:
                    return None
            elif t is not eq(e, INT(c)):
                return None
        r = eqv(seq, mk("fill", INT(c), INT(n)))
        return [(st, notb(r) if m == "any" else r)]

    # ------------------------------------------------------------ maps
    def b_mapnew(self, st, call):
        "std::collections::BTreeMap::new std::collections::HashMap::new std::collections::HashSet::new std::collections::BTreeSet::new"
        return [(st, app("map.new"))]

    def b_mapinsert(self, st, call):
        "std::collections::BTreeMap::insert std::collections::HashMap::insert std::collections::BTreeSet::insert std::collections::HashSet::insert toml::map::Map::insert"
        I = self.I
        p = call.args[0]
        m = I.load(st, p)
        I.emit(st, call, "map.insert", call.args, kind="mapins", snap=[m] + [I.deep(st, a) for a in call.args[1:]])
        v = call.args[2] if len(call.args) > 2 else UNIT
        I.set(st, p, mk("mapins", m, I.deep(st, call.args[1]), v))
        return [(st, mk("sym", "call", call.ctx, call.bb, "map.insert", ty=call.destty))]

    def b_mapremove(self, st, call):
        "std::collections::BTreeMap::remove std::collections::HashMap::remove"
        I = self.I
        p = call.args[0]
        m, k = I.load(st, p), I.deep(st, call.args[1])
        g = app(simp(call.name).rsplit("::", 1)[0] + "::get", m, k)
        I.set(st, p, app("map.del", m, k))
        out = []
        for var, v in ((1, some(mk("deref", field(g, 1, 0)))), (0, NONE)):
            s2 = st.copy()
            if I.assume(s2, mk("isvar", g, var)):
                out.append((s2, v))
        return out

    # ------------------------------------------------------------ hashing
    def b_digest(self, st, call):
        "sha3::Digest::update md5::Digest::update digest::Digest::update"
        I = self.I
        p = call.args[0]
        d = I.load(st, p)
        x = I.deep(st, call.args[1])
        I.emit(st, call, "digest.update", call.args, kind="digest", snap=[d, x])
        I.set(st, p, app("digest.update", d, x))
        return [(st, UNIT)]

    def b_digest1(self, st, call):
        """sha3::Digest::digest md5::Digest::digest digest::Digest::digest sha3::Digest::new_with_prefix md5::Digest::new_with_prefix
        digest::Digest::new_with_prefix sha3::Digest::chain_update md5::Digest::chain_update digest::Digest::chain_update"""
        I = self.I
        n = simp(call.name).rsplit("::", 1)
        d = call.args[0] if n[1] == "chain_update" else app(n[0] + "::new")
        x = I.deep(st, call.args[-1])
        I.emit(st, call, "digest.update", call.args, kind="digest", snap=[d, x])
        d = app("digest.update", d, x)
        return [(st, app(n[0] + "::finalize", d) if n[1] == "digest" else d)]

    # ------------------------------------------------------------ files
    def b_options(self, st, call):
        "std::fs::File::options std::fs::OpenOptions::new"
        return [(st, app("oo"))]

    def b_oo(self, st, call):
        "std::fs::OpenOptions::create std::fs::OpenOptions::read std::fs::OpenOptions::write std::fs::OpenOptions::truncate std::fs::OpenOptions::append std::fs::OpenOptions::create_new"
        I = self.I
        p = call.args[0]
        v = I.load(st, p)
        I.set(st, p, app("oo." + simp(call.name).rsplit("::", 1)[1], v, call.args[1]))
        return [(st, p)]

    # ------------------------------------------------------------ panics
    def b_panic(self, st, call):
        """std::panicking::panic std::panicking::panic_fmt std::panicking::assert_failed std::rt::panic_fmt
        std::panicking::unreachable_display std::panicking::unreachable_default_msg std::panicking::panic_display
        std::panicking::panic_explicit std::panicking::panic_const::panic_const_div_by_zero std::option::expect_failed
        std::option::unwrap_failed std::result::unwrap_failed std::panicking::panic_nounwind std::rt::begin_panic
        std::panicking::panic_str_2015 std::panicking::assert_failed_inner"""
        self.I.emit(st, call, "panic:" + simp(call.name).rsplit("::", 1)[1], call.args, kind="panic", goal=FALSE)
        return []

    def b_exit(self, st, call):
        "std::process::exit std::process::abort"
        self.I.emit(st, call, simp(call.name), call.args)
        return []
