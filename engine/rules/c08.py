"""Confinement of unpacking.  Taint/guard dataflow over the unpack and copy-out commands with everything below them inlined:
every call that creates or changes something in the host filesystem must take a path built from the command line alone, or
from it by appending parts of the image; an appended part is either a listed directory path without its leading slashes, or
an entry name that has been established, on every path to the call, to be neither '.' nor '..' and to hold no separator.
Every entry a listing loop goes past must have had its name established, because later directory paths contain it."""
from base import *

FLOORS = {"effect": 5, "guard": 2, "past": 2}
U = "xdvdfs::cmd_unpack::"
ROOTS = (U + "cmd_unpack", U + "cmd_copyout")
FILE_TREE = "xdvdfs::read::<impl xdvdfs::layout::DirectoryEntryTable>::file_tree"
WALK_PATH = "xdvdfs::read::<impl xdvdfs::layout::DirectoryEntryTable>::walk_path"
NAME_STR = NODE + "::name_str"
READ_ALL, SEEK_TO = DISKDATA + "::read_data_all", DISKDATA + "::seek_to"
READ_VOL, OPEN_RAW = "xdvdfs::read::read_volume", "xdvdfs::img::open_image_raw"
API = (FILE_TREE, WALK_PATH, NAME_STR, READ_ALL, SEEK_TO, READ_VOL, OPEN_RAW)
SEPS = {"/": 47, "\\": 92}


def path_effect(e):
    """the path a call changes in the host filesystem, or None"""
    n = e.name or ""
    if e.kind != "call":
        return None
    if n == "std::fs::OpenOptions::open":
        o = e.snap[0]
        return e.snap[1] if any(x.op == "app" and x.args[0].startswith("oo.") and x.args[0] != "oo.read" for x in allsubs(o)) else None
    if n in FS_PATH:
        return e.snap[FS_PATH[n]]
    return None


FS_PATH = {"std::fs::" + k: v for k, v in {
    "create_dir": 0, "create_dir_all": 0, "write": 0, "copy": 1, "rename": 1, "hard_link": 1, "remove_file": 0, "remove_dir": 0,
    "remove_dir_all": 0, "set_permissions": 0, "File::create": 0, "File::create_new": 0, "File::create_buffered": 0}.items()}
FS_PATH["std::os::unix::fs::symlink"] = 1
FS_READ = tuple("std::fs::" + x for x in (
    "File::open", "metadata", "symlink_metadata", "canonicalize", "read_dir", "read", "read_to_string", "exists", "try_exists", "File::metadata",
    "File::try_clone", "File::options", "OpenOptions::new", "DirEntry::", "Metadata::", "FileType::", "ReadDir", "read_link", "File::sync",
    "Permissions::", "File::set_len", "DirBuilder::new"))


def image_part(t):
    """does a term depend on what the image holds?"""
    return any(a.op == "sym" and a.args[0] == "call" and any(n in a.args for n in API) or a.op == "sym" and a.args[0] in ("call", "hv", "hav")
               for a in allsubs(t))


def trimmed_dir(t, trees):
    """a listed directory path without its leading slashes"""
    if t.op == "app" and t.args[0].rsplit("::", 1)[-1] in ("trim_start_matches", "trim_matches") and int_val(t.args[1][1]) == 47:
        d = t.args[1][0]
        return d.op == "field" and d.args[2] == 0 and d.args[0].op == "elem" and d.args[0].args[0] in trees
    return False


def joined(t):
    if t.op == "app" and t.args[0].rsplit("::", 1)[-1] == "join" and len(t.args[1]) == 2:
        return t.args[1]
    return None


def excludes(R, I, facts, name, ch):
    """do the facts establish that the text `name` does not contain the character?"""
    for f in facts:
        if f.op == "not" and f.args[0].op == "app" and f.args[0].args[0].rsplit("::", 1)[-1] == "contains" and f.args[0].args[1][0] is name:
            if matches(R, f.args[0].args[1][1], ch):
                return True
        if f.op == "isvar" and f.args[1] == 0 and f.args[0].op == "app" and f.args[0].args[0].rsplit("::", 1)[-1] in ("find", "rfind") and \
                f.args[0].args[1][0] is name and matches(R, f.args[0].args[1][1], ch):
            return True
    # a loop over all characters that does not go past this one
    for e in I.events():
        if e.kind != "iterend" or not over_chars(e.snap[0], name):
            continue
        idx = e.snap[1]
        if le(length(e.snap[0]), idx) not in facts:
            continue
        back = [(v, f) for v, f, b in I.phi_info.get(idx, {}).values() if b]
        x = mk("elem", e.snap[0], idx)
        if back and all(any(f.op == "not" and f.args[0].op == "eq" and x in allsubs(f) and lin_zero(f.args[0].args[0], x, ch) for f in fs) for v, fs in back):
            return True
    return False


def lin_zero(t, x, ch):
    return subst(t, {x: INT(ch)}) is INT(0)


def over_chars(t, name):
    return t.op == "app" and t.args[0].rsplit("::", 1)[-1] in ("chars", "bytes", "as_bytes") and t.args[1][0] is name


def matches(R, pat, ch):
    """does a text pattern match the single character?"""
    if pat.op == "arr":
        return any(int_val(x) == ch for x in pat.args[0])
    if int_val(pat) is not None:
        return int_val(pat) == ch
    s = str_val(pat)
    if s is not None:
        return s == chr(ch)
    if pat.op == "ref":
        return False
    if pat.op == "agg" and pat.args[0] == "closure":
        J = R.analyse(pat.args[1], args=[pat, INT(ch)])
        return bool(J.results) and all(v is TRUE for _, v in J.results)
    return False


def plain(R, I, facts, name):
    """what is missing before `name` is one plain component"""
    out = [repr(d) for d in (".", "..") if not any(
        f.op == "not" and f.args[0].op == "eqv" and name in f.args[0].args and any(str_val(x) == d for x in f.args[0].args) for f in facts)]
    return out + [repr(c) for c, o in SEPS.items() if not excludes(R, I, facts, name, o)]


def check(R):
    for n in API:
        R.fn(n)
    for root in ROOTS:
        I = R.analyse(root, opaque=lambda p: p in API)
        tag = root.rsplit("::", 1)[-1]
        trees = {field(e.ret, 0, 0) for e in evs(I, FILE_TREE)}
        names = {e.ret: e for e in evs(I, NAME_STR)}

        def name_of(t):
            return [n for n in names if t is n or t is field(n, 0, 0)]

        def audit(t, e, path):
            if not image_part(t):
                return True
            j = joined(t)
            if j is None:
                return R.ob("effect", "%s:path" % tag, False, "", where(e), "%s changes %s, a path not built by appending to the output directory" % (e.name, show(path)))
            good = audit(j[0], e, path)
            if trimmed_dir(j[1], trees) or not image_part(j[1]):
                return good
            if name_of(j[1]):
                miss = plain(R, I, e.facts, j[1])
                return R.ob("guard", "%s:%s:name" % (tag, e.name), not miss, "the entry name is established to be a plain component", where(e),
                            "%s is reached with an entry name that may be or contain %s" % (e.name, ", ".join(miss))) and good
            return R.ob("effect", "%s:part" % tag, False, "", where(e), "%s appends %s from the image to the path unchecked" % (e.name, show(j[1])))

        for e in I.events():
            if e.kind != "call" or not (e.name or "").startswith(("std::fs::", "std::os::")):
                continue
            p = path_effect(e)
            if p is None:
                R.ob("effect", "%s:unknown:%s" % (tag, e.name), e.name.startswith(FS_READ) or e.name == "std::fs::OpenOptions::open",
                     "a call that changes nothing", where(e), "%s may change the host filesystem at an unknown path" % e.name)
                continue
            R.ob("effect", "%s:%s" % (tag, e.name), audit(p, e, p), "the path is below the output directory", where(e),
                 "%s may act outside the output directory: %s" % (e.name, show(p)))
            for el in {a for a in allsubs(p) if a.op == "elem" and a.args[0] in trees}:
                ns = [field(n, 0, 0) for n, ne in names.items() if el in allsubs(ne.snap[0])]
                ok_ = any(not plain(R, I, e.facts, n) for n in ns)
                R.ob("guard", "%s:%s:first" % (tag, e.name), ok_, "nothing is created for an entry before its name is checked", where(e),
                     "%s runs for an entry whose name has not been checked" % e.name)
        # every entry the loop goes past has been checked
        for e in evs(I, kind="iter"):
            if e.snap[0] not in trees:
                continue
            el = mk("elem", e.snap[0], e.snap[1])
            ns = [field(n, 0, 0) for n, ne in names.items() if el in allsubs(ne.snap[0])]
            back = [f for v, f, b in I.phi_info.get(e.snap[1], {}).values() if b]
            R.ob("past", tag + ":whole", bool(back), "the loop visits the whole listing", where(e), "the listing is not looped over")
            for fs in back:
                miss = min((plain(R, I, fs, n) for n in ns), key=len, default=["?"])
                R.ob("past", tag + ":name", not miss, "the loop goes on only after a name has been checked", where(e),
                     "the loop goes on past an entry whose name may be or contain %s, although later paths contain it" % ", ".join(miss))

