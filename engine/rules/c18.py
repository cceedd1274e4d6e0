"""Inspection never modifies.  Effect analysis over the resolved call graph: from every inspecting command, the mount
program, every handler of the mounted filesystem and the library's reading interface, all functions that can be reached
(callees, closures and async bodies of a reached function, function values it mentions, destructors, and for a method call
on a type parameter every implementation in the workspace) may use no operation that changes a file, opens one for writing
or writes to a block device.  Where a dry run shares its code with a real one, the calls that can be made with the dry-run
switch on are found by path-sensitive interpretation and only those are followed."""
from base import *
from mir import norm as normp
from rules.c08 import path_effect

FLOORS = {"reach": 8, "effect": 20, "dry": 3, "handler": 7, "refuse": 2}
CLI = "xdvdfs::"
COMMANDS = (CLI + "cmd_info::cmd_info", CLI + "cmd_read::cmd_ls", CLI + "cmd_read::cmd_tree", CLI + "cmd_read::cmd_checksum", CLI + "cmd_md5::cmd_md5",
            "xdvdfsd::run_mount_program")
READ_API = ("xdvdfs::read::read_volume",)
READ_MODULES = ("xdvdfs::read::", "xdvdfs::checksum::", "xdvdfs::img::open_image")
BUILD = CLI + "cmd_build_image::cmd_build_image"
BUILD_ARGS = CLI + "cmd_build_image::BuildImageArgs"
FSIMPL = "xdvdfsd::img_fs::FuseFilesystem"

# everything else in these name spaces changes something, or may
GUARDED = ("std::fs::", "std::os::", "std::process::", "tokio::fs::", "tokio::process::", "nix::", "libc::", "async_fs::", "tempfile::", "std::net::")
HARMLESS = tuple("std::fs::" + x for x in (
    "File::open", "metadata", "symlink_metadata", "canonicalize", "read_dir", "read", "read_to_string", "exists", "try_exists", "File::metadata",
    "File::try_clone", "File::options", "OpenOptions::new", "OpenOptions::open", "OpenOptions::read", "DirEntry::path", "DirEntry::file_name",
    "DirEntry::file_type", "DirEntry::metadata", "Metadata::", "FileType::", "ReadDir", "read_link", "File::sync_all", "File::sync_data")) + (
    "std::process::exit", "std::process::ExitCode", "std::process::Termination", "std::process::abort", "std::process::id",
    "std::os::unix::fs::MetadataExt::", "std::os::unix::fs::FileTypeExt::", "std::os::unix::fs::FileExt::read", "std::os::linux::fs::MetadataExt::",
    "std::os::fd::", "std::os::unix::ffi::", "std::os::unix::fs::DirEntryExt::",
    # the handshake with the forked parent: a pipe of its own
    "nix::unistd::pipe", "nix::unistd::fork", "nix::unistd::read", "nix::unistd::write", "nix::unistd::close", "nix::unistd::ForkResult")
SWITCHES = ("write", "append", "create", "create_new", "truncate")
DEVICE = ("xdvdfs::blockdev::BlockDeviceWrite::", "std::io::Write::")
WRITING = 0o1 | 0o2 | 0o100 | 0o1000  # O_WRONLY, O_RDWR, O_CREAT, O_TRUNC
# what a handler of these names replies decides nothing about modification
READING = set("""init destroy lookup forget batch_forget getattr readlink open read flush release opendir readdir readdirplus releasedir fsync fsyncdir
                 statfs getxattr listxattr access getlk bmap poll lseek ioctl""".split())


def walk(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from walk(y)
    elif isinstance(x, dict):
        yield x
        for y in x.values():
            yield from walk(y)


class Graph:
    def __init__(self, R):
        self.R, self.P = R, R.P
        self.kids = {}
        for f in R.P.fns.values():
            if f.parent:
                self.kids.setdefault(f.parent, []).append(f.path)
        self.impls = {}
        self.drops = {}
        for i in R.P.impls:
            if i.get("trait") is None:
                continue
            for m, p in i["methods"].items():
                self.impls.setdefault((i["trait"], m), []).append((i, p))
            if i["trait"] == "std::ops::Drop" and i["self"].p:
                self.drops[i["self"].p] = i["methods"].get("drop")
        self.memo = {}

    def simple(self, n):
        from lib import simp
        return simp(n)

    def body(self, path):
        """-> (functions it can run, outside calls (name, where, switch value)) of one function"""
        if path in self.memo:
            return self.memo[path]
        fn = self.P.fns[path]
        out, ext = set(self.kids.get(path, ())), []

        def target(n):
            f = self.P.fns.get(n) or self.P.alias(n)
            return f.path if f is not None else None

        def mention(t, depth=0):
            """function values and closures named by a type"""
            if t is None or depth > 4:
                return
            if t.k in ("fndef", "closure", "coroutine") and t.p:
                g = target(t.p)
                if g:
                    out.add(g)
                elif t.k == "fndef":
                    ext.append((self.simple(t.p), fn.span, None))
            for a in t.a:
                if hasattr(a, "k"):
                    mention(a, depth + 1)

        for B in fn.blocks:
            if B.cleanup:
                continue
            for d in walk(B.stmts):
                if "ty" in d:
                    mention(fn.tys[d["ty"]])
            t = B.term
            if t[0] == "drop" and len(t) > 3 and t[3] is not None:
                ty = fn.tys[t[3]]
                if ty.p in self.drops and self.drops[ty.p] in self.P.fns:
                    out.add(self.drops[ty.p])
            if t[0] != "call":
                continue
            for d in walk(t[2]):
                if "ty" in d:
                    mention(fn.tys[d["ty"]])
            c = t[1]
            for k in ("a", "ra"):
                for x in c.get(k) or ():
                    if isinstance(x, int):
                        mention(fn.tys[x])
            if "p" not in c:
                continue
            here = B.span
            value = None
            if len(t[2]) > 1 and t[2][-1][0] == "k":
                v = t[2][-1][1].get("v")
                value = v
            names = [normp(c["p"])] + ([normp(c["r"])] if c.get("r") else [])
            ext += [(self.simple(n), here, value) for n in names]
            g = None
            for n in reversed(names):
                g = g or target(n)
            if c.get("trait") and not c.get("r"):
                found = self.impls.get((normp(c["trait"]), c["method"]), [])
                out.update(p for i, p in found if p in self.P.fns)
            if g:
                out.add(g)
        self.memo[path] = (out, ext)
        return self.memo[path]

    def effects(self, path):
        """outside calls of one function that may change something"""
        bad = []
        for n, w, v in self.body(path)[1]:
            last = n.rsplit("::", 1)[-1]
            if n.startswith("std::fs::OpenOptions::") or n.startswith("tokio::fs::OpenOptions::"):
                if last in SWITCHES and str(v) not in ("{'i': '0'}", "{'int': '0'}", "{'b': False}", "False", "0", "{'bits': '0'}") and not zero(v):
                    bad.append((n, w))
            elif n.startswith(GUARDED) and not n.startswith(HARMLESS):
                bad.append((n, w))
            elif n.startswith(DEVICE[0]):
                bad.append((n, w))
        return bad

    def reach(self, roots):
        seen, todo, via = set(), list(roots), {}
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for q in self.body(p)[0]:
                if q not in seen:
                    via.setdefault(q, p)
                    todo.append(q)
        return seen, via


def zero(v):
    if isinstance(v, dict):
        return len(v) >= 1 and all(zero(x) for k, x in v.items() if k not in ("ty", "size", "sz", "n"))
    return v in (0, "0", False)


def chain(via, p):
    out = [p]
    while p in via and len(out) < 8:
        p = via[p]
        out.append(p)
    return " <- ".join(x.replace("::{closure#0}", "") for x in out)


def check(R):
    G = Graph(R)
    roots = {}
    for c in COMMANDS:
        R.fn(c)
        roots[c.rsplit("::", 1)[-1]] = [c]
    for n in READ_API:
        R.fn(n)
    roots["library reading"] = [p for p, f in R.P.fns.items() if p.startswith(READ_MODULES) and not f.derived and f.crate == R.P.fns[READ_API[0]].crate]
    handlers = {}
    for i in R.P.impls:
        if i.get("trait") == "fuser::Filesystem" and i["crate"] in ("xdvdfsd", "xdvdfs_fsd", "xdvdfs-fsd") or i.get("trait") == "fuser::Filesystem":
            for m, p in i["methods"].items():
                handlers[m] = p
    if not handlers:
        raise MissingAnchor("fuser::Filesystem", "no implementation of the mounted filesystem found")
    roots["mounted filesystem"] = list(handlers.values())

    # what a dry run can reach
    switch = R.field(BUILD_ARGS, "dry_run")
    I = R.analyse(BUILD, opaque=lambda p: not p.startswith(BUILD) and p in R.P.fns)
    dry = set()
    for e in I.events():
        if e.kind != "call" or not e.name:
            continue
        off = any(f.op == "not" and f.args[0].op == "field" and f.args[0].args[2] == switch and not subs_call(f.args[0]) for f in e.facts)
        eff = path_effect(e) is not None
        if eff or e.name in R.P.fns or R.P.alias(e.name):
            R.ob("dry", e.name.rsplit("::", 1)[-1], off or not eff, "no file is touched with the dry-run switch on", where(e),
                 "%s runs although the dry-run switch is on" % e.name)
        if not off:
            f = R.P.fns.get(e.name) or R.P.alias(e.name)
            if f is not None:
                dry.add(f.path)
    roots["dry-run"] = sorted(dry)

    for tag, rs in roots.items():
        seen, via = G.reach(rs)
        R.functions.update(seen)
        R.ob("reach", tag, bool(rs), "%d functions reachable from %d root(s)" % (len(seen), len(rs)), "")
        for p in sorted(seen):
            bad = G.effects(p)
            R.ob("effect", "%s:%s" % (tag, p), not bad, "no operation that changes a file or a device", R.P.fns[p].span,
                 "%s can be reached from %s (%s) and may change a file or device: %s" % (p, tag, chain(via, p), "; ".join("%s at %s" % b for b in bad[:3])))

    for m, p in sorted(handlers.items()):
        if m in READING:
            R.ob("handler", m, True, "a request that asks for nothing to change", R.P.fns[p].span)
            continue
        seen, _ = G.reach([p])
        granted = sorted({n for q in seen for n, w, v in G.body(q)[1] if n.startswith("fuser::Reply") and not n.endswith("::error")})
        R.ob("handler", m, not granted, "a request to change something is only ever refused", R.P.fns[p].span,
             "the mounted filesystem handles %s and may grant it (%s)" % (m, ", ".join(granted)))
    for m in ("open", "opendir"):
        if m not in handlers:
            continue
        I = R.analyse(handlers[m])
        for e in I.events():
            if e.kind == "call" and e.name and e.name.startswith("fuser::") and e.name.endswith("::opened"):
                R.ob("refuse", m, refused(e.facts) == WRITING, "a handle is only granted when no writing, creating or truncating was asked for", where(e),
                     "%s grants a handle without refusing a request for writing" % m)


def subs_call(t):
    return any(a.op == "sym" and a.args[0] in ("call", "hv", "hav") for a in allsubs(t))


def refused(facts):
    """bits established to be clear in the requested flags"""
    clear = {}
    for f in facts:
        if f.op == "eq" and f.args[0].op == "band":
            k = [int_val(x) for x in f.args[0].args if int_val(x) is not None]
            x = [x for x in f.args[0].args if int_val(x) is None]
            if len(k) == 1 and len(x) == 1:
                clear[x[0]] = clear.get(x[0], 0) | k[0]
    return max((c & WRITING for c in clear.values()), default=0)
