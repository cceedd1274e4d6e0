"""Builds small XDVDFS images by hand (independent of the code under test)."""
import struct

MAGIC = b"MICROSOFT*XBOX*MEDIA"
SEC = 2048


def entry(left, right, sector, size, attrs, name, nlen=None):
    return struct.pack("<HHIIBB", left, right, sector, size, attrs, len(name) if nlen is None else nlen) + name


class Image:
    """tree: dict name(bytes) -> bytes (file) | dict (directory); entries are chained through right children, sorted"""

    def __init__(self, tree, start=0, absent=0, file_sector=None):
        self.start, self.absent = start, absent
        self.next = 33
        self.chunks = {}
        self.where = {}
        self.file_sector = file_sector
        self.root = self.directory(tree, b"")
        hdr = MAGIC + struct.pack("<IIQ", self.root[0], self.root[1], 0)
        hdr += bytes(SEC - len(hdr) - 20) + MAGIC
        self.chunks[32] = hdr

    def alloc(self, n):
        s = self.next
        self.next += max(1, -(-n // SEC))
        return s

    def directory(self, tree, path):
        names = sorted(tree, key=lambda n: n.upper())
        offs, o = [], 0
        for n in names:
            ln = 14 + len(n)
            if o // SEC != (o + ln - 1) // SEC:
                o = -(-o // SEC) * SEC
            offs.append(o)
            o = -(-(o + ln) // 4) * 4
        size = max(SEC, -(-o // SEC) * SEC)
        sec = self.alloc(size)
        tab = bytearray(b"\xff" * size)
        for i, n in enumerate(names):
            v = tree[n]
            if isinstance(v, dict):
                s, l = self.directory(v, path + b"/" + n)
                at = 0x10
            else:
                at = 0x20
                l = len(v)
                s = self.alloc(l)
                self.chunks[s] = v
            e = entry(self.absent, offs[i + 1] // 4 if i + 1 < len(names) else self.absent, s, l, at, n)
            tab[offs[i]:offs[i] + len(e)] = e
            self.where[path + b"/" + n] = (s, l, sec * SEC + offs[i])
        self.chunks[sec] = bytes(tab)
        return sec, size

    def write(self, path):
        with open(path, "wb") as f:
            end = 0
            for s, d in self.chunks.items():
                f.seek(self.start + s * SEC)
                f.write(d)
                end = max(end, self.start + s * SEC + -(-len(d) // SEC) * SEC)
            f.truncate(end)
