"""Speaks the FUSE protocol to the bridge over a socket pair."""
import socket, struct, subprocess

LOOKUP, GETATTR, OPEN, READ, INIT, OPENDIR, READDIR = 1, 3, 14, 15, 26, 27, 28


class Fuse:
    def __init__(self, bridge, image):
        self.s, c = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        for x in (self.s, c):
            x.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 22)
            x.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 << 22)
        self.s.settimeout(30)
        self.p = subprocess.Popen([bridge, image], stdin=c)
        c.close()
        self.u = 0
        e, d = self.req(INIT, 0, struct.pack("<IIII", 7, 12, 65536, 0))
        assert e == 0, e

    def req(self, op, node, body):
        self.u += 2
        self.s.send(struct.pack("<IIQQIIII", 40 + len(body), op, self.u, node, 0, 0, 1, 0) + body)
        d = self.s.recv(1 << 21)
        ln, err, u = struct.unpack_from("<IiQ", d)
        assert u == self.u and ln == len(d), (u, self.u, ln, len(d))
        return -err, d[16:]

    def extra(self):
        """any reply nobody asked for"""
        self.s.settimeout(1)
        try:
            return self.s.recv(1 << 21)
        except TimeoutError:
            return None
        finally:
            self.s.settimeout(30)

    def lookup(self, parent, name):
        """(errno, inode, size, mode)"""
        e, d = self.req(LOOKUP, parent, name + b"\0")
        if e:
            return e, 0, 0, 0
        ino = struct.unpack_from("<Q", d)[0]
        a = d[40:]
        return 0, ino, struct.unpack_from("<Q", a, 8)[0], struct.unpack_from("<I", a, 60)[0]

    def getattr(self, ino):
        e, d = self.req(GETATTR, ino, struct.pack("<IIQ", 0, 0, 0))
        if e:
            return e, 0, 0
        a = d[16:]
        return 0, struct.unpack_from("<Q", a, 8)[0], struct.unpack_from("<I", a, 60)[0]

    def open(self, ino, flags=0):
        return self.req(OPEN, ino, struct.pack("<II", flags, 0))[0]

    def read(self, ino, off, size):
        return self.req(READ, ino, struct.pack("<QQIIQII", 0, off, size, 0, 0, 0, 0))

    def readdir(self, ino, off, size=4096):
        """(errno, [(inode, offset, name)])"""
        e, d = self.req(READDIR, ino, struct.pack("<QQIIQII", 0, off, size, 0, 0, 0, 0))
        out, i = [], 0
        while not e and i + 24 <= len(d):
            n, o, ln, ty = struct.unpack_from("<QQII", d, i)
            out.append((n, o, d[i + 24:i + 24 + ln]))
            i += (24 + ln + 7) & ~7
        return e, out

    def listall(self, ino, size=4096):
        off, out = 0, []
        while True:
            e, l = self.readdir(ino, off, size)
            if e or not l:
                return e, out
            out += l
            off = l[-1][1]
            if len(out) > 10000:
                return -1, out

    def close(self):
        self.s.close()
        self.p.kill()
        self.p.wait()
