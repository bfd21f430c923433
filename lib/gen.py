"""Generators of objects, paths and requests."""
import hashlib
import unicodedata

from . import proto
from .model import sha
from .proto import DELIM, FLUSH, MAXDATA, Req, pkt

SIZES = [0, 1, 2, 5, 100, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65515, 65516, 65517, 65520,
         65535, 65536, 65537, 131032, 131033, 131072, 196548, 262144]


def blob(rng, big=0.2, huge=0.0):
    x = rng.random()
    if x < huge:
        n = rng.randrange(1 << 20, 4 << 20)
    elif x < huge + big:
        n = rng.choice(SIZES)
    elif x < 0.5 + big / 2:
        n = rng.randrange(0, 64)
    else:
        n = rng.randrange(0, 3000)
    k = rng.randrange(4)
    if k == 0:
        return bytes([rng.randrange(256)]) * n
    if k == 1 and n > 8:
        return (b"0000" + b"0001" + b"status 200\n0000" + rng.randbytes(5))[:n] + rng.randbytes(max(0, n - 28))
    if k == 2:
        return (b"%d line\n" % rng.randrange(1000) * (n // 6 + 1))[:n]
    return rng.randbytes(n)


def packet_sizes(rng, n):
    k = rng.randrange(6)
    if k == 0:
        return (MAXDATA,)
    if k == 1:
        return (32768,)
    if k == 2 and n < 5000:
        return (1,)
    if k == 3:
        return tuple(rng.randrange(1, 3000) for _ in range(rng.randrange(1, 6)))
    if k == 4:
        return (rng.choice([4096, 8191, 8192, 8193, 16384, 65515, 65516]),)
    return (max(1, rng.randrange(1, n + 2)),)


class Pool:
    """A small set of objects and paths, so that requests collide."""

    def __init__(self, rng, nobj=5, npath=4, big=0.15, huge=0.0):
        self.rng = rng
        self.blobs = [blob(rng, big, huge) for _ in range(nobj)]
        if rng.random() < 0.3:
            self.blobs.append(b"")
        self.oids = [sha(b) for b in self.blobs]
        self.paths = [path(rng) for _ in range(npath)]
        if npath > 1 and rng.random() < 0.25:
            self.paths[-1] = similar(rng, self.paths[0])

    def pick(self):
        i = self.rng.randrange(len(self.blobs))
        return self.oids[i], self.blobs[i]


def path(rng, maxlen=300):
    k = rng.randrange(9)
    if k == 0:
        return b"" if rng.random() < 0.25 else b"foo.bin"
    if k == 1:
        return b"dir/%d/file %d.dat" % (rng.randrange(3), rng.randrange(10))
    if k == 2:
        return rng.randbytes(rng.randrange(1, maxlen))
    if k == 3:
        return bytes(rng.choice(b":=\n /.v1\0\xff") for _ in range(rng.randrange(1, 12)))
    if k == 4:
        return b"../" * rng.randrange(1, 6) + b"config"
    if k == 5:
        return b"a" * rng.choice([1, 255, 256, 1000, 4096])
    if k == 6:
        return b"x:%d:y" % rng.randrange(10)
    if k == 7:
        return ("p\u00e4th/%d/\u65e5\u672c" % rng.randrange(10)).encode()
    return b"path%d" % rng.randrange(20)


def similar(rng, p):
    """Other paths which something could take for this one."""
    out = [p.swapcase(), p.upper(), p.lower(), p + b"\n", p + b" ", b" " + p, p + b"/", b"/" + p, b"./" + p, p.replace(b"/", b"//"), p.replace(b"/", b"\\"), p[:-1],
           p + b"\0", b"v1:" + p, p[:255], p[:4096], p + b".", p.replace(b" ", b"+"), p.replace(b" ", b"%20"), p.replace(b"/", b"/./"), b"x/../" + p, p[::-1],
           p.decode("utf-8", "replace").encode()]
    for f in ("NFC", "NFD", "NFKC"):
        try:
            out.append(unicodedata.normalize(f, p.decode()).encode())
        except UnicodeDecodeError:
            pass
    return rng.choice([x for x in out if x != p and x] or [p + b"q"])


BADOIDS = [b"", b"zz", b"0" * 63, b"0" * 65, b"A" * 64, b"g" * 64, b"../../../config", b"/etc/passwd", b"0" * 62 + b"..",
           b"\x00" * 64, b"\xff" * 64, b"0" * 63 + b"\n", b"0" * 63 + b"/"]


BADALGOS = [b"sha1", b"sha512", b"SHA256", b"Sha256", b"", b"md5", b"sha256-tree", b"sha2560", b"sha25", b"sha256 ", b" sha256", b"sha256,sha512",
            b"sha512,sha256", b"sha-256", b"sha256\0", b"sha256=", b"sha224", b"256", b"xsha256"]


def bad_oid(rng, pool=None):
    k = rng.randrange(5)
    if k == 4:
        # Of the right length but with bytes next to or between the digits and letters.
        alphabet = b"0123456789abcdef" + rng.choice([b"/", b"./", b":", b"`", b"g", b"ABCDEF", b"@G", b"\0", b"-", b"\x80"])
        s = bytes(rng.choice(alphabet) for _ in range(63))
        return s + alphabet[-1:]
    if k == 0 and pool:
        o, _ = pool.pick()
        i = rng.randrange(64)
        return o[:i] + rng.choice([b"g", b"A", b"/", b".", b"\0", b"-"]) + o[i + 1:]
    if k == 1 and pool:
        o, _ = pool.pick()
        return rng.choice([o[:-1], o + b"0", o.upper() if o.upper() != o else o[:-1], o[:32]])
    return rng.choice(BADOIDS)


def weird(rng):
    """A value which is no number, ID, hash name or command: often long, of characters of one to four bytes, or not UTF-8."""
    n = rng.choice([0, rng.randrange(1, 130), rng.randrange(1, 130), rng.choice([255, 256, 1000, 4096, 20000])])
    parts = rng.choices([b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f", b"z", b"\0", b"\x7f",
                         b"\xe2\x80\xa8", b"\\", b"%", b"{}", b"%s", b"\xef\xbf\xbd", b"\x1b[", b"\r"], k=rng.choice([1, 2, 5, 60]))
    if rng.random() < 0.3:
        # Wherever it is cut, most likely that is inside of a character.
        c = rng.choice([b"\xc3\xa9", b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\xf0\x9f\x98\x80"])
        return b"x" * rng.randrange(4) + c * rng.choice([20, 100, 200, 1000, 10000, rng.randrange(1, 600)])
    return rng.choice([b"x", b"7", b"a", b"\xc3\xa9"[:2], b"\xff"]) * n + rng.choice([b"\xc3\xa9", b"\xff", b"z"]) + b"".join(parts)


def weird_request(rng, pool):
    """A request in which one value is hard to handle or to report."""
    oid, data = pool.pick()
    w = weird(rng)
    w = w[:65000]
    k = rng.randrange(12)
    if k == 0:
        raw = pkt(b"put-object " + oid + b"\n") + pkt(b"size=" + w + b"\n") + DELIM + proto.split_data(data, (1000,))
    elif k == 1:
        raw = pkt(b"put-object " + w + b"\n") + pkt(b"size=%d\n" % len(data)) + DELIM + proto.split_data(data, (1000,))
    elif k == 2:
        raw = pkt(b"verify-object " + oid + b"\n") + pkt(b"size=" + w + b"\n")
    elif k == 3:
        raw = pkt(b"verify-object " + w + b"\n") + pkt(b"size=5\n")
    elif k == 4:
        raw = pkt(b"batch\n") + DELIM + pkt(oid + b" " + w + b"\n")
    elif k == 5:
        raw = pkt(b"batch\n") + DELIM + pkt(w + b" 5\n")
    elif k == 6:
        raw = pkt(b"batch\n") + pkt(b"hash-algo=" + w + b"\n") + DELIM + pkt(oid + b" 5\n")
    elif k == 7:
        raw = pkt(b"list-lock\n") + pkt(b"limit=" + w + b"\n")
    elif k == 8:
        raw = pkt(b"unlock " + w + b"\n")
    elif k == 9:
        raw = pkt(w + b"\n")
    elif k == 10:
        raw = pkt(b"lock\n") + pkt(b"path=x\n") + pkt(w + b"\n") + pkt(b"refname=x\n")
    else:
        raw = pkt(b"get-object " + w + b"\n")
    return bad(raw + FLUSH, "%r with a strange value of %d bytes" % (raw[4:20], len(w)), "C06")


def bad(raw, what, *tags):
    return Req("bad", raw, what=what, tags=set(tags) | {"C05"}, size=len(raw))


def corrupt_put(rng, pool):
    """An upload which must be rejected because of its contents, size or form."""
    oid, data = pool.pick()
    k = rng.randrange(12)
    sizes = packet_sizes(rng, len(data))
    if k == 0:  # one byte changed
        if not data:
            data2 = b"x"
        else:
            i = rng.choice([0, len(data) - 1, rng.randrange(len(data))])
            data2 = data[:i] + bytes([data[i] ^ (1 << rng.randrange(8))]) + data[i + 1:]
        return proto.put(oid, data2, sizes=sizes)
    if k == 1:  # shorter data, original size
        return proto.put(oid, data[:rng.randrange(len(data))] if data else b"q", size=len(data), sizes=sizes)
    if k == 2:  # shorter data, its own size
        return proto.put(oid, data[:-1] if data else b"q", sizes=sizes)
    if k == 3:  # more data, original size
        return proto.put(oid, data + rng.randbytes(rng.choice([1, 2, 100])), size=len(data), sizes=sizes)
    if k == 4:  # right data, wrong size
        d = rng.choice([-1, 1, 10, 1 << 16, 1 << 32, -(1 << 62)])
        size = len(data) + d
        return proto.put(oid, data, size=size if size >= 0 else b"-1", sizes=sizes)
    if k == 5:  # another object's data
        o2, d2 = pool.pick()
        if o2 != oid:
            return proto.put(oid, d2, sizes=sizes)
        return proto.put(oid, data + b"!", sizes=sizes)
    if k == 6:  # right data under another ID
        h = hashlib.sha256(data + b"salt%d" % rng.randrange(100)).hexdigest().encode()
        return proto.put(h, data, sizes=sizes)
    if k == 7:
        o = bad_oid(rng, pool)
        return bad(pkt(b"put-object " + o + b"\n") + pkt(b"size=%d\n" % len(data)) + DELIM + proto.split_data(data, sizes)
                   + FLUSH, "upload with a bad ID %r" % o, "C01", "C09")
    head = pkt(b"put-object " + oid + b"\n")
    body = DELIM + proto.split_data(data, sizes) + FLUSH
    if k == 8:
        v = rng.choice([b"", b"x", b"-5", b"1e3", b"0x10", b"18446744073709551616", b"99999999999999999999999", b" 5", b"5 ",
                        b"\xff"])
        return bad(head + pkt(b"size=" + v + b"\n") + body, "upload with size %r" % v, "C01")
    if k == 9:
        return bad(head + body, "upload without a size", "C01")
    if k == 10:
        return bad(head + pkt(b"size=%d\n" % len(data)) + pkt(b"size=%d\n" % len(data)) + body, "upload with two sizes",
                   "C01")
    return bad(head + pkt(b"size=%d\n" % len(data)) + FLUSH, "upload without data", "C01", "C07")


def junk_request(rng, pool, model=None):
    """A complete request which must be answered with an error and have no effect."""
    oid, data = pool.pick()
    p = rng.choice(pool.paths)
    extra = b"".join(pkt(rng.choice([b"size=3\n", b"abc", b"version 1\n", b"unlock " + b"0" * 64 + b"\n", b"lock\n", b"quit\n",
                                     b"batch\n", b"put-object " + oid + b"\n", b"path=" + p + b"\n", rng.randbytes(9)]))
                     if rng.random() < 0.8 else DELIM for _ in range(rng.randrange(4)))
    k = rng.randrange(24)
    if k == 22:
        return weird_request(rng, pool)
    if k == 0:
        return bad(pkt(rng.choice([b"frob\n", b"frob x y\n", b"\n", b" \n", b"VERSION 1\n", b"versio\n", b"quit 1\n", b"quit now\n",
                                   b"\0\n", b"get-object\n", b"put-object\n", b"verify-object\n", b"unlock\n", b"batch x\n",
                                   b"lock x\n", b"list-lock x\n", b"version\n", b"version 2\n", b"version 10\n",
                                   b"\xff\xfe\n"])) + extra + FLUSH, "unknown command")
    if k == 1:
        return bad(FLUSH, "empty request")
    if k == 2:
        return bad(b"0004" + extra + FLUSH, "empty command")
    if k == 3:
        return bad(DELIM + extra + FLUSH, "delimiter instead of a command")
    if k == 4:
        return bad(pkt(b"batch\n") + pkt(b"hash-algo=" + rng.choice(BADALGOS) + b"\n") + DELIM
                   + pkt(oid + b" 5\n") + FLUSH, "batch with another hash", "C04")
    if k == 5:
        return bad(pkt(b"batch\n") + pkt(b"transfer=ssh\n") + DELIM + pkt(oid + b" %d\n" % len(data))
                   + pkt(bad_oid(rng, pool) + b" 5\n") + FLUSH, "batch with a bad ID", "C04")
    if k == 6:
        v = rng.choice([b"", b"x", b"-1", b"18446744073709551616", b"1.5"])
        return bad(pkt(b"batch\n") + DELIM + pkt(oid + b" " + v + b"\n") + FLUSH, "batch with size %r" % v, "C04")
    if k == 7:
        return bad(pkt(b"batch\n") + DELIM + pkt(oid + b"\n") + FLUSH, "batch without a size", "C04")
    if k == 8:
        return bad(pkt(b"batch\n") + pkt(b"noequals\n") + DELIM + pkt(oid + b" 5\n") + FLUSH, "bad argument")
    if k == 9:
        return bad(pkt(b"batch\n") + pkt(oid + b" 5\n") + FLUSH, "batch without a delimiter")
    if k == 10:
        return bad(pkt(b"lock\n") + pkt(b"path=" + p + b"\n") + FLUSH, "lock without a ref", "C11")
    if k == 11:
        return bad(pkt(b"lock\n") + pkt(b"refname=x\n") + FLUSH, "lock without a path", "C11")
    if k == 12:
        return bad(pkt(b"lock\n") + pkt(b"path=" + p + b"\n") * 2 + pkt(b"refname=x\n") + FLUSH, "lock with two paths", "C11")
    if k == 13:
        v = rng.choice([b"0", b"-1", b"x", b"", b"1.5", b"00"])
        return bad(pkt(b"list-lock\n") + pkt(b"limit=" + v + b"\n") + FLUSH, "listing with limit %r" % v, "C12")
    if k == 14:
        return bad(pkt(b"unlock " + bad_oid(rng, pool) + b"\n") + extra + FLUSH, "unlock of a bad ID", "C09", "C11")
    if k == 15:
        return bad(pkt(b"verify-object " + oid + b"\n") + FLUSH, "verify without a size", "C04", "C08")
    if k == 16:
        return bad(pkt(b"verify-object " + bad_oid(rng, pool) + b"\n") + pkt(b"size=5\n") + FLUSH, "verify of a bad ID", "C04",
                   "C08")
    if k == 17:
        return bad(pkt(b"get-object " + bad_oid(rng, pool) + b"\n") + extra + FLUSH, "download of a bad ID", "C03", "C08", "C09")
    if k == 18:
        return bad(pkt(b"get-object " + oid + b"\n") + pkt(b"junk") + FLUSH, "download with a bad argument")
    if k == 19:
        return bad(pkt(b"lock\n") + pkt(b"path=" + b"l" * 65505 + b"\n") + pkt(b"refname=x\n") + FLUSH,
                   "lock of a path which cannot be listed", "C11")
    if k == 20:
        return bad(pkt(b"frob\n") + pkt(b"size=%d\n" % len(data)) + DELIM + proto.split_data(data, (1000,)) + FLUSH,
                   "unknown command with data")
    return corrupt_put(rng, pool)


def put_req(rng, pool):
    oid, data = pool.pick()
    args = []
    if rng.random() < 0.2:
        args.append(b"transfer=ssh\n")
    return proto.put(oid, data, sizes=packet_sizes(rng, len(data)), args=args)


def near(rng, oid):
    """Another ID, which begins or ends, or does both, like this one."""
    n = rng.choice([2, 4, 8, 16, 32, 40, 63])
    i = rng.choice([0, 0, 64 - n, rng.randrange(65 - n)])
    x = (b"%064x" % rng.getrandbits(256))
    x = x[:i] + oid[i:i + n] + x[i + n:]
    return x if x != oid else oid[:-1] + (b"0" if oid[-1:] != b"0" else b"1")


def batch_req(rng, pool, model, maxn=8):
    items = []
    for _ in range(rng.randrange(0, maxn)):
        oid, data = pool.pick()
        if rng.random() < 0.2:
            oid = hashlib.sha256(rng.randbytes(4)).hexdigest().encode() if rng.random() < 0.5 else near(rng, oid)
        size = rng.choice([len(data), len(data), 0, 1, len(data) + 1, rng.randrange(1 << 40), (1 << 64) - 1, 1 << 63])
        items.append((oid, size))
    return proto.batch(items, hash_algo=rng.choice([None, None, b"sha256"]))


def verify_req(rng, pool, model):
    oid, data = pool.pick()
    size = rng.choice([len(data)] * 3 + [len(data) + 1, 0, len(data) - 1 if data else 1, (1 << 64) - 1,
                                         len(data) + (1 << 32)])
    if rng.random() < 0.07:
        oid = near(rng, oid)
    return proto.verify(oid, size)


def unlock_req(rng, pool, model):
    k = rng.random()
    if k < 0.6 and model.locks:
        return proto.unlock(rng.choice(sorted(x["id"] for x in model.locks.values())))
    if k < 0.85 and model.paths:
        return proto.unlock(rng.choice(sorted(model.paths)))
    return proto.unlock(hashlib.sha256(rng.randbytes(4)).hexdigest().encode())


def list_req(rng, pool, model):
    if rng.random() < 0.4:
        return proto.list_lock(path=rng.choice(pool.paths))
    return proto.list_lock(limit=rng.choice([None, None, 1, 2, 3, 100, 101, 1000]))


def mixed(rng, pool, model, weights):
    k = rng.choices(list(weights), list(weights.values()))[0]
    if k == "put":
        return put_req(rng, pool)
    if k == "badput":
        return corrupt_put(rng, pool)
    if k == "get":
        oid = pool.pick()[0]
        return proto.get(oid if rng.random() < 0.95 else near(rng, oid))
    if k == "batch":
        return batch_req(rng, pool, model)
    if k == "verify":
        return verify_req(rng, pool, model)
    if k == "lock":
        return proto.lock(rng.choice(pool.paths))
    if k == "unlock":
        return unlock_req(rng, pool, model)
    if k == "list":
        return list_req(rng, pool, model)
    if k == "junk":
        return junk_request(rng, pool, model)
    return proto.version()
