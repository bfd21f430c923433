"""Hostile byte streams, and an independent reading of what they contain."""
import re

from . import gen, proto
from .proto import DELIM, FLUSH, pkt

HDR = re.compile(rb"[0-9a-f]{4}\Z")
HEADERS = [b"0002", b"0003", b"0004", b"0005", b"ffff", b"fff0", b"fff1", b"fff4", b"fffe", b"FFF0", b"000A", b"000g", b"fffg",
           b"gggg", b"::::", b"00:0", b"0x10", b"-001", b"+001", b" 001", b"001 ", b"\0\0\0\0", b"\xff\xff\xff\xff", b"000/", b"00`0",
           b"@000", b"\xc2\xa900", b"8000", b"7fff", b"1000"]


def segment(data):
    """Reads a stream as the protocol defines it.

    Returns (list of complete requests as lists of (type, data), end offsets, offset where reading stops, why):
    why is 'end' between packets after a flush, 'partial' inside a request, or 'header' at a malformed header."""
    reqs, ends, cur, pos = [], [], [], 0
    while True:
        if pos == len(data):
            return reqs, ends, cur, pos, "partial" if cur else "end"
        h = data[pos:pos + 4]
        if len(h) < 4:
            return reqs, ends, cur, pos, "partial"
        if not HDR.match(h):
            return reqs, ends, cur, pos, "header"
        n = int(h, 16)
        if n in (2, 3) or n > 65520:
            return reqs, ends, cur, pos, "header"
        if n == 0:
            cur.append(("flush", b""))
            reqs.append(cur)
            pos += 4
            ends.append(pos)
            cur = []
        elif n == 1:
            cur.append(("delim", b""))
            pos += 4
        else:
            if pos + n > len(data):
                return reqs, ends, cur + [("cut", data[pos + 4:])], pos, "partial"
            cur.append(("data", data[pos + 4:pos + n]))
            pos += n


def is_quit(req):
    return bool(req) and req[0][0] == "data" and req[0][1] in (b"quit", b"quit\n")


def mutate(rng, data, pool):
    """Applies a few random changes to a stream."""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        k = rng.randrange(14)
        i = rng.randrange(len(b) + 1)
        if k == 0 and b:
            b[i % len(b)] ^= 1 << rng.randrange(8)
        elif k == 1 and b:
            b[i % len(b)] = rng.randrange(256)
        elif k == 2:
            b[i:i] = rng.randbytes(rng.choice([1, 1, 2, 4, 30]))
        elif k == 3:
            del b[i:i + rng.choice([1, 1, 2, 4, 50])]
        elif k == 4:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + rng.randrange(100)]
        elif k == 5:
            del b[i:]
        elif k in (6, 7):
            # Replace or insert a packet header where one is.
            offs = offsets(bytes(b))
            if offs:
                o = rng.choice(offs)
                h = rng.choice(HEADERS) if rng.random() < 0.7 else b"%04x" % rng.randrange(0, 65536)
                if k == 6:
                    b[o:o + 4] = h
                else:
                    b[o:o] = h
        elif k in (8, 9, 10):
            # Work on whole packets: drop, repeat or move one.
            offs = offsets(bytes(b))
            if len(offs) > 2:
                x = rng.randrange(len(offs) - 1)
                p = bytes(b[offs[x]:offs[x + 1]])
                if k != 10:
                    del b[offs[x]:offs[x + 1]]
                if k != 8:
                    o = rng.choice(offsets(bytes(b)) or [0])
                    b[o:o] = p
        elif k == 11:
            offs = offsets(bytes(b))
            o = rng.choice(offs) if offs else 0
            b[o:o] = rng.choice([FLUSH, DELIM, b"0004", pkt(b"\n"), pkt(b"="), pkt(b"=\n"), pkt(b" \n"), pkt(b"a=b\n"), pkt(b"size=\n"),
                                 pkt(b"size=18446744073709551615\n"), pkt(b"limit=18446744073709551615\n"), pkt(b"limit=1\n"),
                                 pkt(b"cursor=\n"), pkt(b"cursor=" + b"f" * 64 + b"\n"), pkt(b"cursor=\xff\n"),
                                 pkt(b"path=\n"), pkt(b"\xff" * 9), pkt(b"x" * 65516)])
        elif k == 12:
            # Change a line inside a packet, keeping the header right.
            offs = offsets(bytes(b))
            if len(offs) > 1:
                x = rng.randrange(len(offs) - 1)
                d = bytearray(b[offs[x] + 4:offs[x + 1]])
                if d:
                    y = rng.randrange(len(d))
                    z = rng.randrange(4)
                    if z == 0:
                        d[y] = rng.choice(b"\0\n =/.0f\xff\x80")
                    elif z == 1:
                        del d[y:y + rng.choice([1, 1, 20])]
                    elif z == 2:
                        d[y:y] = rng.choice([b" ", b"\n", b"=", b"\0", b"/../", b"0" * 70])
                    else:
                        del d[-1:]
                    if len(d) <= proto.MAXDATA:
                        b[offs[x]:offs[x + 1]] = pkt(bytes(d))
        else:
            b += rng.randbytes(rng.randrange(20))
    return bytes(b)


def offsets(data):
    out, pos = [], 0
    while pos + 4 <= len(data):
        h = data[pos:pos + 4]
        if not HDR.match(h):
            break
        out.append(pos)
        n = int(h, 16)
        pos += n if n >= 4 else 4
    return out


LOCKJUNK = [b"", b"v1", b"v1:", b"v1::", b"v1:5", b"v1:5:", b"v2:5:foo", b"v1:x:foo", b"v1:-5:foo", b"v1:99999999999999:foo",
            b"v1:9223372036854775807:foo", b"v1:-9223372036854775808:foo", b"v1:9223372036854775808:foo", b"v1:8210298412799:q",
            b"v1:8210298412800:q", b"v1:253402300800:y", b"v1:-62167219201:y", b"v1:\xff:foo", b"\0" * 40, b":::", b"v1:1:" + b"a" * 65000,
            b"v1: 1:foo", b"v1:+1:foo", b"v1:1:foo\n"]


def corrupt_store(rng, gitdir):
    """Puts files into the lock directory which the server did not write."""
    import hashlib
    import os
    d = os.path.join(gitdir, "lfs", "locks")
    os.makedirs(d, exist_ok=True)
    for _ in range(rng.randrange(0, 6)):
        name = rng.choice(["%064x" % rng.getrandbits(256), hashlib.sha256(b"v1:foo").hexdigest(), "0" * 64, "f" * 64, "junk", "f" * 63,
                           ".tmp", "%064x.lock" % rng.getrandbits(256), "\u00e9" * 32, hashlib.sha256(b"v1:foo.bin").hexdigest()])
        p = os.path.join(d, name)
        if os.path.lexists(p):
            continue
        if rng.random() < 0.1:
            os.mkdir(p)
            continue
        with open(p, "wb") as f:
            c = rng.choice(LOCKJUNK)
            f.write(c if rng.random() < 0.8 else rng.randbytes(rng.randrange(40)))
