"""The LFS SSH protocol as seen from a client: encoding requests, decoding responses."""
import re

FLUSH = b"0000"
DELIM = b"0001"
MAXDATA = 65516


def pkt(data):
    assert len(data) <= MAXDATA
    return b"%04x" % (len(data) + 4) + data


def split_data(data, sizes):
    """Splits data into packets, taking the sizes in turn (and again from the start)."""
    out, pos, i = [], 0, 0
    while pos < len(data):
        n = max(1, min(MAXDATA, sizes[i % len(sizes)]))
        out.append(pkt(data[pos:pos + n]))
        pos += n
        i += 1
    return b"".join(out)


class Malformed(Exception):
    pass


def parse_packets(buf, partial_ok=False):
    """Returns a list of (type, data, end offset); raises Malformed for anything odd."""
    out, pos = [], 0
    while pos < len(buf):
        hdr = buf[pos:pos + 4]
        if len(hdr) < 4:
            if partial_ok:
                break
            raise Malformed("stream ends inside a packet header at offset %d: %r" % (pos, hdr))
        if not re.match(rb"[0-9a-f]{4}\Z", hdr):
            raise Malformed("bad packet header %r at offset %d" % (hdr, pos))
        n = int(hdr, 16)
        if n == 0:
            out.append(("flush", b"", pos + 4))
            pos += 4
        elif n == 1:
            out.append(("delim", b"", pos + 4))
            pos += 4
        elif n < 4 or n > MAXDATA + 4:
            raise Malformed("bad packet length %r at offset %d" % (hdr, pos))
        else:
            if pos + n > len(buf):
                if partial_ok:
                    break
                raise Malformed("stream ends inside a packet at offset %d" % pos)
            out.append(("data", buf[pos + 4:pos + n], pos + n))
            pos += n
    return out


class Response:
    __slots__ = ("status", "args", "delim", "data", "end")

    def __init__(self, status, args, delim, data, end):
        self.status, self.args, self.delim, self.data, self.end = status, args, delim, data, end

    @property
    def body(self):
        return b"".join(self.data)

    def argmap(self):
        m = {}
        for a in self.args:
            if not a.endswith(b"\n") or b"=" not in a:
                raise Malformed("response argument %r" % a[:200])
            k, v = a[:-1].split(b"=", 1)
            if k in m:
                raise Malformed("response argument %r given twice" % k)
            m[k] = v
        return m

    def ok(self):
        return 200 <= self.status < 300

    def brief(self):
        return {"status": self.status, "args": [a[:120] for a in self.args[:6]], "packets": len(self.data),
                "body": self.body[:200]}


def parse_stream(buf, partial_ok=False):
    """Splits a server's output into the capability advertisement and responses.

    Returns (advertisement data packets, responses, packets after the last flush)."""
    pkts = parse_packets(buf, partial_ok)
    groups, cur = [], []
    end = 0
    for t, d, e in pkts:
        if t == "flush":
            groups.append((cur, e))
            cur = []
        else:
            cur.append((t, d))
        end = e
    if not groups:
        return None, [], cur
    adv = groups[0][0]
    resp = []
    for g, e in groups[1:]:
        if not g or g[0][0] != "data":
            raise Malformed("response without a status: %r" % (g[:3],))
        m = re.match(rb"status ([0-9]{3})\n\Z", g[0][1])
        if not m:
            raise Malformed("response starts with %r" % g[0][1][:200])
        args, data, seen = [], [], False
        for t, d in g[1:]:
            if t == "delim":
                if seen:
                    raise Malformed("two delimiters in a response")
                seen = True
            elif seen:
                data.append(d)
            else:
                args.append(d)
        resp.append(Response(int(m.group(1)), args, seen, data, e))
    return adv, resp, cur


LOCKLINE = re.compile(rb"(path|locked-at|ownername|owner) ([0-9a-zA-Z]+) (.*)\n\Z", re.S)


def parse_lock_list(data):
    """Parses the data packets of a list-lock response into a list of dicts, in order."""
    out = []
    for d in data:
        if d.startswith(b"lock "):
            if not d.endswith(b"\n"):
                raise Malformed("lock line %r" % d[:200])
            out.append({"id": d[5:-1]})
            continue
        m = LOCKLINE.match(d)
        if not m or not out:
            raise Malformed("lock list line %r" % d[:200])
        k, i, v = m.group(1), m.group(2), m.group(3)
        if i != out[-1]["id"]:
            raise Malformed("lock list line %r belongs to another lock" % d[:200])
        k = k.decode()
        if k in out[-1]:
            raise Malformed("lock list gives %s twice for %r" % (k, i))
        out[-1][k] = v
    for x in out:
        for k in ("path", "locked-at", "ownername"):
            if k not in x:
                raise Malformed("listed lock without %s: %r" % (k, x))
    return out


# Requests ---------------------------------------------------------------------------------------

class Req:
    """A request: what it asks for (kind and fields), and its bytes."""

    def __init__(self, kind, raw, **f):
        self.kind, self.raw, self.f = kind, raw, f

    def brief(self):
        d = {"kind": self.kind}
        for k, v in self.f.items():
            d[k] = v if not isinstance(v, bytes) or len(v) <= 100 else v[:60] + b"...%d bytes" % len(v)
        return d


def version(arg=b"1"):
    return Req("version", pkt(b"version " + arg + b"\n") + FLUSH, arg=arg)


def batch(items, hash_algo=None, args=(b"transfer=ssh\n", b"refname=refs/heads/main\n"), nl=True):
    raw = pkt(b"batch\n")
    for a in args:
        raw += pkt(a)
    if hash_algo is not None:
        raw += pkt(b"hash-algo=" + hash_algo + b"\n")
    raw += DELIM
    for oid, size in items:
        raw += pkt(oid + b" " + (b"%d" % size if isinstance(size, int) else size) + b"\n")
    return Req("batch", raw + FLUSH, items=list(items), hash_algo=hash_algo)


def put(oid, data, size=None, sizes=(32768,), extra=b"", args=()):
    size = len(data) if size is None else size
    raw = pkt(b"put-object " + oid + b"\n") + pkt(b"size=" + (b"%d" % size if isinstance(size, int) else size) + b"\n")
    for a in args:
        raw += pkt(a)
    raw += DELIM + split_data(data, sizes) + extra + FLUSH
    return Req("put", raw, oid=oid, size=size, data=data)


def verify(oid, size):
    return Req("verify", pkt(b"verify-object " + oid + b"\n")
               + pkt(b"size=" + (b"%d" % size if isinstance(size, int) else size) + b"\n") + FLUSH, oid=oid, size=size)


def get(oid):
    return Req("get", pkt(b"get-object " + oid + b"\n") + FLUSH, oid=oid)


def lock(path, refname=b"refs/heads/main"):
    return Req("lock", pkt(b"lock\n") + pkt(b"path=" + path + b"\n") + pkt(b"refname=" + refname + b"\n") + FLUSH,
               path=path)


def list_lock(path=None, cursor=None, limit=None, refname=None):
    raw = pkt(b"list-lock\n")
    if limit is not None:
        raw += pkt(b"limit=" + (b"%d" % limit if isinstance(limit, int) else limit) + b"\n")
    if path is not None:
        raw += pkt(b"path=" + path + b"\n")
    if cursor is not None:
        raw += pkt(b"cursor=" + cursor + b"\n")
    if refname is not None:
        raw += pkt(b"refname=" + refname + b"\n")
    return Req("list", raw + FLUSH, path=path, cursor=cursor, limit=limit)


def unlock(id, args=()):
    return Req("unlock", pkt(b"unlock " + id + b"\n") + b"".join(pkt(a) for a in args) + FLUSH, id=id)


def quit_():
    return Req("quit", pkt(b"quit\n") + FLUSH)


def raw(data, **f):
    return Req("raw", data, **f)
