"""C24: object transfers stream in bounded memory."""
import hashlib
import os
import select
import time

from lib import live, model, proto
from lib.core import Inconclusive, Violation

TECHNIQUE = "resource monitor: peak resident memory and bytes read of a live server during large transfers"
NOTE = "Sizes up to hundreds of megabytes; growth of a few megabytes is tolerated."
LEVEL = "exploration"
QUICK_S = 45
THOROUGH_S = 600
WORKERS = 4
MIN_EVALUATIONS = 8
MB = 1 << 20
SLACK = 5 * MB
RULE = ("the same exchange with a small and a large object: uploads which are accepted, already present, rejected for their hash, size, "
        "name, arguments or the mode, downloads and verifications, with packets from 1 byte to the maximum, and several objects in a session. "
        "The peak resident memory of the server (VmHWM, read while it waits for the next request) may exceed that of the small one by %d MB "
        "at most; a download which nobody reads must have begun while only a little of the object was read (/proc/<pid>/io). Distinct by "
        "exchange, packet size and object size." % (SLACK // MB))
ASSUMPTIONS = ["pages are resident when used (no swap)"]
UPLOADS = ["accepted", "present", "wronghash", "toolong", "tooshort", "nosize", "badoid", "badsize", "inmode", "unknown", "noargs"]


def jobs(ctx):
    big = 400 * MB if ctx.thorough else 100 * MB
    out = [("put", k, 65516, big) for k in UPLOADS]
    out += [("put", k, s, n) for k in ("accepted", "wronghash", "badoid", "unknown") for s, n in ((1, 6 * MB), (3000, 40 * MB), (32768, big), (8192, 40 * MB))]
    out += [("get", None, None, big), ("get2", None, None, big), ("verify", None, None, big), ("verifybad", None, None, big), ("stall", None, None, big)]
    out += [("many", None, 65516, big // 4), ("stall", None, None, 3 * MB), ("stallup", None, 65516, big), ("trunc", None, 65516, big)]
    if ctx.thorough:
        # More than four gigabytes.
        out.insert(0, ("put", "accepted", 65516, 4100 * MB))
        out.insert(8, ("get", None, None, 4100 * MB))
    return out


def case(ctx, rng, n):
    big = rng.choice([30, 60, 90, 130] + ([256, 400] if ctx.thorough else [])) * MB
    if rng.random() < 0.7:
        s = rng.choice([1, 2, 7, 100, 1000, 4096, 32768, 65515, 65516])
        if s < 100:
            big = rng.choice([2, 4, 8]) * MB
        return run_job(ctx, rng, ("put", rng.choice(UPLOADS), s, big))
    return run_job(ctx, rng, (rng.choice(["get", "get2", "stall"]), None, None, big))


def hwm(s):
    with open("/proc/%d/status" % s.p.pid) as f:
        for line in f:
            if line.startswith("VmHWM:"):
                return int(line.split()[1]) * 1024
    raise Inconclusive("no VmHWM")


def io(s, key):
    with open("/proc/%d/io" % s.p.pid) as f:
        for line in f:
            if line.startswith(key + ":"):
                return int(line.split()[1])
    raise Inconclusive("no I/O accounting")


class Source:
    """An object of `size` bytes without having to keep it."""

    def __init__(self, rng, size):
        self.block = rng.randbytes(MB)
        self.size = size
        h = hashlib.sha256()
        for i in range(0, size, MB):
            h.update(self.block[:min(MB, size - i)])
        self.oid = h.hexdigest().encode()

    def packets(self, packet):
        whole = proto.split_data(self.block, [packet])
        for i in range(0, self.size, MB):
            n = min(MB, self.size - i)
            yield whole if n == MB else proto.split_data(self.block[:n], [packet])

    def plain(self):
        for i in range(0, self.size, MB):
            yield self.block[:min(MB, self.size - i)]


def store(g, src):
    p = model.objpath(g, src.oid)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        for b in src.plain():
            f.write(b)


def start(ctx, g, mode):
    s = live.Live(ctx, [ctx.bin("git-lfs-transfer"), g, mode], timeout=240)
    if not s.settle():
        raise Inconclusive("the server did not start")
    return s


def status(s, n=1):
    """Lets the server finish what it has and returns the statuses so far."""
    if not s.settle():
        raise Inconclusive("the server ended: %r" % bytes(s.err[-300:]))
    _, resps, _ = proto.parse_stream(bytes(s.out))
    return [r.status for r in resps]


def put(s, src, kind, packet, mode):
    oid, size = src.oid, b"%d" % src.size
    if kind == "wronghash":
        oid = hashlib.sha256(oid).hexdigest().encode()
    elif kind == "toolong":
        size = b"%d" % (src.size - 1)
    elif kind == "tooshort":
        size = b"%d" % (src.size + 1)
    elif kind == "badsize":
        size = b"x"
    elif kind == "badoid":
        oid = b"zz" + oid[2:]
    head = proto.pkt((b"frob-object " if kind == "unknown" else b"put-object ") + oid + b"\n")
    if kind not in ("nosize", "noargs"):
        head += proto.pkt(b"size=" + size + b"\n")
    elif kind == "nosize":
        head += proto.pkt(b"other=1\n")
    ok = s.send(head + proto.DELIM)
    for b in src.packets(packet):
        ok = ok and s.send(b)
    if not (ok and s.send(proto.FLUSH)):
        raise Inconclusive("the server ended: %r" % bytes(s.err[-300:]))


def exchange(ctx, rng, job, size):
    what, kind, packet, _ = job
    g = model.new_repo(ctx, bare=True)
    src = Source(rng, size)
    seen = {}
    mode = "upload"
    if what in ("get", "get2", "stall") or kind == "inmode":
        mode = "download"
    if what in ("get", "get2", "verify", "verifybad", "stall") or kind == "present":
        store(g, src)
    s = start(ctx, g, mode)
    try:
        if what == "put":
            put(s, src, kind, packet, mode)
            seen["status"] = status(s)
            want = 1 if kind in ("accepted", "present") else 0
            if len(seen["status"]) != 1 or (200 <= seen["status"][0] < 300) != bool(want):
                raise Inconclusive("unexpected answers %s to a %s put" % (seen["status"], kind))
        elif what in ("get", "get2"):
            for _ in range(1 if what == "get" else 2):
                s.send(proto.get(src.oid).raw)
                n = 0
                # The data need not be kept.
                while True:
                    got = s.drain()
                    n += len(s.out)
                    tail = bytes(s.out[-8:])
                    del s.out[:]
                    if not got:
                        if s.waiting() and not s.drain():
                            break
                        select.select([s.o], [], [], 0.001)
                        if s.eof:
                            raise Inconclusive("the server ended")
                    s.check_time()
                if n < size:
                    raise Inconclusive("a download gave %d bytes" % n)
        elif what in ("verify", "verifybad"):
            s.send(proto.verify(src.oid, size + (what == "verifybad")).raw)
            seen["status"] = status(s)
        elif what == "many":
            for i in range(4):
                put(s, Source(rng, size), ["accepted", "wronghash", "badoid", "accepted"][i], packet, mode)
            seen["status"] = status(s)
        elif what == "stallup":
            # The upload stops halfway: what came must not be kept in memory until the rest comes.
            it = src.packets(packet)
            s.send(proto.pkt(b"put-object " + src.oid + b"\n") + proto.pkt(b"size=%d\n" % size) + proto.DELIM)
            for _ in range(max(1, size // MB // 2)):
                s.send(next(it))
            s.settle()
        elif what == "trunc":
            put(s, src, "accepted", packet, mode)
            it = src.packets(packet)
            s.send(proto.pkt(b"put-object " + b"0" * 64 + b"\n") + proto.pkt(b"size=%d\n" % size) + proto.DELIM)
            for b in it:
                s.send(b)
            s.settle()
        elif what == "stall":
            before = io(s, "rchar")
            s.send(proto.get(src.oid).raw)
            end = time.monotonic() + 20
            last, same = -1, 0
            # Nobody reads; wait until the server can't go on.
            while same < 5:
                time.sleep(0.02)
                now = io(s, "rchar")
                same = same + 1 if now == last and live.unread(s.o) > 0 else 0
                last = now
                if time.monotonic() > end:
                    if live.unread(s.o) == 0:
                        raise Inconclusive("nothing was sent in time")
                    break
            seen["read_before_anyone_reads"] = last - before
            seen["flowing"] = live.unread(s.o)
            if not seen["flowing"]:
                raise Violation("a download did not begin to flow", job=job)
        seen["hwm"] = hwm(s)
    finally:
        s.kill()
    return seen


def run_job(ctx, rng, job):
    what, kind, packet, big = job
    small = exchange(ctx, rng, job, min(MB // 2, 40000 if packet and packet < 100 else MB // 2))
    large = exchange(ctx, rng, job, big + rng.randrange(1000))
    detail = {"exchange": what, "kind": kind, "packet": packet, "object_bytes": big, "small": small, "large": large}
    grown = large["hwm"] - small["hwm"]
    if grown > SLACK:
        raise Violation("the peak memory grew by %.1f MB for an object of %.1f MB" % (grown / MB, big / MB), **detail)
    if what == "stall" and large["read_before_anyone_reads"] > 2 * MB + 65536 and large["read_before_anyone_reads"] > big // 8:
        raise Violation("%.1f MB of an object of %.1f MB were read before its first bytes could flow" % (
            large["read_before_anyone_reads"] / MB, big / MB), **detail)
    ctx.stats["megabytes_transferred"] += big // MB
    ctx.stats["max_growth_kb"] = max(ctx.stats["max_growth_kb"], grown // 1024)
    ctx.stats["max_peak_kb"] = max(ctx.stats["max_peak_kb"], large["hwm"] // 1024)
    return {"key": (what, kind, packet, big), "sample": detail}
