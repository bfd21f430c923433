"""C03: downloads return exactly the stored bytes."""
import os
import subprocess
import threading

from lib import core, gen, model, mon, proto, seq
from lib.core import Violation

TECHNIQUE = 'reference-model monitor over random histories and boundary-size round trips'
NOTE = 'Every downloaded byte of the explored histories is compared with what was uploaded; all sizes around packet and buffer boundaries are enumerated.'
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random histories of upload and download sessions over a pool of objects whose sizes include all boundaries of packets and "
        "copy buffers, and, as enumerated jobs, a round trip for each boundary size and the download of a sparse object of more than 4 GiB; at times reads of objects or input give less than was asked for; each download is compared byte for byte with "
        "the reference model. Some histories have up to four live sessions at once, each request answered before the next is sent to any, with objects removed, stored or linked by hand in between. Histories are the same if they have the same kinds, sizes and statuses.")
W = {"upload": {"put": 6, "badput": 1, "get": 1, "verify": 1}, "download": {"get": 8, "batch": 1, "junk": 1}}
BASES = [0, 1, 4096, 8192, 16384, 32768, 65516, 65520, 65536, 2 * 65516, 3 * 65516, 131072, 262144, 1 << 20, 16 * 65516]


def jobs(ctx):
    out = sorted({max(0, b + d) for b in BASES for d in (-2, -1, 0, 1, 2)})
    if ctx.thorough:
        out += [(64 << 20) + 3, 10 * 65516 + 8192, (5 << 20) - 1]
    return [("sparse", (1 << 32) + 70001)] + out + ([("sparse", (1 << 31) + 5)] if ctx.thorough else [])


def sparse(ctx, rng, size):
    """Downloads an object which is larger than 32 bits can count, mostly a hole, with marks in some places."""
    g = model.new_repo(ctx)
    oid = b"%064x" % rng.getrandbits(256)
    p = os.path.join(g, "lfs/objects", oid[:2].decode(), oid[2:4].decode(), oid.decode())
    os.makedirs(os.path.dirname(p))
    marks = {}
    for at in [0, size - 9, (1 << 31) - 4, (1 << 32) - 4] + [rng.randrange(size // 8) * 8 for _ in range(20)]:
        if 0 <= at <= size - 9 and all(abs(at - x) > 16 for x in marks):
            marks[at] = rng.randbytes(9)
    with open(p, "wb") as f:
        f.truncate(size)
        for at, b in marks.items():
            f.seek(at)
            f.write(b)
    q = subprocess.Popen([ctx.bin("git-lfs-transfer"), g, "download"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ctx.env())
    core.limit_child(q.pid)
    timer = threading.Timer(240, q.kill)
    timer.start()
    try:
        q.stdin.write(proto.get(oid).raw + proto.version().raw)
        q.stdin.close()
        want, pos, head, part, statuses = sorted(marks), 0, [], 0, 0
        size_given = None
        while True:
            h = q.stdout.read(4)
            if len(h) < 4:
                break
            n = int(h, 16)
            if n < 4:
                part = n if n else 0
                statuses += n == 0
                continue
            d = q.stdout.read(n - 4)
            if part == 0:
                head.append(d)
                if d.startswith(b"size="):
                    size_given = int(d[5:])
                continue
            z = bytearray(d)
            for at in want:
                if at < pos + len(d) and at + 9 > pos:
                    a, b = max(at, pos), min(at + 9, pos + len(d))
                    if d[a - pos:b - pos] != marks[at][a - at:b - at]:
                        raise Violation("a large object's download differs from it at about %d" % a, size=size)
                    z[a - pos:b - pos] = bytes(b - a)
            if z.count(0) != len(z):
                raise Violation("a large object's download differs from it between %d and %d" % (pos, pos + len(d)), size=size)
            pos += len(d)
            while want and want[0] + 9 <= pos:
                want.pop(0)
        err = q.stderr.read()
        q.wait()
    except ValueError:
        raise core.Other("malformed output in a large download")
    finally:
        expired = not timer.is_alive()
        timer.cancel()
        q.kill()
        q.wait()
    if expired:
        raise core.Inconclusive("a large download took too long")
    if pos != size or size_given != size or statuses != 3:
        raise Violation("a download of %d bytes gave the size %s and %d bytes, and %d answers came" % (size, size_given, pos, statuses), head=head, stderr=err[-300:])
    core.rmtree(g, ctx.scratch)
    return {"key": ("sparse", size), "sample": {"large object downloaded, bytes": size}}


def run_job(ctx, rng, size):
    if isinstance(size, tuple):
        return sparse(ctx, rng, size[1])
    m = model.Model(model.new_repo(ctx))
    data = rng.randbytes(size)
    oid = model.sha(data)
    try:
        model.run_reqs(ctx, m, "upload", [proto.put(oid, data, sizes=(rng.choice([65516, 32768, 8192]),))])
        model.run_reqs(ctx, m, "download", [proto.get(oid), proto.version(), proto.get(oid)])
    except model.Bad as b:
        model.raise_for(ctx, b, size=size)
    return {"key": ("size", size), "sample": {"round trip of bytes": size}}


def pieces(ctx, rng):
    """Reads of objects may give less than was asked for, at any time."""
    m = model.Model(model.new_repo(ctx))
    pool = gen.Pool(rng, rng.randrange(1, 4), 1, big=0.5)
    mode = rng.choice(["download", "download", "upload"])
    try:
        model.run_reqs(ctx, m, "upload", [proto.put(o, b) for o, b in zip(pool.oids, pool.blobs)])
        reqs = [proto.get(o) for o in pool.oids] if mode == "download" else [proto.put(o, b) for o, b in zip(pool.oids, pool.blobs)]
        reqs += [gen.mixed(rng, pool, m, {"get": 3, "batch": 1, "verify": 1} if mode == "download" else {"put": 2, "verify": 3}) for _ in range(rng.randrange(3))]
        job = [([ctx.bin("git-lfs-transfer"), m.gitdir, mode], b"".join(r.raw for r in reqs))]
        lfs = os.path.join(m.gitdir, "lfs")
        dry = mon.go(ctx, lfs, job)
        reads = [e for e in dry.of(0) if e.name in ("read", "pread64") and (e.ret or 0) > 1 and
                 (not e.path.startswith("<") or e.path == "<0>")]
        total = 0
        for _ in range(3 if reads else 0):
            some = rng.sample(reads, min(len(reads), rng.choice([1, 1, 2, 5])))
            # Event numbers shift with each additional read, so that later faults may fall on other calls, which aren't changed, or on writes.
            faults = [(0, e.n, "short", rng.choice([1, e.ret // 2, e.ret - 1, rng.randrange(1, e.ret)])) for e in some]
            run = mon.go(ctx, lfs, job, faults=faults)
            _, resps, rest = proto.parse_stream(run.out[0], partial_ok=True)
            if run.ends[0] != ("exit", 0) or rest or len(resps) != len(reqs):
                raise Violation("with reads cut short, %d of %d requests are answered" % (len(resps), len(reqs)), end=run.ends[0], faults=faults, stderr=run.err[0][-300:])
            for r, x in zip(reqs, resps):
                try:
                    m.check(r, x, mode)
                except model.Bad as b:
                    b.detail["cut_short"] = [(e.brief(), f[3]) for e, f in zip(some, faults)]
                    raise
            total += len(run.injected.get(0, []))
        ctx.stats["reads_cut_short"] += total
    except model.Bad as b:
        model.raise_for(ctx, b, sizes=[len(x) for x in pool.blobs])
    except proto.Malformed as e:
        raise core.Other(str(e))
    return {"key": ("pieces", mode, tuple(len(b) for b in pool.blobs), len(reads)), "sample": {"sizes": [len(b) for b in pool.blobs], "reads cut short": total}}


def case(ctx, rng, n):
    if rng.random() < 0.06:
        return pieces(ctx, rng)
    if rng.random() < 0.12:
        return seq.live_case(ctx, rng, W, big=0.3)
    return seq.seq_case(ctx, rng, W, modes=("upload", "download", "download"), sessions=(2, 7), big=0.35, huge=0.02,
                        store_tags=("C01",), store_every=False)
