"""C29: a session serves any number of requests with the same resources."""
import os
import resource

from lib import core, gen, live, model, proto, seq
from lib.core import Inconclusive, Violation
from lib.model import Bad
from lib.proto import DELIM, FLUSH, pkt

TECHNIQUE = "resource monitor over long live sessions: descriptors, anonymous memory, threads, children and leftover files between bursts; exact heap measurements"
NOTE = "Thousands of requests a session (tens of thousands in the thorough tier); memory growth below half a megabyte goes unnoticed in mixed sessions, below 4 kB in those of one kind of request."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 900
MIN_EVALUATIONS = 5
MB = 1 << 20
SLACK = MB // 2
KINDS = {"upload": ["put", "badput", "batch", "verify", "lock", "unlock", "list", "junk", "version", "get"],
         "download": ["get", "batch", "list", "put", "lock", "junk", "verify"]}
RULE = ("live sessions of thousands of requests: each kind by itself, in both operations, and random mixes; some under a limit of 20 open "
        "files. Between bursts, when the server waits for input, its descriptors, anonymous resident memory, threads and children are "
        "read from /proc and the temporary directories are listed: nothing may have grown since the first fifth of the session (memory: by "
        "at most %d kB), and every response is compared with the reference model. "
        "The largest heap of sessions of one kind of request, accepted or refused, is measured exactly (a malloc which counts) for two numbers of requests, between which it may not "
        "grow by 4 kB; and requests of hundreds of thousands of empty or tiny packets must be answered like others. Distinct by operation, kinds and weights, number of "
        "requests, and limit." % (SLACK // 1024))


def jobs(ctx):
    n = 100000 if ctx.thorough else 10000
    out = [("heap", mode, i) for mode in KINDS for i in range(len(repeated(mode, b"x", b"y")))]
    out += [("many", k) for k in range(len(many()))]
    return out + [(mode, {k: 1}, n, (i + j) % 3 == 0) for i, mode in enumerate(KINDS) for j, k in enumerate(KINDS[mode])]


def repeated(mode, here, absent):
    """Requests which can be repeated without changing anything, the object `here` and the lock of the path "taken" existing."""
    h, a = model.sha(here), model.sha(absent)
    lid = model.sha(b"v1:taken")

    def other(j):
        return model.sha(b"other %d" % j)

    some = [("version", proto.version()), ("wrong version", proto.version(b"9")), ("unknown", proto.raw(pkt(b"frob\n") + FLUSH)),
            ("unknown with data", proto.raw(pkt(b"frob\n") + pkt(b"a=b\n") + DELIM + pkt(b"data" * 50) + FLUSH)), ("empty", proto.raw(FLUSH)),
            ("bad argument", proto.raw(pkt(b"batch\n") + pkt(b"noequals") + DELIM + FLUSH)),
            ("batch", proto.batch([(h, len(here)), (a, 5)])), ("refused batch", proto.batch([(h, 1), (b"zz", 1)])),
            ("foreign batch", proto.batch([(h, 1)], hash_algo=b"md5")),
            ("different batches", lambda j: proto.batch([(other(j), j + 1), (h, len(here))])), ("different unknown commands", lambda j: proto.raw(pkt(b"frob %d\n" % j) + FLUSH))]
    if mode == "download":
        return some + [("get", proto.get(h)), ("get of nothing", proto.get(a)), ("get of a bad ID", proto.get(b"../x")), ("put", proto.put(a, absent)),
                       ("lock", proto.lock(b"new")), ("list", proto.list_lock()), ("list of a path", proto.list_lock(path=b"taken")),
                       ("list of no path", proto.list_lock(path=b"other")), ("list of a bad limit", proto.list_lock(limit=b"0")),
                       ("different gets", lambda j: proto.get(other(j))), ("different lists", lambda j: proto.list_lock(path=b"no%d" % j))]
    return some + [("put", proto.put(h, here)), ("put of other data", proto.put(a, here)), ("put of another size", proto.put(h, here, size=len(here) + 1)),
                   ("put of a bad ID", proto.put(b"xyz", here)), ("put without a size", proto.raw(pkt(b"put-object " + h + b"\n") + DELIM + pkt(here) + FLUSH)),
                   ("verify", proto.verify(h, len(here))), ("verify of another size", proto.verify(h, len(here) + 1)), ("verify of nothing", proto.verify(a, 5)),
                   ("lock of what is locked", proto.lock(b"taken")), ("lock without a ref", proto.raw(pkt(b"lock\n") + pkt(b"path=x\n") + FLUSH)),
                   ("unlock of nothing", proto.unlock(a)), ("unlock of a bad ID", proto.unlock(b"../x")),
                   ("lock and unlock", proto.raw(proto.lock(b"other").raw + proto.unlock(model.sha(b"v1:other")).raw)),
                   ("list", proto.list_lock()), ("get", proto.get(h)), ("unlock and lock", proto.raw(proto.unlock(lid).raw + proto.lock(b"taken").raw)),
                   ("different refused puts", lambda j: proto.put(other(j), here)), ("different verifications", lambda j: proto.verify(other(j), j)),
                   ("different unlocks", lambda j: proto.unlock(other(j))),
                   ("different locks and unlocks", lambda j: proto.raw(proto.lock(b"p%07d" % j).raw + proto.unlock(model.sha(b"v1:p%07d" % j)).raw))]


def heap(ctx, rng, mode, i):
    """The largest heap must not depend on how many requests came before."""
    here, absent = rng.randbytes(rng.choice([300, 1500])), rng.randbytes(100)
    what, r = repeated(mode, here, absent)[i]
    varied = callable(r)
    n = 50000 if ctx.thorough else 4000
    peaks, got = [], []
    g = model.new_repo(ctx)
    p = model.session(ctx, g, "upload", proto.put(model.sha(here), here).raw + proto.lock(b"taken").raw)
    for k in (60, 60 + n):
        out = os.path.join(ctx.dir("heap"), "out")
        p = core.run(ctx, [ctx.bin("git-lfs-transfer"), g, mode], stdin=b"".join(r(j).raw for j in range(k)) if varied else r.raw * k, env=ctx.env(LD_PRELOAD=ctx.heapshim, HEAPSHIM_OUT=out), timeout=120)
        try:
            with open(out) as f:
                peaks.append(int(f.read().split()[0]))
        except (OSError, ValueError, IndexError):
            if p.rc < 0 or p.rc > 2:
                raise Violation("a session of %d requests of one kind (%s) ends with status %d" % (k, what, p.rc), stderr=p.err[-400:])
            raise Inconclusive("the heap was not measured: %r" % p.err[-300:])
        _, resps, rest = proto.parse_stream(p.out, partial_ok=True)
        got.append(len(resps))
        if p.rc != 0 or rest or len(resps) % k:
            raise Violation("of %d requests of one kind (%s) %d were answered" % (k, what, len(resps)), status=p.rc, stderr=p.err[-400:])
        if not varied and len({(x.status, tuple(x.args), tuple(x.data)) for x in resps[::len(resps) // k]}) > 1 and what not in ("unlock and lock", "lock and unlock"):
            raise Violation("the same request (%s) is not always answered in the same way" % what, answers=[x.brief() for x in resps[:3] + resps[-3:]])
        ctx.stats["requests"] += k
    ctx.stats["max_heap_growth"] = max(ctx.stats["max_heap_growth"], peaks[1] - peaks[0])
    if peaks[1] - peaks[0] > 4096:
        raise Violation("%d more requests (%s) take %d more bytes of memory" % (n, what, peaks[1] - peaks[0]), peaks=peaks, request=(r(0) if varied else r).brief())
    return {"key": ("heap", mode, what, len(here)), "sample": {"mode": mode, "repeated": what, "largest heap for few and for many": peaks}}


def many():
    """Requests of very many packets with little or nothing in them, and what they are answered with at least."""
    n = 300000
    none, one = b"0004" * n, b"0005x" * n
    e = model.sha(b"")
    x = model.sha(b"x" * n)
    head = lambda o, k: pkt(b"put-object " + o + b"\n") + pkt(b"size=%d\n" % k) + DELIM
    return [("put of empty packets", head(e, 0) + none + FLUSH, 200), ("put of tiny packets", head(x, n) + one + FLUSH, 200),
            ("put of both", head(x, n) + b"00040005x" * n + FLUSH, 200), ("refused put of empty packets", head(x, n) + none + FLUSH, 0),
            ("refused put of tiny packets", head(e, n) + one + FLUSH, 0), ("put of a bad ID", head(b"zz", 0) + none + FLUSH, 0),
            ("unknown with data", pkt(b"frob\n") + DELIM + none + one + FLUSH, 0), ("unknown with arguments", pkt(b"frob\n") + none + one + FLUSH, 0),
            ("get with arguments", pkt(b"get-object " + e + b"\n") + none + FLUSH, -1), ("put with empty arguments", pkt(b"put-object " + e + b"\n") + none + DELIM + none + FLUSH, 0),
            ("empty requests", FLUSH * n, 0)]


def many_case(ctx, rng, k):
    what, data, status = many()[k]
    g = model.new_repo(ctx)
    p = model.session(ctx, g, "upload", data + proto.version().raw + proto.put(model.sha(b"x"), b"x").raw)
    _, resps, rest = proto.parse_stream(p.out, partial_ok=True)
    want = 3 if what != "empty requests" else data.count(FLUSH) + 2
    if p.rc != 0 or rest or len(resps) != want or [x.status for x in resps[-2:]] != [200, 200]:
        raise Violation("a session with very many packets (%s) is not served: status %d and %d of %d answers" % (what, p.rc, len(resps), want),
                        answers=[x.brief() for x in resps[:2] + resps[-2:]], stderr=p.err[-400:])
    s = resps[0].status
    if status == 200 and s != 200 or status == 0 and s < 400:
        raise Violation("a request of very many packets (%s) is answered with %d" % (what, s), answer=resps[0].brief())
    ctx.stats["many_packets"] += 1
    return {"key": ("many", what), "sample": {"very many packets": what, "bytes": len(data), "status": s}}


def case(ctx, rng, n):
    mode = rng.choice(["upload", "upload", "download"])
    some = rng.sample(KINDS[mode], rng.randrange(2, 6))
    return run_job(ctx, rng, (mode, {k: rng.choice([1, 2, 5]) for k in some}, rng.choice([30000, 100000] if ctx.thorough else [5000, 15000]),
                              rng.random() < 0.4))


def usage(s):
    """What the waiting server holds."""
    base = "/proc/%d/" % s.p.pid
    try:
        u = {"descriptors": len(os.listdir(base + "fd")), "threads": len(os.listdir(base + "task"))}
        with open(base + "status") as f:
            u["anonymous"] = next(int(x.split()[1]) * 1024 for x in f if x.startswith("RssAnon:"))
        with open(base + "task/%d/children" % s.p.pid) as f:
            u["children"] = len(f.read().split())
    except (FileNotFoundError, ProcessLookupError, StopIteration) as e:
        raise Inconclusive("the server's resources can't be read: %r" % e)
    except PermissionError as e:
        raise Inconclusive("the server's resources can't be read: %r" % e)
    return u


def leftovers(g):
    n = 0
    for base, dirs, files in os.walk(os.path.join(g, "lfs")):
        rel = os.path.relpath(base, os.path.join(g, "lfs")).split("/")[0]
        if rel not in ("objects", "locks"):
            n += len(files) + (len(dirs) if rel != "." else 0)
    return n


def run_job(ctx, rng, job):
    try:
        if job[0] == "heap":
            return heap(ctx, rng, *job[1:])
        if job[0] == "many":
            return many_case(ctx, rng, job[1])
    except proto.Malformed as e:
        raise model.Other(str(e))
    mode, weights, total, tight = job
    g = model.new_repo(ctx, bare=True)
    m = model.Model(g)
    pool = gen.Pool(rng, 5, 4, big=0)
    pool.blobs = [b[:3000] for b in pool.blobs]
    pool.oids = [model.sha(b) for b in pool.blobs]
    pool.paths = list(dict.fromkeys(p[:300] for p in pool.paths))
    detail = {"mode": mode, "kinds": weights, "limit_on_files": tight}
    s = None
    try:
        seq.learn_ids(ctx, m, pool)
        pre = [proto.put(o, b) for o, b in zip(pool.oids, pool.blobs) if rng.random() < 0.7 or len(weights) == 1]
        pre += [proto.lock(p) for p in pool.paths if rng.random() < 0.5 or len(weights) == 1]
        model.run_reqs(ctx, m, "upload", pre)
        s = live.Live(ctx, [ctx.bin("git-lfs-transfer"), g, mode], timeout=400 if ctx.thorough else 120)
        if tight:
            resource.prlimit(s.p.pid, resource.RLIMIT_NOFILE, (20, 20))
        if not s.settle():
            raise Inconclusive("the server did not start")
        head = proto.pkt(b"version=1\n") + proto.FLUSH
        del s.out[:]
        first, done, burst = None, 0, 100
        while done < total:
            reqs = []
            while len(reqs) < burst:
                reqs.append(gen.mixed(rng, pool, m, weights))
                if len(weights) == 1 and "unlock" in weights:
                    reqs.append(proto.lock(rng.choice(pool.paths)))
            alive = s.send(b"".join(r.raw for r in reqs)) and s.settle()
            detail.update(requests_before=done, burst=[r.brief() for r in reqs][:6], stderr=bytes(s.err[-400:]), after_warm_up=first)
            adv, resps, rest = proto.parse_stream(head + bytes(s.out), partial_ok=True)
            del s.out[:]
            for r, x in zip(reqs, resps):
                m.check(r, x, mode)
            if not alive or len(resps) != len(reqs) or rest:
                raise Violation("after %d requests, only %d of %d were answered" % (done, len(resps), len(reqs)), alive=alive, **detail)
            done += len(reqs)
            ctx.stats["requests"] += len(reqs)
            if done >= total // 5 and (first is None or done >= total or rng.random() < 0.2):
                u = usage(s)
                u["leftovers"] = leftovers(g)
                ctx.stats["measurements"] += 1
                if first is None:
                    first = u
                    if u["leftovers"]:
                        raise Violation("%d files were left behind by complete requests" % u["leftovers"], **detail)
                for k in u:
                    grown = u[k] - first[k]
                    if k == "anonymous":
                        ctx.stats["max_growth_kb"] = max(ctx.stats["max_growth_kb"], grown // 1024)
                    if grown > (SLACK if k == "anonymous" else 0):
                        raise Violation("after %d requests the session has %d %s instead of %d" % (done, u[k], k, first[k]), now=u, **detail)
        ctx.stats["max_descriptors"] = max(ctx.stats["max_descriptors"], first["descriptors"])
        rc = s.finish()
        if rc != 0:
            raise Violation("the session ended with %r" % rc, **detail)
    except Bad as b:
        # A request answered wrongly only after many others is of this property, whatever else it is.
        fresh = model.session(ctx, g, mode, b"")
        if fresh.rc == 0 and "requests_before" in detail and detail["requests_before"] >= 200:
            b.tags.add("C29")
        model.raise_for(ctx, b, **detail)
    except proto.Malformed as e:
        raise model.Other(str(e))
    finally:
        if s:
            s.kill()
    return {"key": (mode, tuple(sorted(weights.items())), total, tight),
            "sample": {"mode": mode, "kinds": weights, "requests": done, "limit_on_files": tight, "held": u}}
