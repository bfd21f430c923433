"""C37: a connection which fails for a moment never puts a session out of step."""
import errno
import os
import time

from lib import core, gen, model, mon, proto, seq
from lib.core import Violation
from lib.model import Bad
from props.c28 import clone, after_failure, settle

TECHNIQUE = "ptrace fault injection at every read and write of the client's streams, with the reference model following the rest of the session"
NOTE = "One failure per run; reads or writes before it may be short, so that it falls anywhere in a packet."
LEVEL = "fault_enumeration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random sessions of both operations are recorded under ptrace and repeated with a read of their input or a write of their output failing (EIO, EAGAIN, ENOSPC, ECONNRESET and others), preferably after a read or write which fell short, within packets and headers. The session may end with an error at that point, or go on; what it has sent must be the beginning "
        "of correct responses in order, of which at most one more than otherwise is an error, and what is stored and locked afterwards follows from the complete requests, at most one of which was not answered. "
        "Two evaluations are the same if the session's kinds, the event, call and fault are.")
ASSUMPTIONS = ["a failed system call has no effect"]
WU = {"put": 6, "badput": 2, "verify": 2, "batch": 2, "lock": 4, "unlock": 4, "list": 3, "junk": 2, "version": 1}
WD = {"get": 6, "batch": 3, "list": 4, "put": 1, "lock": 0.5, "junk": 1, "version": 1}
READ = [errno.EIO, errno.EAGAIN, errno.ECONNRESET, errno.ENOMEM]
WRITE = [errno.EIO, errno.EAGAIN, errno.ENOSPC, errno.ECONNRESET, errno.EPIPE]


def case(ctx, rng, n):
    mode = rng.choice(["upload", "upload", "download"])
    pool = gen.Pool(rng, 3, 3, big=0.1)
    pool.blobs = [b[:rng.choice([50, 3000, 20000])] for b in pool.blobs]
    pool.oids = [model.sha(b) for b in pool.blobs]
    pool.paths = list(dict.fromkeys(p[:60] for p in pool.paths))
    pre = [b for b in pool.blobs if rng.random() < (0.4 if mode == "upload" else 0.8)]
    held = [p for p in pool.paths if rng.random() < 0.5]
    t0 = int(time.time())

    def setup():
        m = model.Model(model.new_repo(ctx))
        m.time_range = lambda: (t0 - 1, int(time.time()) + 1)
        seq.learn_ids(ctx, m, pool)
        model.run_reqs(ctx, m, "upload", [proto.put(model.sha(b), b) for b in pre] + [proto.lock(p) for p in held])
        return m

    argv = [ctx.bin("git-lfs-transfer")]
    evals, keys, f = 0, [], None
    try:
        m = setup()
        probe = clone(m)
        probe.locks = {p: {"id": i} for p, i in probe.ids.items()}
        reqs = [gen.mixed(rng, pool, probe, WU if mode == "upload" else WD) for _ in range(rng.randrange(2, 7))]
        if rng.random() < 0.5:
            # Requests which are refused early, each in its own way.
            early = [gen.bad(proto.FLUSH, "empty request"), gen.bad(proto.DELIM + proto.pkt(b"lock\n") + proto.FLUSH, "delimiter instead of a command"),
                     gen.bad(proto.pkt(b"") + proto.FLUSH, "empty command"), gen.bad(proto.pkt(b"frob\n") + proto.pkt(b"x" * 300) + proto.FLUSH, "unknown command"),
                     gen.bad(proto.pkt(b"version 2\n") + proto.FLUSH, "unknown version")]
            reqs = reqs[:3]
            for r in rng.sample(early, rng.randrange(1, 4)):
                reqs.insert(rng.randrange(len(reqs)), r)
        if mode == "upload" and rng.random() < 0.5:
            # Data which are requests themselves.
            p = rng.choice(pool.paths)
            b = b"".join(proto.lock(p).raw + proto.unlock(m.ids[p]).raw for _ in range(rng.randrange(1, 30)))[:60000]
            reqs.insert(rng.randrange(len(reqs) + 1), proto.put(model.sha(b), b, sizes=(rng.choice([100, 1000, 60000]),)))
        data = b"".join(r.raw for r in reqs)
        dry = mon.go(ctx, os.path.join(m.gitdir, "lfs"), [(argv + [m.gitdir, mode], data)])
        if dry.ends[0] != ("exit", 0):
            raise core.Other("the undisturbed run ended with %r" % (dry.ends[0],))
        _, resps, _ = proto.parse_stream(dry.out[0])
        if len(resps) != len(reqs):
            raise core.Other("%d responses to %d requests" % (len(resps), len(reqs)))
        for r, x in zip(reqs, resps):
            m.check(r, x, mode)
        todo = []
        for e in dry.of(0):
            if e.path == "<0>" and e.name == "read":
                for k in sorted({1, 2, 3, 5, e.ret - 1 if e.ret and e.ret > 1 else 1, rng.randrange(1, max(2, e.ret or 2)), rng.randrange(1, max(2, e.ret or 2))}):
                    x = rng.choice(READ)
                    todo.append([(e.n, "short", k), (e.n + 1, "err", x)])
                    todo.append([(e.n, "short", k), (e.n + 1, "short", rng.choice([1, 2, 4, 10, 50])), (e.n + 2, "err", rng.choice(READ))])
                todo += [[(e.n, "err", x)] for x in READ]
            elif e.path == "<1>":
                todo += [[(e.n, "err", x)] for x in rng.sample(WRITE, 2)]
                if e.len > 1:
                    todo.append([(e.n, "short", rng.randrange(1, e.len)), (e.n + 1, "err", rng.choice(WRITE))])
        at = {e.n: e.path for e in dry.of(0)}
        limit = 300 if ctx.thorough else 30
        some = []
        for p in ("<0>", "<1>"):
            x = [f for f in todo if at[f[0][0]] == p]
            some += rng.sample(x, min(len(x), limit))
        todo = some
        for f in todo:
            kind = one(ctx, setup, t0, mode, reqs, data, argv, f)
            evals += 1
            keys.append((mode, tuple(r.kind for r in reqs), tuple(f)))
            ctx.stats["runs_" + kind] += 1
    except Bad as b:
        b.tags.add("C37")
        model.raise_for(ctx, b, fault=f, mode=mode, requests=[r.brief() for r in reqs])
    except proto.Malformed as e:
        raise core.Other(str(e))
    return {"evaluations": evals, "keys": keys,
            "sample": {"mode": mode, "requests": [r.brief() for r in reqs], "faults_injected": len(todo)}}


def one(ctx, setup, t0, mode, reqs, data, argv, fs):
    m = setup()
    start = clone(m)
    run = mon.go(ctx, os.path.join(m.gitdir, "lfs"), [(argv + [m.gitdir, mode], data)], faults=[(0,) + tuple(f) for f in fs])
    f = fs[-1]
    at = next((e for e in run.events if e.n == f[0]), None)
    info = dict(faults=fs, at=at.brief() if at else None, mode=mode, requests=[r.brief() for r in reqs], end=run.ends[0], stderr=run.err[0][-400:])
    if at is None or not at.path.startswith("<") or f[0] not in run.injected.get(0, []):
        ctx.stats["faults_not_reached"] += 1
        core.rmtree(m.gitdir, ctx.scratch)
        return "not_reached"
    info["calls"] = [e.brief() for e in run.events][-40:]
    c = model.crashed(run.ends[0][1] if run.ends[0][0] == "exit" else -run.ends[0][1], run.err[0])
    if c:
        raise Violation("after the stream failed the server %s" % c, **info)
    try:
        adv, resps, rest = proto.parse_stream(run.out[0], partial_ok=True)
    except proto.Malformed as e:
        raise Violation("after the stream failed the output is malformed: %s" % e, out=run.out[0], **info)
    ended = run.ends[0]
    reading = at.path == "<0>"
    info.update(responses=[x.brief() for x in resps], rest=rest[:3])
    whole = len(resps) == len(reqs) and not rest
    if not whole and ended == ("exit", 0):
        raise Violation("%d of %d requests were answered, and the session ended as if nothing had happened" % (len(resps), len(reqs)), **info)
    if ended[0] != "exit" or len(resps) > len(reqs):
        raise Violation("%d responses to %d requests, and the session ended with %r" % (len(resps), len(reqs), ended), **info)
    # (state, whether a request was already answered with an error for the failure)
    branches = [(start, False)]
    for i, (r, x) in enumerate(zip(reqs, resps)):
        new, why = [], None
        for b, used in branches:
            c = clone(b)
            try:
                c.check(r, x, mode)
                new.append((c, used))
                continue
            except Bad as e:
                why = why or e
            if reading and not used and x.status >= 400 and x.status not in (404, 409):
                new.append((b, True))
        if not new:
            raise Violation("request %d was answered wrongly after the stream failed: %s" % (i, why.msg), **why.detail, **info)
        branches = new[:16]
    final = []
    for b, used in branches:
        final.append(b)
        if len(resps) < len(reqs):
            final += after_failure(b, reqs[len(resps)], t0)[1:]
    settle(ctx, final, reqs, info)
    core.rmtree(m.gitdir, ctx.scratch)
    ctx.stats["answers_followed"] += len(resps)
    ctx.stats["within_input_packets"] += reading and len(fs) > 1
    return ("read_" if reading else "write_") + ("ended" if not whole else "went_on")
