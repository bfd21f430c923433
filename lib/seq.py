"""Random multi-session histories compared with the reference model."""
import hashlib
import os
import time

from . import gen, live, model, proto
from .model import Bad, Model, new_repo, raise_for, run_reqs


def learn_ids(ctx, m, pool):
    """Finds the lock ID of each path of the pool by locking and unlocking it."""
    reqs = [proto.lock(p) for p in dict.fromkeys(pool.paths)]
    run_reqs(ctx, m, "upload", reqs)
    run_reqs(ctx, m, "upload", [proto.unlock(m.ids[r.f["path"]]) for r in reqs])


def history_key(sessions):
    """What happened, without the accidents: kinds and statuses."""
    h = hashlib.blake2b(digest_size=8)
    for mode, reqs, resps in sessions:
        h.update(mode.encode())
        for r, x in zip(reqs, resps):
            h.update(("%s%d," % (r.kind, x.status)).encode())
            if r.kind in ("put", "bad"):
                h.update(str(r.f.get("size")).encode())
    return h.hexdigest()


def seq_case(ctx, rng, weights, modes=("upload", "download"), sessions=(1, 5), requests=(1, 9), big=0.15, huge=0.0,
             store_tags=("C01",), nobj=5, npath=4, locks=False, store_every=True, shape=None):
    """One history; raises Violation, Other, or returns a record for the evidence."""
    g = new_repo(ctx, bare=rng.random() < 0.7)
    m = Model(g)
    pool = gen.Pool(rng, nobj, npath, big, huge)
    done = []
    mode, reqs = None, []
    t0 = int(time.time())
    m.time_range = lambda: (t0 - 1, int(time.time()) + 1)
    try:
        if locks:
            learn_ids(ctx, m, pool)
        for _ in range(rng.randrange(*sessions)):
            mode = rng.choice(modes)
            w = weights[mode] if mode in weights else weights
            reqs = [gen.mixed(rng, pool, m, w) for _ in range(rng.randrange(*requests))]
            if shape:
                reqs = shape(rng, pool, m, mode, reqs)
            before = dict(m.objects)
            p, resps = run_reqs(ctx, m, mode, reqs)
            done.append((mode, reqs, resps))
            if mode == "download" and before != m.objects:
                raise AssertionError("model changed by a download session")
            if store_every:
                m.check_store(set(store_tags))
        if not store_every:
            m.check_store(set(store_tags))
    except Bad as b:
        raise_for(ctx, b, last_session=[mode] + [r.brief() for r in reqs][-15:],
                  last_input=b"".join(r.raw for r in reqs),
                  earlier_sessions=[(a, [(r.brief(), x.status) for r, x in zip(b_, c)]) for a, b_, c in done][-4:])
    ctx.stats["sessions"] += len(done)
    ctx.stats["requests"] += sum(len(r) for _, r, _ in done)
    return {"key": history_key(done), "uploads": sum(1 for _, b, _ in done for r in b if r.kind in ("put", "bad")),
            "sample": [[a, [{"request": r.brief(), "status": x.status} for r, x in zip(b, c)]] for a, b, c in done][:3]}


def by_hand(ctx, rng, m, pool):
    """Changes the store as an administrator, a client or another program does; returns what was done."""
    oid, data = pool.pick()
    p = model.objpath(m.gitdir, oid)
    k = rng.randrange(4)
    if k == 0 and oid in m.objects:
        os.unlink(p)
        del m.objects[oid]
        if rng.random() < 0.5:
            # Tidying up, whoever removes an object may remove the directories which are then empty.
            try:
                os.rmdir(os.path.dirname(p))
                os.rmdir(os.path.dirname(os.path.dirname(p)))
            except OSError:
                pass
            return "removed with its directories", oid
        return "removed", oid
    if k == 1 and oid not in m.objects:
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        os.chmod(p, rng.choice([0o444, 0o644]))
        m.objects[oid] = data
        return "stored", oid
    if k >= 2 and oid in m.objects:
        # The same contents, but kept elsewhere.
        other = os.path.join(ctx.dir("elsewhere"), oid.decode())
        with open(other, "wb") as f:
            f.write(data)
        os.unlink(p)
        if k == 2:
            os.link(other, p)
            return "hardlinked", oid
        os.symlink(other if rng.random() < 0.5 else os.path.relpath(other, os.path.dirname(os.path.realpath(p))), p)
        return "symlinked", oid
    return None


def live_case(ctx, rng, weights, modes=("upload", "download"), store_tags=("C01",), nobj=4, npath=3, big=0.1, locks=False, steps=(6, 30), hands=0.3):
    """Several sessions at once on one store, each request answered before the next one is sent to any of them, and changes by
    other hands in between. Everything must be as if it had been one session."""
    g = new_repo(ctx, bare=rng.random() < 0.7)
    m = Model(g)
    pool = gen.Pool(rng, nobj, npath, big)
    t0 = int(time.time())
    m.time_range = lambda: (t0 - 1, int(time.time()) + 1)
    open_, log, h = [], [], hashlib.blake2b(digest_size=8)
    tags = {"C05", "C06"} | ({"C11"} if locks else {"C01", "C03", "C04"})

    def close(i):
        s, mode, n = open_.pop(i)
        rc = s.finish()
        c = model.crashed(rc, bytes(s.err))
        if c or rc:
            raise Bad(tags, "the session %s" % (c or "ended with status %d" % rc), stderr=bytes(s.err))
        rest = proto.parse_stream(bytes(s.out))
        if len(rest[1]) != n or rest[2]:
            raise Bad({"C05"}, "%d responses to %d requests" % (len(rest[1]), n))
        ctx.stats["live_sessions"] += 1

    try:
        if locks:
            learn_ids(ctx, m, pool)
        for _ in range(rng.randrange(*steps)):
            if not open_ or (len(open_) < 4 and rng.random() < 0.25):
                mode = rng.choice(modes)
                s = live.Live(ctx, [ctx.bin("git-lfs-transfer"), g, mode])
                open_.append([s, mode, 0])
                if not s.settle():
                    raise Bad(tags, "the session ended at once", stderr=bytes(s.err))
                if s.out != b"000eversion=1\n0000":
                    raise Bad({"C05", "C27"}, "the session starts with %r" % bytes(s.out)[:200])
            if rng.random() < 0.05:
                close(rng.randrange(len(open_)))
                continue
            if rng.random() < hands:
                x = by_hand(ctx, rng, m, pool)
                if x:
                    log.append(x)
                    h.update(x[0].encode())
                    ctx.stats["changes_by_hand"] += 1
            i = rng.randrange(len(open_))
            s, mode, n = open_[i]
            r = gen.mixed(rng, pool, m, weights[mode] if mode in weights else weights)
            start = len(s.out)
            s.send(r.raw)
            alive = s.settle()
            new = bytes(s.out[start:])
            try:
                _, resps, rest = proto.parse_stream(b"0000" + new)
            except proto.Malformed as e:
                raise Bad(tags, "malformed output: %s" % e, out=new)
            if len(resps) != 1 or rest or not alive:
                raise Bad(tags, "%d responses to a request%s" % (len(resps), "" if alive else ", and the session ended"), request=r.brief(), stderr=bytes(s.err), out=new[:500])
            open_[i][2] += 1
            log.append(("session %d (%s)" % (id(s) % 997, mode), r.brief(), resps[0].status))
            h.update(("%d%s%s%d," % (i, mode, r.kind, resps[0].status)).encode())
            m.check(r, resps[0], mode)
            ctx.stats["live_requests"] += 1
        while open_:
            close(0)
        m.check_store(set(store_tags))
    except Bad as b:
        raise_for(ctx, b, history=log[-25:])
    finally:
        for x in open_:
            x[0].kill()
    return {"key": ("live", h.hexdigest()), "uploads": 1, "sample": {"live sessions at once": log[:6]}}


def preempt(k, j):
    """A schedule: the first session makes k steps, then the second one j steps, or all, then the first one goes on to its end."""
    return "list\t" + ",".join(["0"] * k + ["1"] * (200 if j is None else j) + ["0"] * 200)
