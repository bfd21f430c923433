"""C28: a failing file operation fails only the request that needed it."""
import errno
import os
import time

from lib import core, faults, gen, model, mon, proto, seq
from lib.core import Violation
from lib.model import Bad
from props.c07 import locks_now

TECHNIQUE = "ptrace fault injection at every call on the store, with the reference model following the rest of the session"
NOTE = ("Every failing or shortened call of the sampled sessions (a weighted sample of them when there are too many) is executed on the real "
        "program. One failure per run, or one from which on all calls of its kind fail.")
LEVEL = "fault_enumeration"
QUICK_S = 35
THOROUGH_S = 900
RULE = ("random sessions of both operations, mixing uploads (valid and not, many packets), verifications, batches, downloads, lock, unlock and "
        "list requests and junk, are recorded under ptrace and repeated once for every call on the store, made to fail (several errors; once, "
        "or from then on for the same kind of call) or fall short, and for every read or write of a stream, interrupted or shortened. Where in "
        "the session the fault fell is known from the output sent before it; that request may be answered with an error (but not one which denies what is stored or locked), every other "
        "one must be answered exactly as the reference model demands, whichever effect the failed one had. Two evaluations are the same if "
        "the session's kinds, the event, call and fault are.")
ASSUMPTIONS = ["a failed system call has no effect"]
WU = {"put": 6, "badput": 2, "verify": 2, "batch": 2, "lock": 4, "unlock": 4, "list": 3, "junk": 1, "version": 1, "get": 0.5}
WD = {"get": 6, "batch": 3, "list": 4, "put": 1, "lock": 0.5, "junk": 1, "version": 1}


class AnyTime:
    """The time of a lock which nobody was told."""

    def __init__(self, lo):
        self.lo, self.got = lo, None

    def __eq__(self, other):
        if isinstance(other, bytes):
            if self.got is None:
                t = model.parse_time(other)
                if t is None or not self.lo - 1 <= t <= time.time() + 1:
                    return False
                self.got = other
            return other == self.got
        return self is other

    def __hash__(self):
        return 0

    def __getitem__(self, x):
        return b"(any time)"


def clone(m):
    c = model.Model(m.gitdir)
    c.objects = dict(m.objects)
    c.locks = {p: dict(a) for p, a in m.locks.items()}
    c.ids, c.paths, c.time_range, c.me = dict(m.ids), dict(m.paths), m.time_range, m.me
    for a in c.locks.values():
        if isinstance(a["locked-at"], AnyTime):
            n = AnyTime(a["locked-at"].lo)
            n.got = a["locked-at"].got
            a["locked-at"] = n
    return c


def after_failure(m, r, t0):
    """What may be stored after a request which was answered with an error because of the fault."""
    out = [m]
    if r.kind == "put" and model.OID.match(r.f["oid"]) and model.sha(r.f["data"]) == r.f["oid"] and r.f["size"] == len(r.f["data"]):
        c = clone(m)
        c.objects[r.f["oid"]] = r.f["data"]
        out.append(c)
    elif r.kind == "lock" and r.f["path"] not in m.locks and r.f["path"] in m.ids:
        c = clone(m)
        p = r.f["path"]
        c.locks[p] = {"id": m.ids[p], "path": p, "locked-at": AnyTime(t0), "ownername": m.me}
        out.append(c)
    elif r.kind == "unlock":
        p = m.paths.get(r.f["id"])
        if p in m.locks:
            c = clone(m)
            del c.locks[p]
            out.append(c)
    return out


def false_claim(m, r, x, f):
    """Whether an error says something about the store which is not so (unless that is what the failing call said)."""
    if f[1] in ("err", "errp") and f[2] in (errno.ENOENT, errno.ENOTDIR, errno.EEXIST):
        return False
    if x.status == 404:
        if r.kind in ("get", "verify"):
            return r.f["oid"] in m.objects
        if r.kind == "unlock":
            return m.paths.get(r.f["id"]) in m.locks
        if r.kind == "list":
            return r.f.get("path") in m.locks
    if x.status == 409:
        if r.kind == "lock":
            return r.f["path"] not in m.locks
        if r.kind == "verify":
            return r.f["oid"] in m.objects and len(m.objects[r.f["oid"]]) == r.f["size"]
    return False


def named(x, me):
    """The response as if the owner's name could be found."""
    y = proto.Response(x.status, x.args, x.delim, x.data, x.end)
    y.args = [b"ownername=" + me + b"\n" if a == b"ownername=unknown\n" else a for a in x.args]
    y.data = [b"%s %s\n" % (d.rsplit(b" ", 1)[0], me) if d.startswith(b"ownername ") and d.endswith(b" unknown\n") else d for d in x.data]
    y.data = [b"%s ours\n" % d.rsplit(b" ", 1)[0] if d.startswith(b"owner ") and d.endswith(b" theirs\n") and y.data != x.data else d
              for d in y.data]
    return y


def lenient(m, r, x, mode):
    """Whether this is an answer which leaves out what could not be looked up."""
    if x.status != 200:
        return False
    if r.kind == "batch":
        want = []
        for oid, size in r.f["items"]:
            have = oid in m.objects
            acts = (b"noop", b"upload") if mode == "upload" else (b"download", b"noop")
            ok = {b"%s %d %s\n" % (oid, size, acts[1])}
            if have:
                ok.add(b"%s %d %s\n" % (oid, len(m.objects[oid]), acts[0]))
            else:
                ok = {b"%s %d %s\n" % (oid, size, acts[1])}
            want.append(ok)
        return len(want) == len(x.data) and all(d in w for d, w in zip(x.data, want))
    if r.kind == "list":
        try:
            items = proto.parse_lock_list(x.data)
            m.check_listed(r, x, items, mode, {"C28"})
        except (Bad, proto.Malformed):
            return False
        return len({i["path"] for i in items}) == len(items)
    return False


def ends_of(out):
    """Where each response ends in the output, the advertisement first."""
    ends, pos = [], 0
    while pos + 4 <= len(out):
        h = out[pos:pos + 4]
        n = int(h, 16)
        if n == 0:
            ends.append(pos + 4)
        pos += max(4, n)
    return ends


def hit_request(run, f, out):
    """The number of the request during which the fault fell; -1 while starting."""
    sent = 0
    for e in run.events:
        if e.n == f[0]:
            break
        if e.path == "<1>" and e.ret and e.ret > 0:
            sent += e.ret
    return sum(1 for x in ends_of(out) if x <= sent) - 1


def case(ctx, rng, n):
    mode = rng.choice(["upload", "upload", "upload", "download"])
    pool = gen.Pool(rng, 3, 3, big=0.1)
    pool.blobs = [b[:rng.choice([50, 3000, 20000])] for b in pool.blobs]
    pool.oids = [model.sha(b) for b in pool.blobs]
    pool.paths = list(dict.fromkeys(p[:60] for p in pool.paths))
    pre = [b for b in pool.blobs if rng.random() < (0.4 if mode == "upload" else 0.8)]
    held = [p for p in pool.paths if rng.random() < 0.5]
    started = rng.random() < 0.9

    def setup():
        m = model.Model(model.new_repo(ctx))
        m.time_range = lambda: (t0 - 1, int(time.time()) + 1)
        if started:
            seq.learn_ids(ctx, m, pool)
            model.run_reqs(ctx, m, "upload", [proto.put(model.sha(b), b) for b in pre] + [proto.lock(p) for p in held])
        return m

    t0 = int(time.time())
    argv = [ctx.bin("git-lfs-transfer")]
    evals, keys, f = 0, [], None
    try:
        m = setup()
        probe = clone(m)
        w = dict(WU if mode == "upload" else WD)
        if not started:
            w.pop("lock")  # its ID would not be known
        probe.locks = {p: {"id": i} for p, i in probe.ids.items()}
        reqs = [gen.mixed(rng, pool, probe, w) for _ in range(rng.randrange(2, 7))]
        if rng.random() < 0.5:
            # Something which shows whether an upload was left in a bad state.
            o, b = pool.pick()
            reqs += [proto.put(o, b, sizes=(rng.choice([7, 100, 1000]),))] if len(b) < 5000 and mode == "upload" else []
            reqs.append(proto.batch([(o, len(b)) for o, b in zip(pool.oids, pool.blobs)]))
        data = b"".join(r.raw for r in reqs)
        dry = mon.go(ctx, os.path.join(m.gitdir, "lfs"), [(argv + [m.gitdir, mode], data)])
        if dry.ends[0] != ("exit", 0):
            raise core.Other("the undisturbed run ended with %r" % (dry.ends[0],))
        _, resps, _ = proto.parse_stream(dry.out[0])
        if len(resps) != len(reqs):
            raise core.Other("%d responses to %d requests" % (len(resps), len(reqs)))
        for r, x in zip(reqs, resps):
            m.check(r, x, mode)
        events = dry.of(0)
        byn = {e.n: e for e in events}
        todo = []
        for k in faults.enumerate_faults(events, kinds=("err", "errp", "short")):
            e = byn[k[0]]
            if not e.path.startswith("<"):
                todo.append(k)
            elif k[1] == "short" or (k[1] == "err" and k[2] == errno.EINTR):
                todo.append(k)
        todo = faults.choose(rng, events, todo, 1200 if ctx.thorough else 120)
        for f in todo:
            one_fault(ctx, setup, t0, mode, reqs, data, argv, f)
            evals += 1
            e = byn[f[0]]
            keys.append((mode, tuple(r.kind for r in reqs), started, e.name, f))
            ctx.stats["fault_%s" % f[1]] += 1
            ctx.stats["at_%s" % (e.name if not e.path.startswith("<") else e.name + e.path)] += 1
    except Bad as b:
        model.raise_for(ctx, b, fault=f, mode=mode, requests=[r.brief() for r in reqs])
    except proto.Malformed as e:
        raise core.Other(str(e))
    return {"evaluations": evals, "keys": keys,
            "sample": {"mode": mode, "requests": [r.brief() for r in reqs], "calls": [e.brief() for e in events][:40],
                       "faults_injected": len(todo)}}


def one_fault(ctx, setup, t0, mode, reqs, data, argv, f):
    m = setup()
    start = clone(m)
    run = mon.go(ctx, os.path.join(m.gitdir, "lfs"), [(argv + [m.gitdir, mode], data)], faults=[(0,) + tuple(f)])
    hit_event = next((e for e in run.events if e.n == f[0]), None)
    info = dict(fault=f, at=hit_event.brief() if hit_event else None, mode=mode, requests=[r.brief() for r in reqs],
                calls=[e.brief() for e in run.events][-60:], end=run.ends[0], stderr=run.err[0][-400:])
    if not run.injected:
        ctx.stats["faults_not_reached"] += 1
    c = model.crashed(run.ends[0][1] if run.ends[0][0] == "exit" else -run.ends[0][1], run.err[0])
    if c:
        raise Violation("after a failing call the server %s" % c, **info)
    try:
        adv, resps, rest = proto.parse_stream(run.out[0], partial_ok=True)
    except proto.Malformed as e:
        raise Violation("after a failing call the output is malformed: %s" % e, out=run.out[0], **info)
    hit = hit_request(run, f, run.out[0])
    transparent = f[1] == "short" or f[2] == errno.EINTR and hit_event is not None and hit_event.name in ("read", "write")
    info.update(hit_request=hit, responses=[x.brief() for x in resps])
    if hit < 0 and not transparent and not adv:
        # The session could not be started.
        if run.ends[0] != ("exit", 2) or run.out[0] or not run.err[0].strip():
            raise Violation("a session which could not be started did not end with an error", out=run.out[0], **info)
        settle(ctx, [start], reqs, info)
        ctx.stats["not_started"] += 1
        return
    persistent = f[1] == "errp"
    cut = hit < len(reqs) and hit >= 0 and reqs[hit].kind == "get" and not transparent and (
        len(resps) == hit or persistent) and run.ends[0] == ("exit", 2)
    if not cut and (len(resps) != len(reqs) or rest or run.ends[0] != ("exit", 0)):
        raise Violation("%d responses to %d requests, and the session ended with %r" % (len(resps), len(reqs), run.ends[0]),
                        rest=rest[:3], **info)
    branches = [start]
    for i, (r, x) in enumerate(zip(reqs, resps)):
        new, why = [], None
        for b in branches:
            c = clone(b)
            at_fault = (i == hit or persistent and i > hit) and not transparent
            try:
                c.check(r, named(x, c.me) if at_fault else x, mode)
                new.append(c)
                continue
            except Bad as e:
                why = why or e
            if at_fault and lenient(b, r, x, mode):
                ctx.stats["left_out"] += 1
                new.append(b)
            elif at_fault and x.status >= 400 and not false_claim(b, r, x, f):
                ctx.stats["requests_failed"] += 1
                new += after_failure(b, r, t0)
        if not new:
            raise Violation("request %d was answered wrongly %s: %s" % (
                i, "although the fault was in request %d" % hit if i != hit else "when a call failed", why.msg), **why.detail, **info)
        branches = new[:64]
    ctx.stats["followed_requests"] += len(resps)
    settle(ctx, branches, reqs, info)
    core.rmtree(m.gitdir, ctx.scratch)


def settle(ctx, branches, reqs, info):
    """Afterwards, what is stored and locked must be what one of the branches says."""
    m = branches[0]
    got = {p.rsplit("/", 1)[-1].encode(): d for p, d in model.scan_objects(m.gitdir).items()}
    try:
        held = {x["path"]: x for x in locks_now(ctx, m, {"C28"})}
    except Bad as b:
        b.tags.add("C28")
        b.detail.update(info)
        raise
    for b in branches:
        if b.objects == got and set(b.locks) == set(held) and all(
                b.locks[p][k] == held[p][k] for p in held for k in ("id", "path", "locked-at", "ownername")):
            return
    raise Violation("what is stored and locked afterwards is not what the responses say", objects=sorted(got), held=sorted(held),
                    possible=[(sorted(b.objects), sorted(b.locks)) for b in branches][:6], **info)
