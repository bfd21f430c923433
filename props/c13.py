"""C13: interrupted locking or unlocking never wedges or corrupts locks."""
import os
import time

from lib import core, faults, gen, model, mon, proto, seq
from lib.core import Violation
from lib.model import Bad
from props.c07 import locks_now

TECHNIQUE = 'ptrace fault injection at every system call, with lock-state monitor'
NOTE = 'Every kill point, failing call and short transfer of the sampled lock sessions (a weighted sample when there are too many) is executed on the real program; then locks are audited and every path exercised.'
LEVEL = "fault_enumeration"
SAME_PID = 0.4  # share of cases in which all sessions have the same process ID
QUICK_S = 40
THOROUGH_S = 900
RULE = ("(in part of the cases with one process ID for all sessions, as in containers) for random sessions of lock, unlock and list requests over a few paths, the run is recorded under ptrace and repeated once for "
        "every event with the process killed before it or in the middle of a write, and with the call failing (several errors, once or "
        "from then on) or cut short, and for samples of the failures with a kill at the calls that follow; afterwards a fresh session must list exactly a set of locks that the acknowledged requests allow, "
        "with complete and unchanged attributes, and every path must be lockable and unlockable. One evaluation is one injected fault; "
        "two are the same if the scenario's shape, event, call and fault are.")
ASSUMPTIONS = ["a killed process's completed system calls persist (no power loss)", "system calls are atomic with respect to the kill"]
ATTRS = ("id", "path", "locked-at", "ownername")


def step(states, r, x, ids):
    """The states (sets of held paths) possible after a request and its response (or None)."""
    out = set()
    for s in states:
        if r.kind == "lock":
            p = r.f["path"]
            if x is None or x.status >= 500 or x.status in (400, 403):
                out |= {s, s | {p}}
            elif x.status == 201:
                if p not in s:
                    out.add(s | {p})
            elif x.status == 409:
                if p in s:
                    out.add(s)
        elif r.kind == "unlock":
            p = ids.get(r.f["id"])
            if p is None:
                out.add(s)
            elif x is None or x.status >= 500 or x.status in (400, 403):
                out |= {s, s - {p}}
            elif x.status == 200:
                if p in s:
                    out.add(s - {p})
            elif x.status == 404:
                if p not in s:
                    out.add(s)
        else:
            out.add(s)
    return out


def setup(ctx, pool, pre):
    m = model.Model(model.new_repo(ctx))
    seq.learn_ids(ctx, m, pool)
    model.run_reqs(ctx, m, "upload", [proto.lock(p) for p in pre] + [proto.version()])
    return m


def case(ctx, rng, n):
    pool = gen.Pool(rng, 1, rng.randrange(1, 4), big=0)
    pool.paths = list(dict.fromkeys(p[:60] for p in pool.paths))
    pre = [p for p in pool.paths if rng.random() < 0.5] + [b"untouched"]
    evals, keys, f = 0, [], None
    try:
        m = setup(ctx, pool, pre)
        reqs = []
        for _ in range(rng.randrange(1, 5)):
            p = rng.choice(pool.paths)
            reqs.append(rng.choice([proto.lock(p), proto.lock(p), proto.unlock(m.ids[p]), proto.unlock(m.ids[p]),
                                    proto.list_lock(path=p), proto.list_lock()]))
        if not any(r.kind in ("lock", "unlock") for r in reqs):
            reqs.append(proto.lock(pool.paths[0]))
        data = b"".join(r.raw for r in reqs)
        argv = [ctx.bin("git-lfs-transfer")]
        dry = mon.go(ctx, os.path.join(m.gitdir, "lfs"), [(argv + [m.gitdir, "upload"], data)])
        if dry.ends[0] != ("exit", 0):
            raise core.Other("the undisturbed run ended with %r" % (dry.ends[0],))
        _, resps, _ = proto.parse_stream(dry.out[0])
        for r, x in zip(reqs, resps):
            m.check(r, x, "upload")
        events = dry.of(0)
        byn = {e.n: e for e in events}
        todo = faults.enumerate_faults(events)
        limit = 1500 if ctx.thorough else 160
        todo = faults.choose(rng, events, todo, limit)
        firsts = []
        for f in todo:
            run = one_fault(ctx, pool, pre, reqs, data, argv, [f])
            evals += 1
            faults.note_first(firsts, run, f)
            e = byn[f[0]]
            keys.append((tuple(r.kind for r in reqs), len(pre), e.name, f))
            ctx.stats["fault_%s" % f[1]] += 1
            ctx.stats["at_%s" % (e.name if not e.path.startswith("<") else e.name + e.path)] += 1
        # Whatever the program does about a failure can be interrupted as well.
        for f in faults.second_faults(rng, byn, firsts, 300 if ctx.thorough else 40):
            one_fault(ctx, pool, pre, reqs, data, argv, f)
            evals += 1
            keys.append((tuple(r.kind for r in reqs), len(pre), byn[f[0][0]].name, f))
            ctx.stats["fault_double"] += 1
    except Bad as b:
        model.raise_for(ctx, b, fault=f, held_before=pre)
    except proto.Malformed as e:
        raise core.Other(str(e))
    return {"evaluations": evals, "keys": keys,
            "sample": {"requests": [r.brief() for r in reqs], "held_before": pre, "calls": [e.brief() for e in events][:40],
                       "faults_injected": len(todo)}}


def one_fault(ctx, pool, pre, reqs, data, argv, f):
    t0 = int(time.time())
    m = setup(ctx, pool, pre)
    run = mon.go(ctx, os.path.join(m.gitdir, "lfs"), [(argv + [m.gitdir, "upload"], data)], faults=[(0,) + tuple(x) for x in f])
    info = dict(fault=f, requests=[r.brief() for r in reqs], held_before=pre, calls=[e.brief() for e in run.events][-50:],
                end=run.ends[0], stderr=run.err[0][-400:])
    if not run.killed and not run.injected:
        ctx.stats["faults_not_reached"] += 1
    try:
        _, resps, _ = proto.parse_stream(run.out[0], partial_ok=True)
    except proto.Malformed:
        resps = []
    info["responses"] = [x.brief() for x in resps]
    ids = {v: k for k, v in m.ids.items()}
    states = {frozenset(m.locks)}
    attrs = {p: dict(a) for p, a in m.locks.items()}  # what is known of each held lock
    for i, r in enumerate(reqs):
        x = resps[i] if i < len(resps) else None
        before = states
        states = step(states, r, x, ids)
        if not states:
            raise Violation("the response to request %d contradicts the earlier ones" % i, **info)
        if r.kind == "unlock" and x is not None and x.status == 200:
            attrs.pop(ids.get(r.f["id"]), None)
        elif r.kind == "lock":
            p = r.f["path"]
            if x is not None and x.status == 201:
                attrs[p] = m.lock_args(r, x)
            elif x is not None and x.status == 409:
                got = m.lock_args(r, x)
                # The owner is found by a call of its own, which may have been the one that failed.
                if p in attrs and any(got[k] != attrs[p][k] for k in ATTRS
                                      if k != "ownername" or b"unknown" not in (got[k], attrs[p][k])):
                    raise Violation("a conflict reports other attributes than the lock has", got=got, want=attrs[p], **info)
            elif not all(p in s for s in before):
                # It may have been acquired now, at a time which isn't known.
                attrs.pop(p, None)
    try:
        held = locks_now(ctx, m, {"C13"})
        names = [x["path"] for x in held]
        if len(set(names)) != len(names):
            raise Bad({"C13"}, "a lock is listed twice")
        if frozenset(names) not in states:
            raise Bad({"C13"}, "the locks held after the fault are not what the responses allow", held=names,
                      possible=[sorted(s) for s in states])
        now = int(time.time())
        for x in held:
            p = x["path"]
            if x["id"] != m.ids.get(p) or x["ownername"] != m.me:
                raise Bad({"C13"}, "a lock has wrong attributes after the fault", lock=x)
            known = attrs.get(p)
            t = model.parse_time(x["locked-at"])
            if t is None or not t0 - 1 <= t <= now + 1:
                raise Bad({"C13"}, "a lock has a wrong time after the fault", lock=x)
            if known and known["locked-at"] != x["locked-at"]:
                raise Bad({"C13"}, "a lock's time changed in the fault", lock=x, known=known)
        # Every path can still be locked and unlocked.
        m.locks = {x["path"]: {k: x[k] for k in ATTRS} for x in held}
        work = []
        for p in dict.fromkeys(pool.paths + [b"untouched"]):
            work += [proto.lock(p), proto.list_lock(path=p), proto.unlock(m.ids[p]), proto.unlock(m.ids[p]), proto.lock(p),
                     proto.lock(p)]
        model.run_reqs(ctx, m, "upload", work + [proto.list_lock()])
        model.run_reqs(ctx, m, "upload", [proto.unlock(a["id"]) for a in list(m.locks.values())] + [proto.list_lock()])
    except Bad as b:
        b.tags.add("C13")
        b.msg = "after the fault: " + b.msg
        b.detail.update(info)
        raise
    core.rmtree(m.gitdir, ctx.scratch)
    return run
