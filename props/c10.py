"""C10: at most one holder per locked path, under every interleaving."""
import struct

from lib import gen, lin, model, mon, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = "controlled scheduling at system-call granularity (ptrace), linearizability checker over recorded histories"
NOTE = ("Several real server processes run under a scheduler which chooses the order of their system calls on the store; each recorded "
        "history is decided by a linearizability search against a one-lock specification. Only sampled schedules are seen; system "
        "calls are taken to be atomic.")
LEVEL = "exploration"
SAME_PID = 0.4  # share of cases in which all sessions have the same process ID
QUICK_S = 45
THOROUGH_S = 900
RULE = ("enumerated: each single request against four others, on a free or held path, with the other session running completely (thorough: or for any "
        "number of steps) between any two system calls; at random: two to four sessions each send a few lock, unlock and list requests on one or two paths; a scheduler (random, sticky or by "
        "priorities with few changes) orders their system calls, in a share of the runs killing one of them; each request is placed "
        "between its first and last access to the store and the history of each path must be linearizable. Two runs are the same if "
        "the sequence of calls and their outcomes is.")
ASSUMPTIONS = ["sessions interact only through system calls on the store", "times of locks are made unique through clock_gettime (LD_PRELOAD)"]
ATTRS = ("id", "path", "locked-at", "ownername")


def same(a, b):
    return all(a[k] == b[k] for k in ATTRS if k != "ownername" or b"unknown" not in (a[k], b[k]))


ONE = ["lock", "unlock", "list", "all"]
MORE = [["lock"], ["unlock"], ["unlock", "lock"], ["lock", "unlock"]]


def jobs(ctx):
    return [(held, a, b) for held in (False, True) for a in ONE for b in MORE]


def run_job(ctx, rng, job):
    """One request, with others at each place between its system calls, or from there to each other place."""
    held, a, b = job
    keys, sample = [], None
    p = gen.path(rng)[:200]

    def req(m, k):
        return {"lock": lambda: proto.lock(p), "unlock": lambda: proto.unlock(m.ids[p]), "list": lambda: proto.list_lock(path=p),
                "all": proto.list_lock}[k]()

    k = 0
    while k < 200:
        ends, j = False, None
        while True:
            m, pool, env = begin(ctx, rng, [p], [p] * held)
            case, run = judge(ctx, m, pool, [[req(m, a)], [req(m, x) for x in b]], seq.preempt(k, j), [], env)
            keys.append(case["key"])
            sample = case["sample"]
            ends = ends or run.choices.count(0) < k
            if j is None and ctx.tier != "thorough":
                break
            j = 0 if j is None else j + 1
            if run.choices.count(1) < j:
                break
        if ends:
            break
        k += 1
    ctx.stats["enumerated_schedules"] += len(keys)
    return {"keys": keys, "evaluations": len(keys), "sample": sample}


def begin(ctx, rng, paths, pre):
    """A store with some locks held."""
    clock = ctx.dir("clock") + "/clock"
    with open(clock, "wb") as f:
        f.write(struct.pack("qq", 1000000, 1))
    env = ctx.env(LD_PRELOAD=ctx.clockshim, CLOCKSHIM_FILE=clock)
    m = model.Model(model.new_repo(ctx))
    pool = gen.Pool(rng, 1, 1, big=0)
    pool.paths = list(paths)
    try:
        seq.learn_ids(ctx, m, pool)
        model.run_reqs(ctx, m, "upload", [proto.lock(p) for p in pre] + [proto.version()], env=env)
    except Bad as b:
        model.raise_for(ctx, b)
    return m, pool, env


def case(ctx, rng, n):
    clock = ctx.dir("clock") + "/clock"
    with open(clock, "wb") as f:
        f.write(struct.pack("qq", 1000000, 1))
    env = ctx.env(LD_PRELOAD=ctx.clockshim, CLOCKSHIM_FILE=clock)
    m = model.Model(model.new_repo(ctx))
    pool = gen.Pool(rng, 1, rng.choice([1, 1, 1, 2]), big=0)
    pool.paths = list(dict.fromkeys(p[:200] for p in pool.paths))
    fresh = rng.random() < 0.05
    nchild = rng.choice([2, 2, 2, 3, 3, 4])
    try:
        if fresh:
            # IDs from another store: an ID depends only on the path.
            other = model.Model(model.new_repo(ctx))
            seq.learn_ids(ctx, other, pool)
            m.ids, m.paths = other.ids, other.paths
        else:
            seq.learn_ids(ctx, m, pool)
            pre = [p for p in pool.paths if rng.random() < 0.5]
            model.run_reqs(ctx, m, "upload", [proto.lock(p) for p in pre] + [proto.version()], env=env)
    except Bad as b:
        model.raise_for(ctx, b)
    kids = []
    style = rng.randrange(4)
    for c in range(nchild):
        reqs = []
        for _ in range(rng.randrange(1, 5)):
            p = rng.choice(pool.paths)
            lock, unlock, lk, la = proto.lock(p), proto.unlock(m.ids[p]), proto.list_lock(path=p), proto.list_lock(
                limit=rng.choice([None, None, 50]))
            if style == 0:
                reqs.append(rng.choice([lock, unlock]))
            elif style == 1:
                reqs.append(rng.choice([lock, lock, lk] if c % 2 else [unlock, lock, unlock]))
            else:
                reqs.append(rng.choice([lock, lock, lock, unlock, unlock, lk, la]))
        kids.append(reqs)
    x = rng.random()
    if x < 0.35:
        policy = "random\t%d" % rng.choice([0, 30, 60, 80])
    elif x < 0.5:
        policy = "random\t%d" % rng.choice([90, 95])
    else:
        policy = "pct\t%d\t%d" % (rng.choice([1, 2, 2, 3, 4, 6]), rng.choice([20, 40, 60]) * nchild)
    faults = []
    if rng.random() < 0.2:
        faults = [(rng.randrange(nchild), rng.randrange(8, 60), "kill", 0)]
    return judge(ctx, m, pool, kids, policy, faults, env, rng.randrange(1, 1 << 30))[0]


def judge(ctx, m, pool, kids, policy, faults, env, seed=1):
    """Runs the sessions and decides what they did. Returns the case and the run."""
    argv = [ctx.bin("git-lfs-transfer"), m.gitdir, "upload"]
    run = mon.go(ctx, m.gitdir + "/lfs", [(argv, b"".join(r.raw for r in k)) for k in kids], policy=policy,
                 seed=seed, faults=faults, env=env)
    info = dict(policy=policy, faults=faults, sessions=[[r.brief() for r in k] for k in kids], held_before=list(m.locks),
                trace=[e.brief() for e in sorted(run.events, key=lambda e: e.released) if e.cls & (mon.MUT | mon.LOOK | mon.STD)][-250:],
                ends=run.ends, stderr={k: v[-300:] for k, v in run.err.items() if v})
    ops = []
    for c, reqs in enumerate(kids):
        try:
            mine = lin.ops_of(run, c, reqs)
        except proto.Malformed as e:
            raise Violation("a session's output is malformed: %s" % e, **info)
        if c not in run.killed and (len(mine) != len(reqs) or run.ends[c] != ("exit", 0)):
            raise Violation("a session ended before answering all requests", child=c, **info)
        ops += mine
    # What everyone finds afterwards.
    final = {}
    try:
        from props.c07 import locks_now
        for y in locks_now(ctx, m, {"C10"}):
            final[y["path"]] = y
    except Bad as b:
        raise Violation("after the run: " + b.msg, **{**b.detail, **info})
    except proto.Malformed as e:
        raise Violation("after the run: %s" % e, **info)
    check(ctx, m, pool, ops, final, info)
    ctx.stats["operations"] += len(ops)
    ctx.stats["schedule_choices"] += len(run.choices)
    ctx.stats["context_switches"] += sum(1 for a, b in zip(run.choices, run.choices[1:]) if a != b)
    ctx.stats["killed_sessions"] += len(run.killed)
    for o in ops:
        ctx.stats["%s_%s" % (o.req.kind, o.resp.status if o.resp else "pending")] += 1
    ctx.stats["overlapping_pairs"] += sum(1 for a in ops for b in ops if a.child < b.child and a.start <= b.end and b.start <= a.end)
    case = {"key": run.kind_trace(),
            "sample": {"policy": policy, "operations": [o.brief() for o in ops][:12], "schedule": "".join(map(str, run.choices))[:300]}}
    return case, run


def check(ctx, m, pool, ops, final, info):
    paths = {v: k for k, v in m.ids.items()}
    acked = {p: [m.locks[p]] if p in m.locks else [] for p in m.ids}
    for o in ops:
        if o.req.kind == "lock" and o.resp and o.resp.status == 201:
            acked[o.req.f["path"]].append(args(m, o, info))
    for p in m.ids:
        for a in acked[p]:
            if a["path"] != p or a["id"] != m.ids[p]:
                raise Violation("a lock has another path or ID", lock=a, **info)
        # A lock whose request was never answered.
        ghost = any(o.pending and o.req.kind == "lock" and o.req.f["path"] == p for o in ops)

        def resolve(got):
            """The state in which this lock is held."""
            for k, a in enumerate(acked[p]):
                if same(a, got):
                    return k
            if ghost and got["id"] == m.ids[p] and got["path"] == p:
                return got["locked-at"]
            return None

        hist = []
        for o in ops:
            k, x = o.req.kind, o.resp
            if k == "lock" and o.req.f["path"] == p:
                if x is None:
                    o.what, o.arg = "lock?", None
                elif x.status == 201:
                    o.what, o.arg = "lock", next(i for i, a in enumerate(acked[p]) if a["locked-at"] == args(m, o, info)["locked-at"])
                elif x.status == 409:
                    o.what, o.arg = "held", resolve(args(m, o, info))
                    if o.arg is None:
                        raise Violation("a conflict reports a lock which never existed", op=o.brief(), locks=acked[p], **info)
                else:
                    o.what = "failed"
            elif k == "unlock" and paths.get(o.req.f["id"]) == p:
                if x is None:
                    o.what = "unlock?"
                elif x.status == 200:
                    o.what = "unlock"
                    if resolve(args(m, o, info)) is None:
                        raise Violation("an unlock reports a lock which never existed", op=o.brief(), locks=acked[p], **info)
                elif x.status == 404:
                    o.what = "free"
                else:
                    o.what = "failed"
            elif k == "list" and x is not None and o.req.f["path"] in (None, p):
                got = []
                if x.status == 200:
                    try:
                        got = [y for y in proto.parse_lock_list(x.data) if y["path"] == p]
                    except proto.Malformed as e:
                        raise Violation("a listing is malformed: %s" % e, op=o.brief(), **info)
                elif x.status != 404 or o.req.f["path"] is None:
                    raise Violation("a listing failed", op=o.brief(), **info)
                if len(got) > 1:
                    raise Violation("a lock is listed twice", op=o.brief(), **info)
                if got:
                    o.what, o.arg = "held", resolve(got[0])
                    if o.arg is None:
                        raise Violation("a listing reports a lock which never existed", op=o.brief(), locks=acked[p], **info)
                else:
                    o.what = "free"
            else:
                continue
            hist.append(clone(o))
        for o in hist:
            if o.what == "failed" and not any(q is not o and q.child != o.child and q.start <= o.end and o.start <= q.end
                                              and q.what in ("lock", "unlock", "lock?", "unlock?") for q in hist):
                raise Violation("a request failed though nothing else happened at the same time", op=o.brief(), **info)
        e = lin.Op(-1, 0, proto.list_lock(path=p), None, 1 << 61, 1 << 61)
        e.pending = False
        if p in final:
            e.what, e.arg = "held", resolve(final[p])
            if e.arg is None:
                raise Violation("afterwards a lock is held which never existed", lock=final[p], locks=acked[p], **info)
        else:
            e.what = "free"
        init = 0 if p in m.locks else None
        names = sorted({o.arg for o in hist + [e] if isinstance(o.arg, bytes)})

        def step(state, o):
            w = o.what
            if w == "lock":
                return [o.arg] if state is None else []
            if w == "held":
                return [state] if state == o.arg or state == "?" else []
            if w in ("unlock",):
                return [None] if state is not None else []
            if w == "free":
                return [None] if state is None else []
            if w == "failed":
                return [state]
            if w == "lock?":
                return names + ["?"] if state is None else []
            if w == "unlock?":
                return [None] if state is not None else []
            raise AssertionError(w)

        if not lin.linearize(hist + [e], init, step):
            raise Violation("the requests on a path can't have been executed one at a time", path=p, final=final.get(p),
                            history=[dict(o.brief(), effect=[o.what, o.arg]) for o in sorted(hist, key=lambda o: o.start)], **info)


def clone(o):
    c = lin.Op(o.child, o.i, o.req, o.resp, o.start, o.end)
    c.what, c.arg, c.pending = o.what, o.arg, o.pending
    o.what = o.arg = None
    return c


def args(m, o, info):
    try:
        return m.lock_args(o.req, o.resp)
    except (Bad, proto.Malformed) as e:
        raise Violation("a response is malformed: %s" % e, op=o.brief(), **info)
