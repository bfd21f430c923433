"""C14: concurrent uploads and downloads never interfere."""
import os
import subprocess
import time

from lib import core, gen, lin, live, model, mon, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = "controlled scheduling at system-call granularity (ptrace), offline checker of presence and contents over recorded histories"
NOTE = ("Several real server processes run under a scheduler which chooses the order of their system calls on the store; in each recorded "
        "history every object's presence must be monotone in real time and every downloaded byte right. Only sampled schedules are seen; "
        "system calls are taken to be atomic.")
LEVEL = "exploration"
SAME_PID = 0.4  # share of cases in which all sessions have the same process ID
QUICK_S = 45
THOROUGH_S = 900
RULE = ("(in part of the cases with one process ID for all sessions, as in containers) enumerated: each single request against five others, on fresh, used and filled stores, with the other session running completely "
        "(thorough: or for any number of steps) between any two system calls; at random: two to four sessions upload (validly, corruptly or not at all), verify, list and download one or two objects, on fresh or used "
        "stores; a scheduler orders their system calls (in some runs down to single reads and writes), in a share of the runs killing "
        "one of them; uploads which pause at any byte for any time (up to years, by the files' dates) while other sessions work, and then go on; each request is placed between its first and last access to the store. Two runs are the same if the sequence of "
        "calls and outcomes is.")
ASSUMPTIONS = ["sessions interact only through system calls on the store"]


def corrupt(rng, oid, data):
    k = rng.randrange(4)
    if k == 0 and data:
        return proto.put(oid, data[:-1] + bytes([data[-1] ^ 1]), sizes=(rng.choice([3000, 65516]),))
    if k == 1 and data:
        return proto.put(oid, data[:len(data) // 2], size=len(data))
    if k == 2:
        return proto.put(oid, data + b"more", size=len(data))
    return proto.put(oid, b"something else %d" % rng.randrange(99))


def age(gitdir, seconds):
    """Makes what is below the LFS directory look as if nothing had happened for so long."""
    for base, dirs, files in os.walk(os.path.join(gitdir, "lfs")):
        for f in files + dirs:
            t = time.time() - seconds
            os.utime(os.path.join(base, f), (t, t), follow_symlinks=False)


def others(ctx, m, mode, reqs, slow):
    """A session while others are stalled, for which it must not wait."""
    p = subprocess.Popen([ctx.bin("git-lfs-transfer"), m.gitdir, mode], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=ctx.env())
    core.limit_child(p.pid)
    ctx.stats["processes"] += 1
    try:
        out, err = p.communicate(b"".join(r.raw for r in reqs), timeout=8)
    except subprocess.TimeoutExpired:
        asleep = 0
        for _ in range(30):
            with open("/proc/%d/stat" % p.pid) as f:
                asleep += f.read().rsplit(")", 1)[1].split()[0] == "S"
            time.sleep(0.1)
        while slow:
            slow.pop()[0].kill()
        try:
            p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            asleep = 0
        p.kill()
        p.communicate()
        if asleep == 30:
            raise Bad({"C14"}, "a session which had all its input waited until the stalled ones ended", requests=[r.brief() for r in reqs])
        raise core.Inconclusive("a session took too long")
    c = model.crashed(p.returncode, err)
    if c:
        raise Bad({"C14"}, "the server %s" % c, stderr=err[-300:], requests=[r.brief() for r in reqs])
    adv, resps, rest = proto.parse_stream(out)
    model.check_responses(ctx, m, mode, reqs, core.Proc(p.returncode, out, err), adv, resps, rest)


def stalled(ctx, rng):
    """Uploads which stop at any byte for any time while others work, and then go on."""
    m = model.Model(model.new_repo(ctx))
    pool = gen.Pool(rng, 4, 2, big=0.3)
    objs = dict(zip(pool.oids, pool.blobs))
    slow, steps = [], []
    try:
        for _ in range(rng.choice([1, 1, 2, 3])):
            o = rng.choice(pool.oids)
            r = proto.put(o, objs[o], sizes=(rng.choice([100, 3000, 65516]),))
            head = r.raw.index(b"0001") + 4
            cut = rng.choice([len(r.raw) - 4, len(r.raw) - 1, head, rng.randrange(head, len(r.raw)), rng.randrange(head, len(r.raw)),
                              rng.randrange(1, len(r.raw))])
            s = live.Live(ctx, [ctx.bin("git-lfs-transfer"), m.gitdir, "upload"])
            slow.append((s, r, cut))
            s.send(r.raw[:cut])
            s.settle()
            steps.append("stalls at %d of %d" % (cut, len(r.raw)))
        while slow or len(steps) < 4:
            x = rng.random()
            if x < 0.25:
                t = rng.choice([60, 3700, 90000, 32 * 86400, 800 * 86400])
                age(m.gitdir, t)
                steps.append("%d seconds pass" % t)
            elif x < 0.7 or not slow:
                mode = rng.choice(["upload", "upload", "download"])
                reqs = [gen.mixed(rng, pool, m, {"put": 4, "badput": 1, "batch": 1, "verify": 1} if mode == "upload" else {"get": 3, "batch": 1})
                        for _ in range(rng.randrange(1, 4))]
                steps.append((mode, [r.brief() for r in reqs]))
                others(ctx, m, mode, reqs, slow)
            else:
                s, r, cut = slow.pop(rng.randrange(len(slow)))
                steps.append("the upload stalled at %d goes on" % cut)
                s.send(r.raw[cut:])
                s.settle()
                rc = s.finish()
                adv, resps, rest = proto.parse_stream(bytes(s.out))
                if rc != 0 or len(resps) != 1:
                    raise Bad({"C14"}, "an upload which had stalled was not answered", exit=rc, stderr=bytes(s.err)[-300:])
                m.check(r, resps[0], "upload")
        m.check_store({"C14"})
    except Bad as b:
        b.tags.add("C14")
        model.raise_for(ctx, b, steps=steps[-12:])
    finally:
        for s, _, _ in slow:
            s.kill()
    ctx.stats["stalled_uploads"] += sum("stalls" in x for x in steps if isinstance(x, str))
    return {"key": ("stalled", tuple(x.split(" ")[0] if isinstance(x, str) else x[0] for x in steps), m.objects.__len__()),
            "sample": {"steps": steps[:10]}}


ONE = ["put", "flip", "short", "batch", "verify", "get", "batch-down"]
MORE = [["put"], ["flip"], ["short", "put"], ["get"], ["batch", "verify"]]


def jobs(ctx):
    return [(state, a, b) for state in ("fresh", "used", "stored") for a in ONE for b in MORE]


def run_job(ctx, rng, job):
    """One request, with others at each place between its system calls, or from there to each other place."""
    state, a, b = job
    keys, sample = [], None
    d = rng.randbytes(rng.choice([1, 300, 9000]))
    o = model.sha(d)

    def req(k):
        return {"put": lambda: proto.put(o, d), "flip": lambda: proto.put(o, d[:-1] + bytes([d[-1] ^ 1])), "verify": lambda: proto.verify(o, len(d)),
                "short": lambda: proto.put(o, d[:len(d) // 2], size=len(d)), "get": lambda: proto.get(o)}.get(
            k, lambda: proto.batch([(o, len(d))]))()

    modes = ["download" if x in ("get", "batch-down") else "upload" for x in (a, b[0])]
    k = 0
    while k < 200:
        ends, j = False, None
        while True:
            m = model.Model(model.new_repo(ctx))
            try:
                if state != "fresh":
                    model.run_reqs(ctx, m, "upload", [proto.put(o, d)] * (state == "stored") + [proto.version()])
            except Bad as e:
                model.raise_for(ctx, e)
            case, run = judge(ctx, m, {o: d}, [[req(a)], [req(x) for x in b]], modes, seq.preempt(k, j), [], mon.MUT | mon.LOOK, state == "fresh", 1)
            keys.append(case["key"])
            sample = case["sample"]
            ends = ends or run.choices.count(0) < k
            if j is None and ctx.tier != "thorough":
                break
            j = 0 if j is None else j + 1
            if run.choices.count(1) < j:
                break
        if ends:
            break
        k += 1
    ctx.stats["enumerated_schedules"] += len(keys)
    return {"keys": keys, "evaluations": len(keys), "sample": sample}


def case(ctx, rng, n):
    if rng.random() < 0.08:
        return stalled(ctx, rng)
    m = model.Model(model.new_repo(ctx))
    blobs = [rng.randbytes(rng.choice([0, 1, 20, 300, 8192, 9000, 70000])) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    objs = {model.sha(b): b for b in blobs}
    oids = list(objs)
    fresh = rng.random() < 0.3
    try:
        if not fresh:
            pre = [o for o in oids if rng.random() < 0.3]
            model.run_reqs(ctx, m, "upload", [proto.put(o, objs[o]) for o in pre] + [proto.version()])
    except Bad as b:
        model.raise_for(ctx, b)
    nchild = rng.choice([2, 2, 2, 3, 3, 4])
    kids, modes = [], []
    style = rng.randrange(3)
    for c in range(nchild):
        mode = "upload" if (c == 0 or rng.random() < (0.9 if style == 0 else 0.55)) else "download"
        reqs = []
        for _ in range(rng.randrange(1, 5)):
            o = rng.choice(oids)
            d = objs[o]
            k = rng.random()
            if mode == "upload":
                if k < 0.55:
                    reqs.append(proto.put(o, d, sizes=(rng.choice([8192, 32768, 65516]),)))
                elif k < 0.7:
                    reqs.append(corrupt(rng, o, d))
                elif k < 0.85:
                    reqs.append(proto.batch([(x, len(objs[x])) for x in rng.sample(oids, rng.randrange(1, len(oids) + 1))]))
                else:
                    reqs.append(proto.verify(o, len(d)))
            elif k < 0.65:
                reqs.append(proto.get(o))
            else:
                reqs.append(proto.batch([(x, len(objs[x])) for x in rng.sample(oids, rng.randrange(1, len(oids) + 1))]))
        kids.append(reqs)
        modes.append(mode)
    x = rng.random()
    if x < 0.4:
        policy = "random\t%d" % rng.choice([0, 30, 60, 80, 90])
    else:
        policy = "pct\t%d\t%d" % (rng.choice([1, 2, 2, 3, 4, 6]), rng.choice([20, 40, 60]) * nchild)
    hold = mon.MUT | mon.LOOK | (mon.DATA if rng.random() < 0.3 else 0)
    faults = []
    if rng.random() < 0.25:
        faults = [(rng.randrange(nchild), rng.randrange(8, 70), "kill", 0)]
    return judge(ctx, m, objs, kids, modes, policy, faults, hold, fresh, rng.randrange(1, 1 << 30))[0]


def judge(ctx, m, objs, kids, modes, policy, faults, hold, fresh, seed):
    """Runs the sessions and decides what they did. Returns the case and the run."""
    oids = list(objs)
    b = ctx.bin("git-lfs-transfer")
    run = mon.go(ctx, m.gitdir + "/lfs", [([b, m.gitdir, mo], b"".join(r.raw for r in k)) for k, mo in zip(kids, modes)],
                 policy=policy, seed=seed, faults=faults, hold=hold)
    info = dict(policy=policy, faults=faults, sessions=[(mo, [r.brief() for r in k]) for k, mo in zip(kids, modes)],
                stored_before=list(m.objects), fresh=fresh,
                trace=[e.brief() for e in sorted(run.events, key=lambda e: e.released) if e.cls & (mon.MUT | mon.LOOK | mon.STD)][-250:],
                ends=run.ends, stderr={k: v[-300:] for k, v in run.err.items() if v})
    ops = []
    for c, reqs in enumerate(kids):
        try:
            mine = lin.ops_of(run, c, reqs)
        except proto.Malformed as e:
            raise Violation("a session's output is malformed: %s" % e, **info)
        if c not in run.killed and (len(mine) != len(reqs) or run.ends[c] != ("exit", 0)):
            raise Violation("a session ended before answering all requests", child=c, **info)
        ops += mine
    hist = {o: [] for o in oids}

    def add(op, oid, what):
        q = lin.Op(op.child, op.i, op.req, op.resp, op.start, op.end)
        q.what = what
        hist[oid].append(q)

    for op in ops:
        r, x = op.req, op.resp
        if r.kind == "put":
            o = r.f["oid"]
            good = r.f["data"] == objs[o] and r.f["size"] == len(objs[o])
            if x is None:
                if good:
                    add(op, o, "put")
            elif good:
                if not x.ok():
                    raise Violation("a valid upload failed with %d" % x.status, op=op.brief(), **info)
                add(op, o, "put")
            elif x.ok():
                raise Violation("an invalid upload succeeded", op=op.brief(), **info)
        elif x is None:
            continue
        elif r.kind == "get":
            o = r.f["oid"]
            if x.status == 200:
                try:
                    m.check_data(r, x, objs[o])
                except Bad as e:
                    raise Violation(e.msg, op=op.brief(), **info)
                add(op, o, "there")
            elif x.status == 404:
                add(op, o, "absent")
            else:
                raise Violation("a download failed with %d" % x.status, op=op.brief(), **info)
        elif r.kind == "verify":
            if x.status not in (200, 404):
                raise Violation("a verification failed with %d" % x.status, op=op.brief(), **info)
            add(op, r.f["oid"], "there" if x.status == 200 else "absent")
        elif r.kind == "batch":
            if x.status != 200 or len(x.data) != len(r.f["items"]):
                raise Violation("a batch failed with %d" % x.status, op=op.brief(), **info)
            for (o, size), line in zip(r.f["items"], x.data):
                up = modes[op.child] == "upload"
                head = b"%s %d " % (o, size)
                if line == head + (b"noop\n" if up else b"download\n"):
                    add(op, o, "there")
                elif line == head + (b"upload\n" if up else b"noop\n"):
                    add(op, o, "absent")
                else:
                    raise Violation("a batch gives the line %r" % line, op=op.brief(), **info)
    got = model.scan_objects(m.gitdir)
    for rel, data in got.items():
        name = rel.rsplit("/", 1)[-1].encode()
        if name not in objs or rel != "%s/%s/%s" % (rel[:2], name[2:4].decode(), name.decode()) or data != objs[name]:
            raise Violation("the store has a wrong object: %s (%d bytes)" % (rel, len(data)), **info)
    if not run.killed and model.residue(m.gitdir):
        raise Violation("files were left behind: %r" % model.residue(m.gitdir)[:3], **info)
    final = {rel.rsplit("/", 1)[-1].encode() for rel in got}
    for o in oids:
        e = lin.Op(-1, 0, proto.get(o), None, 1 << 61, 1 << 61)
        e.pending, e.what = False, "there" if o in final else "absent"

        def step(state, q):
            if q.what == "put":
                return [True]
            return [state] if state == (q.what == "there") else []

        if not lin.linearize(hist[o] + [e], o in m.objects, step):
            raise Violation("an object was seen and then not seen, or seen although nobody had uploaded it", oid=o, at_the_end=o in final,
                            history=[dict(q.brief(), effect=q.what) for q in sorted(hist[o], key=lambda q: q.start)], **info)
    # And once more through the front door.
    try:
        m.objects = {o: objs[o] for o in oids if o in final}
        model.run_reqs(ctx, m, "download", [proto.batch([(o, len(objs[o])) for o in oids])] + [proto.get(o) for o in oids])
        model.run_reqs(ctx, m, "upload", [proto.put(o, objs[o]) for o in oids])
        m.check_store({"C14"}, clean=not run.killed)
    except Bad as b:
        b.tags.add("C14")
        model.raise_for(ctx, b, **info)
    ctx.stats["operations"] += len(ops)
    ctx.stats["schedule_choices"] += len(run.choices)
    ctx.stats["context_switches"] += sum(1 for a, b in zip(run.choices, run.choices[1:]) if a != b)
    ctx.stats["killed_sessions"] += len(run.killed)
    for q in ops:
        ctx.stats["%s_%s" % (q.req.kind, q.resp.status if q.resp else "pending")] += 1
    ctx.stats["overlapping_pairs"] += sum(1 for h in hist.values() for a in h for b in h
                                          if a.child < b.child and a.start <= b.end and b.start <= a.end)
    case = {"key": run.kind_trace(),
            "sample": {"policy": policy, "operations": [q.brief() for q in ops][:10], "schedule": "".join(map(str, run.choices))[:300]}}
    return case, run
