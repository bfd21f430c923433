"""C02: uploads are all-or-nothing under crashes and I/O errors."""
import os
import shutil
import stat

from lib import core, faults, gen, model, mon, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = 'ptrace fault injection at every system call, with crash-consistency monitor'
NOTE = 'Every kill point, failing call and short transfer of the sampled upload sessions (a weighted sample of them when there are too many) is executed on the real program, then the store is audited and retried. Assumes completed system calls persist.'
LEVEL = "fault_enumeration"
SAME_PID = 0.4  # share of cases in which all sessions have the same process ID
QUICK_S = 40
THOROUGH_S = 900
RULE = ("for random upload sessions (new and stored objects, fresh and used stores, stores with a damaged file or a directory in an object's place, stores with old files of interrupted uploads, several packets, rejected uploads in between), the "
        "run is recorded under ptrace and then repeated once for every event (file-system call below the LFS directory, read of "
        "standard input, write of standard output) with the process killed before it or in the middle of a write, and with the call "
        "failing (several errors, once or from then on) or cut short, and for samples of the failures with a kill at the calls that follow; after each, the store is compared and the uploads are retried. "
        "One evaluation is one injected fault; two are the same if the scenario's shape, event, call and fault are.")
ASSUMPTIONS = ["a killed process's completed system calls persist (no power loss)", "system calls are atomic with respect to the kill"]


def scenario(ctx, rng):
    """What is stored beforehand, and the session's requests."""
    blobs = [rng.randbytes(rng.choice([0, 1, 5, 300, 5000]))]
    if rng.random() < 0.5:
        blobs.append(rng.randbytes(rng.choice([3, 8192, 8193, 20000, 70000])))
    blobs.append(rng.randbytes(40))
    pre = [b for b in blobs if rng.random() < 0.4]
    reqs = []
    for b in blobs:
        o = model.sha(b)
        x = rng.random()
        if x < 0.75:
            reqs.append(proto.put(o, b, sizes=gen.packet_sizes(rng, len(b)) if len(b) > 20 else (7,)))
        elif x < 0.85:
            reqs.append(proto.put(o, b + rng.choice([b"x", b"more" * 20, rng.randbytes(3000)]), size=len(b)))
        else:
            reqs.append(proto.put(o, rng.randbytes(len(b) + 1)[:max(1, len(b))], size=len(b) or 1))
    if rng.random() < 0.3:
        reqs.append(reqs[0])
    # What an earlier accident (a full disk, a crash without fsync, an administrator) may have left at an object's name.
    damage = {}
    if rng.random() < 0.4:
        b = rng.choice(blobs)
        if b not in pre:
            damage[model.sha(b)] = rng.choice(["short", "empty", "other", "long", "dir", "fulldir"])
    return blobs, pre, reqs, damage


def inflict(m, damage, contents):
    """Put the damaged files in place; what each object's file then holds (None: it is a directory)."""
    was = {}
    for o, kind in damage.items():
        p = object_path(m, o)
        d = contents[o]
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if kind.endswith("dir"):
            os.mkdir(p)
            if kind == "fulldir":
                open(os.path.join(p, "x"), "w").close()
            was[o] = None
            continue
        was[o] = {"short": d[:len(d) // 2], "empty": b"", "other": bytes(x ^ 1 for x in d), "long": d + b"more"}[kind]
        if was[o] == d:
            was[o] = d + b"more"
        with open(p, "wb") as f:
            f.write(was[o])
    return was


def object_path(m, o):
    o = o.decode()
    return os.path.join(m.gitdir, "lfs/objects", o[:2], o[2:4], o)


def scan(m, was):
    """The store's files, without the damaged ones that are as they were."""
    out = {}
    for p, d in model.scan_objects(m.gitdir).items():
        parts = [x.encode() for x in p.split("/")]
        o = parts[2] if len(parts) > 2 else None
        if o in was and was[o] is None and len(parts) == 4:
            continue
        if o in was and len(parts) == 3 and d == was[o]:
            continue
        out[p] = d
    return out


def modes_of(gitdir):
    out = {}
    top = os.path.join(gitdir, "lfs", "objects")
    for base, dirs, files in os.walk(top):
        for f in files:
            out[f.encode()] = stat.S_IMODE(os.lstat(os.path.join(base, f)).st_mode)
    return out


def fresh(ctx, pre, started, config=b""):
    g = model.new_repo(ctx)
    m = model.Model(g)
    if config:
        with open(os.path.join(g, "config"), "ab") as f:
            f.write(config)
    if started or pre:
        model.run_reqs(ctx, m, "upload", [proto.put(model.sha(b), b) for b in pre] + [proto.version()])
    return m


# Names which an upload's temporary file may have had when an earlier server was killed.
TEMPORARY = ["lfs/incomplete/%s" + x for x in ("", "abcdefghijkl", "A1b2C3", "-1", ".tmp", ".part")] + ["lfs/tmp/" + x for x in ("%s", ".tmpA1b2C3", "%s.tmp")]


def leave(rng, m, contents, left):
    """What uploads interrupted before, perhaps long ago, have left."""
    for o, name, data, old in left:
        p = os.path.join(m.gitdir, name % o.decode() if "%" in name else name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
        if old:
            core.age(p, rng)


CONFIGS = [b"", b"", b"[core]\n\tsharedRepository = group\n", b"[core]\n\tsharedRepository = 0640\n",
           b"[core]\n\tsharedRepository = all\n"]


def case(ctx, rng, n):
    blobs, pre, reqs, damage = scenario(ctx, rng)
    started = rng.random() < 0.6 or bool(damage)
    config = rng.choice(CONFIGS)
    data = b"".join(r.raw for r in reqs)
    argv = [ctx.bin("git-lfs-transfer")]
    contents = {model.sha(b): b for b in blobs}
    evals, keys = 0, []
    f = None
    left = []
    if started and rng.random() < 0.4:
        for b in rng.sample(blobs, rng.randrange(1, len(blobs) + 1)):
            for name in rng.sample(TEMPORARY, 5):
                left.append((model.sha(b), name, rng.choice([b, b[:len(b) // 2], b + b"more" * 20, rng.randbytes(len(b) + 3000)]), rng.random() < 0.7))
    try:
        # The undisturbed run, for its events and the permissions objects should end up with.
        m = fresh(ctx, pre, started, config)
        inflict(m, damage, contents)
        leave(rng, m, contents, left)
        dry = mon.go(ctx, os.path.join(m.gitdir, "lfs"), [(argv + [m.gitdir, "upload"], data)])
        if dry.ends[0] != ("exit", 0):
            raise core.Other("the undisturbed run ended with %r" % (dry.ends[0],))
        _, resps, _ = proto.parse_stream(dry.out[0])
        for r, x in zip(reqs, resps):
            if damage.get(r.f["oid"], "").endswith("dir"):
                if x.status < 400:
                    raise Bad({"C02"}, "an upload was acknowledged although a directory is in its place", response=x.brief())
                continue
            m.check(r, x, "upload")
        kept = model.scan_objects(m.gitdir)
        for o, d in m.objects.items():
            if kept.get("%s/%s/%s" % (o[:2].decode(), o[2:4].decode(), o.decode())) != d:
                raise Bad({"C02"}, "without any fault an object is stored wrongly", object=o, left_behind=[x[1] for x in left])
        good_modes = modes_of(m.gitdir)
        for o, kind in damage.items():
            if o not in m.objects:
                good_modes.pop(o, None)
        normal = set(good_modes.get(o) for o in m.objects)
        events = dry.of(0)
        todo = faults.enumerate_faults(events)
        limit = 1500 if ctx.thorough else 160
        todo = faults.choose(rng, events, todo, limit)
        byn = {e.n: e for e in events}
        firsts = []
        for f in todo:
            run = one_fault(ctx, rng, argv, pre, started, config, reqs, data, contents, normal, damage, left, [f])
            evals += 1
            faults.note_first(firsts, run, f)
            e = byn[f[0]]
            keys.append((len(reqs), started, tuple(len(b) for b in pre), tuple(damage.values()), len(left), e.name, f[0], f[1], f[2]))
            ctx.stats["fault_%s" % f[1]] += 1
            ctx.stats["at_%s" % (e.name if not e.path.startswith("<") else e.name + e.path)] += 1
        # Whatever the program does about a failure can be interrupted as well.
        for f in faults.second_faults(rng, byn, firsts, 300 if ctx.thorough else 40):
            one_fault(ctx, rng, argv, pre, started, config, reqs, data, contents, normal, damage, left, f)
            evals += 1
            keys.append((len(reqs), started, tuple(len(b) for b in pre), tuple(damage.values()), byn[f[0][0]].name, f[0], f[1]))
            ctx.stats["fault_double"] += 1
    except Bad as b:
        model.raise_for(ctx, b, fault=f, requests=[r.brief() for r in reqs], stored_before=[model.sha(x) for x in pre],
                        damaged_before=damage)
    except proto.Malformed as e:
        raise core.Other(str(e))
    return {"evaluations": evals, "keys": keys,
            "sample": {"requests": [r.brief() for r in reqs], "stored_before": len(pre), "damaged_before": damage, "calls": [e.brief() for e in events][:60],
                       "faults_injected": len(todo)}}


def one_fault(ctx, rng, argv, pre, started, config, reqs, data, contents, normal, damage, left, f):
    m = fresh(ctx, pre, started, config)
    was = inflict(m, damage, contents)
    leave(rng, m, contents, left)
    before_modes = modes_of(m.gitdir)
    run = mon.go(ctx, os.path.join(m.gitdir, "lfs"), [(argv + [m.gitdir, "upload"], data)], faults=[(0,) + tuple(x) for x in f])
    info = dict(fault=f, requests=[r.brief() for r in reqs], damaged_before=damage,
                calls=[e.brief() for e in run.events][-40:], end=run.ends[0],
                stderr=run.err[0][-400:])
    if not run.killed and not run.injected:
        ctx.stats["faults_not_reached"] += 1
    try:
        _, resps, _ = proto.parse_stream(run.out[0], partial_ok=True)
    except proto.Malformed:
        resps = []
    acked = set()
    for r, x in zip(reqs, resps):
        if x.ok():
            o = r.f["oid"]
            if model.sha(r.f["data"]) != o or r.f["size"] != len(r.f["data"]):
                raise Bad({"C01", "C02"}, "an upload whose contents don't match was acknowledged", **info)
            acked.add(o)
    got = scan(m, was)
    modes = modes_of(m.gitdir)
    possible = {r.f["oid"] for r in reqs if model.sha(r.f["data"]) == r.f["oid"] and r.f["size"] == len(r.f["data"])}
    names = {}
    for p, d in got.items():
        name = p.rsplit("/", 1)[-1].encode()
        if p.encode() != b"%s/%s/%s" % (name[:2], name[2:4], name) or name not in contents:
            raise Violation("after the fault there is a file in the object store which is no object: %s" % p, **info)
        if d != contents[name]:
            raise Violation("after the fault an object is incomplete or wrong: %d of %d bytes" % (len(d), len(contents[name])),
                            object=name, **info)
        if name not in possible and name not in m.objects:
            raise Violation("after the fault an object is stored which was never validly uploaded", object=name, **info)
        if normal and modes[name] not in normal | set(before_modes.values()):
            raise Violation("after the fault an object has the permissions %o" % modes[name], object=name, **info)
        names[name] = d
    for o in list(m.objects) + sorted(acked):
        if o not in names:
            raise Violation("an %s object is gone after the fault" % ("earlier" if o in m.objects else "acknowledged"), object=o,
                            **info)
    # Everything still works.
    m.objects = dict(names)
    for o, d in was.items():
        if d is None:
            core.rmtree(object_path(m, o), ctx.scratch)
        elif o not in possible:
            os.unlink(object_path(m, o))
    try:
        valid = [proto.put(o, contents[o]) for o in sorted(contents)]
        for base, _, files in os.walk(os.path.join(m.gitdir, "lfs", "incomplete")):
            # The retry may be much later.
            for name in files:
                if rng.random() < 0.5:
                    core.age(os.path.join(base, name), rng)
        model.run_reqs(ctx, m, "upload", valid + [proto.verify(o, len(contents[o])) for o in sorted(contents)])
        model.run_reqs(ctx, m, "download", [proto.get(o) for o in sorted(contents)] + [proto.batch([(o, 1) for o in sorted(contents)])])
        m.check_store({"C02"}, clean=False)
        bad = {o: "%o" % x for o, x in modes_of(m.gitdir).items() if normal and x not in normal and o in m.objects}
        if bad:
            raise Bad({"C02"}, "after a retry objects have wrong permissions: %r" % bad)
    except Bad as b:
        b.tags.add("C02")
        b.msg = "after a fault and a retry: " + b.msg
        b.detail.update(info)
        raise
    core.rmtree(m.gitdir, ctx.scratch)
    return run
