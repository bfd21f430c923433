"""C08: the session's operation limits what it may do."""
import os
import time

from lib import core, gen, model, mon, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = 'reference-model monitor, store snapshots and system-call monitor'
NOTE = "Explored sessions only; every file's identity and content is compared around download sessions."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 400
RULE = ("download sessions are sent random mixtures of every command (uploads, locks and unlocks with data that would be accepted in "
        "an upload session, junk) over random stores, and the store's files (contents, inode, times, modes) and the process's "
        "mutating system calls (ptrace, a share of the runs) are compared; upload sessions are sent downloads. Refusals must be 403 "
        "and the same whatever the store holds. Histories are the same if they have the same kinds and statuses.")
W = {"put": 5, "badput": 2, "verify": 3, "lock": 4, "unlock": 5, "get": 2, "batch": 1, "list": 2, "junk": 3}
WUP = {"get": 6, "put": 2, "badput": 1, "lock": 1}


OWN = ("lfs", "lfs/objects", "lfs/incomplete", "lfs/tmp", "lfs/locks")


def snapshot(gitdir):
    out = {}
    for base, dirs, files in os.walk(gitdir):
        for d in dirs:
            p = os.path.relpath(os.path.join(base, d), gitdir)
            if p not in OWN:
                out[p] = "directory"
        for f in files:
            p = os.path.join(base, f)
            st = os.lstat(p)
            with open(p, "rb") as fh:
                d = fh.read()
            out[os.path.relpath(p, gitdir)] = (st.st_ino, st.st_mode, st.st_size, st.st_mtime_ns, st.st_nlink, d)
    return out


def mutating(run, gitdir):
    """Successful calls which changed something below the store, other than making its own directories."""
    out = []
    for e in run.events:
        if e.ret is None or e.ret < 0:
            continue
        if e.name in ("mkdir", "mkdirat") and os.path.relpath(os.path.realpath(e.path), os.path.realpath(gitdir)) in OWN:
            continue
        if e.cls == mon.MUT or (e.cls == mon.DATA and e.name in ("write", "pwrite64", "writev", "copy_file_range", "sendfile")
                                and not e.path.startswith("<")):
            out.append(e.brief())
    return out


def leftovers(rng, m):
    """What interrupted sessions, clients and editors left, often long ago."""
    top = os.path.join(m.gitdir, "lfs")
    made = []
    for d, names in (("incomplete", [model.sha(b"left").decode() + "abcdefghijkl", ".hidden", "x.tmp"]), ("tmp", [model.sha(b"tmp").decode(), "x"]),
                     ("locks", [".tmpAbCdEf.lock", model.sha(b"left").decode() + ".lock", "x~"]), ("objects", [".tmpAbCdEf", "x"]), ("logs", ["x"]), ("", ["cache"])):
        for x in names:
            if rng.random() < 0.2:
                os.makedirs(os.path.join(top, d), exist_ok=True)
                p = os.path.join(top, d, x)
                made.append(p)
                with open(p, "wb") as f:
                    f.write(rng.choice([b"", b"left", bytes(5000)]))
                if rng.random() < 0.8:
                    t = time.time() - rng.choice([600, 4000, 100000, 1000000, 10000000, 100000000])
                    os.utime(p, (t, t))
    for base, dirs, files in os.walk(top):
        for x in files + dirs:
            if rng.random() < 0.1:
                t = time.time() - rng.choice([4000, 100000, 10000000])
                os.utime(os.path.join(base, x), (t, t))
    return made


def case(ctx, rng, n):
    m = model.Model(model.new_repo(ctx, bare=rng.random() < 0.7))
    pool = gen.Pool(rng, 4, 3, big=0.1)
    mode = rng.choice(["download", "download", "upload"])
    reqs = []
    try:
        seq.learn_ids(ctx, m, pool)
        # Some of the pool is stored and locked before.
        model.run_reqs(ctx, m, "upload", [proto.put(pool.oids[0], pool.blobs[0]), proto.lock(pool.paths[0])]
                       + [gen.mixed(rng, pool, m, {"put": 1, "lock": 1}) for _ in range(rng.randrange(3))])
        reqs = [gen.mixed(rng, pool, m, W if mode == "download" else WUP) for _ in range(rng.randrange(1, 12))]
        # The same refused request about something stored and something that isn't.
        have, lack = pool.oids[0], model.sha(rng.randbytes(8))
        size = len(pool.blobs[0])
        if mode == "download":
            f = rng.choice([lambda o: proto.verify(o, size), lambda o: proto.put(o, pool.blobs[0])])
        else:
            f = proto.get
        pair = [f(have), f(lack)]
        at = len(reqs)
        reqs += pair
        old = leftovers(rng, m)
        before = snapshot(m.gitdir) if mode == "download" else None
        if mode == "download" and rng.random() < 0.3:
            data = b"".join(r.raw for r in reqs)
            run = mon.go(ctx, os.path.join(m.gitdir), [([ctx.bin("git-lfs-transfer"), m.gitdir, mode], data)])
            p = core.Proc(run.ends[0][1] if run.ends[0][0] == "exit" else -run.ends[0][1], run.out[0], run.err[0])
            bad = mutating(run, m.gitdir)
            if bad:
                raise Bad({"C08"}, "a download session made changes: %s" % bad[:3])
            ctx.stats["sessions_watched_by_ptrace"] += 1
            c = model.crashed(p.rc, p.err)
            if c:
                raise Bad({"C06"}, "the server %s" % c)
            try:
                adv, resps, rest = proto.parse_stream(p.out)
            except proto.Malformed as e:
                raise Bad({"C06"}, str(e))
            model.check_responses(ctx, m, mode, reqs, p, adv, resps, rest)
        else:
            p, resps = model.run_reqs(ctx, m, mode, reqs)
        a, b = resps[at], resps[at + 1]
        if (a.status, a.args, a.data) != (b.status, b.args, b.data):
            raise Bad({"C08"}, "a refusal tells whether the object is stored", first=a.brief(), second=b.brief())
        if mode == "download":
            after = snapshot(m.gitdir)
            for f in sorted(set(before) | set(after)):
                if before.get(f) != after.get(f):
                    raise Bad({"C08"}, "a download session %s %s" % (
                        "created" if f not in before else "removed" if f not in after else "changed", f))
        else:
            for r, x in zip(reqs, resps):
                if r.kind == "get" and len(x.body) > 200:
                    raise Bad({"C08"}, "a refused download has %d bytes of data" % len(x.body))
        for p in old:
            if os.path.exists(p):
                os.unlink(p)
        m.check_store({"C08", "C01"})
    except Bad as b:
        model.raise_for(ctx, b, mode=mode, requests=[r.brief() for r in reqs])
    ctx.stats["sessions_" + mode] += 1
    return {"key": seq.history_key([(mode, reqs, resps)]),
            "sample": {"mode": mode, "requests": [(r.brief(), x.status) for r, x in zip(reqs, resps)]}}
