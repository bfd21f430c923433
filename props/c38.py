"""C38: a store keeps its format, so that what other versions wrote, or a backup brings back, stays valid."""
import datetime
import os
import random
import shutil

from lib import core, gen, model, proto, seq

TECHNIQUE = "reference-model monitor over histories which start from stores written by an independent implementation of the format, with the files decoded again after each session"
NOTE = "The format is that of the pinned version: objects by their hash, locks named by the hash of their path, with version, time and path inside. Objects which are packed or compressed don't exist."
LEVEL = "exploration"
QUICK_S = 20
THOROUGH_S = 600
AS_ROOT = True  # to leave locks of other users; the server itself never runs as root
RULE = ("random histories of sessions on stores whose objects and locks (of paths of any bytes, of users with names and without, of times from year 1 to 9999) were written by hand; between sessions more of them come and go, "
        "and the store is moved, copied with and without its file times, or restored from a backup of earlier. Every response is compared with the "
        "reference model, and after each session every file must hold exactly what its format says. Distinct by what was prepared, operations and statuses.")
ASSUMPTIONS = ["file owners are kept when a store is copied, because they are part of the format"]
W = {"put": 4, "badput": 1, "get": 2, "verify": 3, "batch": 3, "lock": 5, "unlock": 4, "list": 4, "junk": 1}
WD = {"get": 6, "verify": 2, "batch": 4, "list": 4, "junk": 1}
UIDS = [1, 2, 5, 13, 65534, 12345, 70001, 4000000000]
TIMES = [0, 1, -1, 59, 951782399, 951782400, 1000000000, 1000684800, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 33) + 7, -(1 << 31), -62135596800, 253402300799, 4102444799, -86401]
FOREIGN = [("tmp/abc", b"q"), ("cache/locks/refs/heads/main/verifiable", b"{}"), ("lockcache.db", b"{}"), ("logs/20200101.log", b"log"), ("bad/x", b""), ("README", b"hi")]


class Stored(model.Model):
    """The model which takes a time for what it means."""

    @staticmethod
    def same(attrs):
        t = model.parse_time(attrs["locked-at"])
        return attrs if t is None else dict(attrs, **{"locked-at": iso(t)})

    def lock_args(self, req, resp):
        return self.same(super().lock_args(req, resp))

    def check_listed(self, req, resp, items, mode, tags):
        super().check_listed(req, resp, [self.same(x) for x in items], mode, tags)

    def c_lock(self, req, resp, mode):
        if mode == "upload" and resp.status == 201 and req.f["path"] not in self.locks:
            got, want = self.lock_args(req, resp)["id"], lock_id(req.f["path"])
            if got != want:
                self.bad({"C38"}, "a new lock has the ID %r, but its path has always had %r" % (got, want), req, resp)
        super().c_lock(req, resp, mode)


def iso(t):
    return (datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=t)).isoformat().encode()


def lock_id(path):
    return model.sha(b"v1:" + path)


def write(path, data, uid, rng, mode=None):
    with open(path, "wb") as f:
        f.write(data)
    os.chmod(path, rng.choice([0o644, 0o664, 0o666, 0o444]) if mode is None else mode)
    os.chown(path, uid, uid)


def put_lock(m, rng, path, t, uid):
    i = lock_id(path)
    write(os.path.join(m.gitdir, "lfs/locks", i.decode()), b"v1:%d:" % t + path, uid, rng)
    m.ids[path], m.paths[i] = i, path
    m.locks[path] = {"id": i, "path": path, "locked-at": iso(t), "ownername": model.username(uid)}


def put_object(m, rng, oid, data, uid):
    p = model.objpath(m.gitdir, oid)
    d = os.path.dirname(p)
    for x in (os.path.dirname(d), d):
        if not os.path.isdir(x):
            os.mkdir(x)
            os.chmod(x, 0o777)
    write(p, data, uid, rng)
    m.objects[oid] = data


def decode(m):
    """Compares the files with the model."""
    m.check_store({"C38"}, clean=not os.path.exists(os.path.join(m.gitdir, "lfs/tmp/abc")))
    top = os.path.join(m.gitdir, "lfs/locks")
    have = {f for f in os.listdir(top) if len(f) == 64 and not os.path.isdir(os.path.join(top, f))} if os.path.isdir(top) else set()
    want = {lock_id(p).decode(): p for p in m.locks}
    for f in sorted(have - set(want)):
        raise model.Bad({"C38"}, "lfs/locks has %s, which is no lock that is held" % f)
    for f, path in want.items():
        if f not in have:
            raise model.Bad({"C38"}, "the lock of %r is not stored where it has always been: lfs/locks/%s" % (path[:100], f))
        with open(os.path.join(top, f), "rb") as h:
            got = h.read()
        t = model.parse_time(m.locks[path]["locked-at"])
        if got != b"v1:%d:" % t + path:
            raise model.Bad({"C38"}, "the lock of %r, of time %d, is stored as %r" % (path[:100], t, got[:200]))


def clone(ctx, m, rng, how):
    """Moves or copies the store."""
    old = m.gitdir
    bare = not old.endswith("/.git")
    top = old if bare else os.path.dirname(old)
    new = ctx.dir("moved" + rng.choice(["", " to", "\u00e9"])) + "/r"
    if how == "move":
        os.rename(top, new)
    else:
        shutil.copytree(top, new, symlinks=True, copy_function=shutil.copy2 if how == "copy2" else shutil.copyfile)
        for b, ds, fs in os.walk(top):
            c = os.path.join(new, os.path.relpath(b, top))
            for f in ds + fs + ["."]:
                st = os.lstat(os.path.join(b, f))
                os.chown(os.path.join(c, f), st.st_uid, st.st_gid)
                os.chmod(os.path.join(c, f), st.st_mode & 0o7777)
        core.rmtree(top, ctx.scratch)
    os.chmod(os.path.dirname(new), 0o755)
    m.gitdir = new if bare else os.path.join(new, ".git")


def history(ctx, seed, prepared):
    rng = random.Random(seed)
    g = model.new_repo(ctx, bare=rng.random() < 0.7)
    m = Stored(g)
    m.time_range = None
    pool = gen.Pool(rng, rng.randrange(2, 6), rng.randrange(2, 7), big=0.1)
    pool.paths += [gen.similar(rng, pool.paths[0]) for _ in range(rng.randrange(3))]
    pool.paths = list(dict.fromkeys(p for p in pool.paths if len(p) < 60000))
    for p in pool.paths:
        m.ids[p], m.paths[lock_id(p)] = lock_id(p), p
    uids = rng.sample(UIDS, rng.randrange(1, 4))
    os.makedirs(os.path.join(g, "lfs/locks"))
    os.makedirs(os.path.join(g, "lfs/objects"))
    foreign = rng.sample(FOREIGN, rng.randrange(len(FOREIGN)))
    for f, d in foreign:
        f = os.path.join(g, "lfs", f)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        write(f, d, uids[0], rng)
    for b, _, _ in os.walk(os.path.dirname(g) if g.endswith("/.git") else g):
        os.chmod(b, 0o777)
    home = ctx.dir("home")
    os.chmod(home, 0o755)
    did, done = [], []

    def hand():
        """Another version of the server was used."""
        for o, d in zip(pool.oids, pool.blobs):
            if rng.random() < 0.35 and o not in m.objects:
                put_object(m, rng, o, d, rng.choice(uids))
                ctx.stats["objects_by_hand"] += 1
                did.append("o")
        for p in pool.paths:
            x = rng.random()
            if x < 0.4 and p not in m.locks:
                t = rng.choice(TIMES) if rng.random() < 0.7 else rng.randrange(-62135596800, 253402300800)
                put_lock(m, rng, p, t, rng.choice(uids))
                ctx.stats["locks_by_hand"] += 1
                did.append("l")
            elif x > 0.9 and p in m.locks:
                os.unlink(os.path.join(m.gitdir, "lfs/locks", lock_id(p).decode()))
                del m.locks[p]
                did.append("u")

    if prepared:
        hand()
    for k in range(rng.randrange(2, 6)):
        uid = rng.choice(uids)
        with open(os.path.join(home, ".gitconfig"), "w") as f:
            f.write("[safe]\n\tdirectory = \"%s\"\n" % m.gitdir.removesuffix("/.git"))
        os.chmod(os.path.join(home, ".gitconfig"), 0o644)
        m.me = model.username(uid)
        mode = "download" if rng.random() < 0.25 else "upload"
        reqs = [gen.mixed(rng, pool, m, WD if mode == "download" else W) for _ in range(rng.randrange(1, 10))]
        if k == 0 or rng.random() < 0.3:
            reqs.insert(0, proto.list_lock())
        p, resps = model.run_reqs(ctx, m, mode, reqs, env=ctx.env(HOME=home), user=uid, group=uid, extra_groups=[], umask=rng.choice([0, 0, 0o022, 0o002]) if len(uids) == 1 else 0)
        done.append((mode, reqs, resps))
        decode(m)
        ctx.stats["locks_decoded"] += len(m.locks)
        ctx.stats["objects_decoded"] += len(m.objects)
        for f, d in foreign:
            with open(os.path.join(m.gitdir, "lfs", f), "rb") as h:
                if h.read() != d:
                    raise model.Bad({"C38"}, "lfs/%s, a file of another program, was changed" % f)
        if rng.random() < 0.35:
            how = rng.choice(["move", "copy2", "copyfile"])
            clone(ctx, m, rng, how)
            ctx.stats["moves"] += 1
            did.append(how)
        if prepared and rng.random() < 0.4:
            hand()
    return did, done


def case(ctx, rng, n):
    seed = rng.getrandbits(64)
    try:
        did, done = history(ctx, seed, True)
    except FileNotFoundError as e:
        raise core.Violation("a file of another program is gone: %s" % e)
    except model.Bad as b:
        if "C38" not in b.tags:
            for f in os.listdir(ctx.tmp):
                core.rmtree(os.path.join(ctx.tmp, f), ctx.scratch)
            try:
                # Does it take what was prepared?
                for k in range(3):
                    history(ctx, seed + k, False)
            except model.Bad as c:
                if "C38" not in c.tags:
                    raise core.Other("the same happens in a store which the server made itself: %s" % c)
        raise core.Violation("the store's format is not what it was: %s" % b.msg, **b.detail)
    ctx.stats["sessions"] += len(done)
    return {"key": ("".join(did), seq.history_key(done)),
            "sample": [[a, [{"request": r.brief(), "status": x.status} for r, x in zip(b, c)]] for a, b, c in done][:2]}
