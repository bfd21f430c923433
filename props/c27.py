"""C27: an LFS session starts cleanly on any repository or refuses cleanly."""
import datetime
import hashlib
import os
import subprocess

from lib import core, gen, live, model, proto, seq
from lib.core import Inconclusive, Violation
from lib.model import Bad

TECHNIQUE = "live start-up monitor (advertisement before any input), outcome monitor and store snapshots"
NOTE = "Sampled kinds of repositories, paths, operations and earlier contents; linked working trees are not covered."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("repositories of all kinds (bare, by working tree, by .git, through .git files, symbolic links, relative and odd paths, loose or no "
        "configuration of sharing) with no, some, linked or all of the LFS directories and with objects, locks, leftovers and foreign files in "
        "them, on which sessions are started: the advertisement must be there, exactly, before any input, the directories must exist, and "
        "everything which was stored must be listed, downloaded and left as it was. Paths which aren't repositories must be refused with 4 "
        "and unknown operations with 2, with requests waiting on the input which must not be executed; where something is in the way of the directories, the server must end without a welcome. Distinct by kind, path form, "
        "operation, earlier contents and outcome.")
ASSUMPTIONS = ["the repository belongs to the user"]
ADV = b"000eversion=1\n0000"
OPS = ["uploads", "UPLOAD", "Upload", "", " upload", "upload ", "up", "down", "downloads", "Download", "get", "verify", "upload\n", "uploa",
       "download-", "update", "put", "lock", "all", "upload,download", "\udcff", "upload\udcff", "\udce9"]
VARS = ["GIT_DIR", "GIT_WORK_TREE", "GIT_COMMON_DIR", "GIT_OBJECT_DIRECTORY", "GIT_INDEX_FILE", "GIT_CEILING_DIRECTORIES", "GIT_LFS_PATH", "LFS_PATH",
        "GIT_ALTERNATE_OBJECT_DIRECTORIES", "TMPDIR", "TMP", "TEMP", "XDG_CONFIG_HOME", "XDG_RUNTIME_DIR", "HOME", "PWD", "OLDPWD", "GIT_EXEC_PATH",
        "GIT_CONFIG", "GIT_CONFIG_GLOBAL", "GIT_NAMESPACE", "GIT_PREFIX", "GIT_LFS_STORAGE", "CDPATH"]


def surroundings(ctx, rng):
    """Environment variables which lead elsewhere; returns them and the place they lead to."""
    other = model.new_repo(ctx, bare=False)
    top = os.path.dirname(other)
    model.run_reqs(ctx, model.Model(other), "upload", [proto.put(model.sha(b"elsewhere"), b"elsewhere"), proto.lock(b"locked/elsewhere")])
    os.makedirs(os.path.join(top, "tmp"))
    env = {}
    for v in rng.sample(VARS, rng.randrange(1, 8)):
        env[v] = rng.choice([other, other, top, os.path.join(top, "tmp"), os.path.join(other, "lfs"), os.path.join(top, "nosuch")])
    env["TZ"] = rng.choice(["UTC", "Asia/Kolkata", "XXX+11:30", "nonsense"])
    for v in ("LC_ALL", "LANG"):
        env[v] = rng.choice(["C", "C.UTF-8", "tr_TR.UTF-8", "nonsense"])
    return env, top


def old_lock(g, m, rng, path):
    """A lock as they have always been stored."""
    t = rng.choice([0, 1, 999999999, 1000684800, 1700000000, 4102444800, rng.randrange(1 << 31), -rng.randrange(1 << 31)])
    lid = hashlib.sha256(b"v1:" + path).hexdigest()
    d = os.path.join(g, "lfs/locks")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, lid), "wb") as f:
        f.write(b"v1:%d:" % t + path)
    when = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=t)
    m.locks[path] = {"id": lid.encode(), "path": path, "locked-at": when.isoformat().encode(), "ownername": m.me}
    m.ids[path] = lid.encode()
    m.paths[lid.encode()] = path


def snap(top):
    out = {}
    for base, dirs, files in os.walk(top, followlinks=True):
        for f in files + dirs:
            p = os.path.join(base, f)
            st = os.lstat(p)
            d = b""
            if os.path.isfile(p) and not os.path.islink(p):
                with open(p, "rb") as fh:
                    d = fh.read()
            out[os.path.relpath(p, top)] = (st.st_ino, st.st_mode, st.st_mtime_ns if f in files else 0, d)
    return out


def make(ctx, rng):
    """A repository; returns (path to give, where it is run, git directory, kind)."""
    kind = rng.choice(["bare", "bare", "worktree", "worktree", "gitdir", "gitfile", "symlink"])
    g = model.new_repo(ctx, bare=kind == "bare")
    top = g if kind == "bare" else os.path.dirname(g)
    if rng.random() < 0.4:
        # An awkward name.
        new = os.path.join(os.path.dirname(top).encode(), rng.choice([b"a b", b"-r", b"\xff\xfe", "é.git".encode(), b"x\ny", b"lfs", b"x.git"]) +
                           b"%d" % rng.randrange(1000))
        os.rename(top, new)
        top = os.fsdecode(new)
        g = top if kind == "bare" else os.path.join(top, ".git")
    path, cwd = top, None
    if kind == "gitdir":
        path = g
    elif kind == "gitfile":
        new = os.path.join(ctx.dir("separate"), "g")
        os.rename(g, new)
        with open(g, "w") as f:
            f.write("gitdir: " + new + "\n")
        g = new
    elif kind == "symlink":
        path = os.path.join(ctx.dir("link"), "l")
        os.symlink(top, path)
    form = rng.choice(["plain", "plain", "slash", "relative", "dot", "dots"])
    if form == "slash":
        path += "/"
    elif form == "relative":
        cwd, path = os.path.dirname(path), os.path.basename(path)
        if path.startswith("-"):
            path = "./" + path
    elif form == "dot":
        cwd, path = path, "."
    elif form == "dots":
        # By way of the parent, which is never a symbolic link.
        up, name = os.path.split(path)
        path = os.path.join(up, ".", "..", os.path.basename(up), name)
    return path, cwd, g, kind, form


def furnish(ctx, rng, g, m, pool):
    """What an earlier life of the repository left."""
    how = rng.choice(["nothing", "dirs", "used", "used", "client", "leftovers"])
    lfs = os.path.join(g, "lfs")
    if how == "dirs":
        for d in ("objects", "incomplete", "tmp", "locks", "cache"):
            if rng.random() < 0.5:
                os.makedirs(os.path.join(lfs, d))
    elif how in ("used", "leftovers"):
        model.run_reqs(ctx, m, "upload", [proto.put(pool.oids[i], b) for i, b in enumerate(pool.blobs)]
                       + [proto.lock(p) for p in dict.fromkeys(pool.paths)])
        if rng.random() < 0.5:
            for d in ("incomplete", "tmp"):
                p = os.path.join(lfs, d)
                if os.path.isdir(p) and not os.listdir(p):
                    os.rmdir(p)
    elif how == "client":
        # As a Git LFS client stores them.
        for o, b in zip(pool.oids, pool.blobs):
            p = model.objpath(g, o)
            if o in m.objects:
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(b)
            os.chmod(p, rng.choice([0o444, 0o644, 0o600]))
            m.objects[o] = b
    if how == "client" or rng.random() < 0.3:
        for path in sorted(set(rng.sample(pool.paths, rng.randrange(1, len(pool.paths) + 1))) - set(m.locks)):
            old_lock(g, m, rng, path)
            ctx.stats["old_locks"] += 1
    if os.path.isdir(lfs) and rng.random() < 0.2:
        # Storage kept elsewhere (on the same file system, as files are moved between the directories).
        for d in rng.choice([[""], ["objects"], ["locks"], ["objects", "incomplete", "locks", "tmp"], ["incomplete"], ["tmp"]]):
            p = os.path.join(lfs, d).rstrip("/")
            if os.path.isdir(p) and not os.path.islink(p):
                new = os.path.join(ctx.dir("storage"), d or "lfs")
                os.rename(p, new)
                os.symlink(rng.choice([new, os.path.relpath(new, os.path.dirname(os.path.realpath(p)))]), p)
                how += "+linked"
                ctx.stats["linked_directories"] += 1
    if how in ("leftovers", "client") or rng.random() < 0.2:
        for p in ("tmp/x", "incomplete/abc", "cache/locks/verifiable", "logs/1.log", "README"):
            if rng.random() < 0.6:
                p = os.path.join(lfs, p)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(rng.choice(["", "left\n"]))
                if rng.random() < 0.5:
                    os.utime(p, (rng.choice([0, 1000000000, 2500000000]),) * 2)
    return how


def requests(rng, pool):
    """Requests which would succeed."""
    b = rng.randbytes(20)
    return [proto.put(model.sha(b), b), proto.lock(b"new/path"), proto.batch([(model.sha(b), 20)]), proto.list_lock(), proto.get(pool.oids[0])]


def refused(ctx, rng, argv, cwd, top, status, what, lfs=None, env=None):
    before = snap(top)
    data = b"".join(r.raw for r in requests(rng, gen.Pool(rng, 1, 1, big=0)))
    res = core.run(ctx, argv, stdin=data, cwd=cwd, env=ctx.env(**(env or {})))
    after = snap(top)
    detail = {"argv": argv[1:], "what": what, "exit": res.rc, "stdout": res.out, "stderr": res.err}
    if res.rc != status:
        raise Violation("%s: the exit status is %d, not %d" % (what, res.rc, status), **detail)
    if not res.err.strip():
        raise Violation("%s: refused without a message" % what, **detail)
    if res.out not in ((b"", ADV) if status == 2 else (b"",)):
        raise Violation("%s: something was answered" % what, **detail)
    if lfs:
        # Only its own directories may have been made.
        new = {p for p in set(after) - set(before) if not (os.path.isdir(os.path.join(top, p)) and (p + "/").startswith(lfs))}
    else:
        new = set(after) - set(before)
    diff = {p for p in set(before) & set(after) if before[p] != after[p]}
    if new or diff or set(before) - set(after):
        raise Violation("%s: something was changed: %s" % (what, sorted(new | diff)[:5]), **detail)


def not_repo(ctx, rng):
    d = ctx.dir("notrepo")
    cwd = None
    kind = rng.choice(["empty", "missing", "file", "broken", "inside", "objects", "lfs", "badhead", "emptyname", "near", "near"])
    p = d
    if kind == "missing":
        p = d + "/nosuch"
    elif kind == "file":
        p = d + "/f"
        with open(p, "w") as f:
            f.write("x")
    elif kind == "broken":
        os.makedirs(d + "/.git/refs")
    elif kind == "badhead":
        for s in ("objects", "refs"):
            os.makedirs(d + "/.git/" + s)
    elif kind in ("inside", "objects", "lfs"):
        g = model.new_repo(ctx, bare=False)
        d = os.path.dirname(g)
        p = {"inside": d + "/sub", "objects": g + "/objects", "lfs": g + "/lfs"}[kind]
        os.makedirs(p, exist_ok=True)
        if kind == "lfs":
            os.makedirs(p + "/objects")
    elif kind == "emptyname":
        p = ""
    elif kind == "near":
        # There is a repository of nearly that name, or in the place where this is run.
        name = rng.choice(["repo", "a b", "x.git", "R", "proj-1"])
        near = rng.choice([name + ".git", name + "/.git.git", name + ".bundle", name.swapcase(), name + "~", name + " ", name[:-1] or "q", name + "/git", name + "/repo",
                           name + "/" + name, name + ".git/.git", "git/" + name, "-/" + name + ".git"])
        g = model.new_repo(ctx, bare=rng.random() < 0.7)
        new = os.path.join(d, near)
        os.makedirs(os.path.dirname(new), exist_ok=True)
        os.rename(g, new)
        p = os.path.join(d, name) + rng.choice(["", "", "/", "/."])
        if rng.random() < 0.3:
            cwd = new
        if rng.random() < 0.4:
            cwd, p = d, os.path.relpath(p, d)
        if os.path.exists(os.path.join(d, name, "HEAD")):
            kind, p = "missing", d + "/nosuch"
    env, other = surroundings(ctx, rng) if rng.random() < 0.5 else ({}, None)
    before = other and snap(other)
    refused(ctx, rng, [ctx.bin("git-lfs-transfer"), p, rng.choice(["upload", "download", "bogus"])], cwd or d, d, 4, "not a repository: " + kind, env=env)
    if other and snap(other) != before:
        raise Violation("the environment led a refused session to another repository", environment=env)
    ctx.stats["refused_paths"] += 1
    return {"key": ("notrepo", kind), "sample": {"refused": kind, "status": 4}}


def blocked(ctx, rng):
    """The store's directories can't be made."""
    g = model.new_repo(ctx, bare=rng.random() < 0.7)
    name = rng.choice(["", "/objects", "/incomplete", "/tmp", "/locks"])
    p = os.path.join(g, "lfs") + name
    how = rng.choice(["file", "empty file", "dangling", "loop", "readonly", "fifo", "unreadable"])
    if how == "unreadable" and name:
        how = "file"
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if how == "readonly":
        os.chmod(os.path.dirname(p), 0o555)
    elif how == "unreadable":
        os.mkdir(p)
        os.chmod(p, 0)
    elif how in ("dangling", "loop"):
        os.symlink(p if how == "loop" else os.path.join(g, "no/such/place"), p)
    elif how == "fifo":
        os.mkfifo(p)
    else:
        with open(p, "w") as f:
            f.write("" if how == "empty file" else "in the way\n")
    mode = rng.choice(["upload", "download"])
    pool = gen.Pool(rng, 2, 1, big=0)
    data = b"".join(r.raw for r in requests(rng, pool))
    try:
        res = core.run(ctx, [ctx.bin("git-lfs-transfer"), g, mode], stdin=data)
    finally:
        os.chmod(os.path.dirname(p) if how == "readonly" else g, 0o755)
    if how == "unreadable":
        os.chmod(p, 0o755)
    detail = {"blocked": "lfs" + name, "how": how, "mode": mode, "exit": res.rc, "stdout": res.out, "stderr": res.err}
    if res.rc <= 0 or res.rc == 101:
        raise Violation("a session whose directories can't be made ended with the status %d" % res.rc, **detail)
    if not res.err.strip():
        raise Violation("a session whose directories can't be made ended without a message", **detail)
    if res.out:
        raise Violation("a session whose directories can't be made welcomes the client", **detail)
    ctx.stats["blocked_stores"] += 1
    return {"key": ("blocked", name, how, mode), "sample": {"in the way at lfs" + name: how, "status": res.rc}}


def case(ctx, rng, n):
    if rng.random() < 0.08:
        return blocked(ctx, rng)
    if rng.random() < 0.15:
        return not_repo(ctx, rng)
    path, cwd, g, kind, form = make(ctx, rng)
    m = model.Model(g)
    pool = gen.Pool(rng, rng.randrange(1, 5), rng.randrange(1, 4), big=0.1)
    x = rng.random()
    if x < 0.3:
        with open(os.path.join(g, "config"), "a") as f:
            f.write("\tsharedRepository = %s\n" % rng.choice(["group", "all", "0640", "umask", "true", "false", "1"]))
    elif x < 0.4:
        with open(os.path.join(g, "config"), "w") as f:
            f.write("" if kind != "bare" else "[core]\n\tbare = true\n")
    mode = "start"
    env, other = {}, None
    try:
        if rng.random() < 0.4:
            env, other = surroundings(ctx, rng)
            before_other = snap(other)
        how = furnish(ctx, rng, g, m, pool)
        steps = []
        for _ in range(rng.randrange(1, 4)):
            if rng.random() < 0.3:
                op = rng.choice(OPS)
                refused(ctx, rng, [ctx.bin("git-lfs-transfer"), path, op], cwd, g, 2, "unknown operation %r" % op, lfs="lfs/", env=env)
                ctx.stats["refused_operations"] += 1
                steps.append(op)
                continue
            mode = rng.choice(["upload", "download"])
            steps.append(mode)
            before = snap(g)
            s = live.Live(ctx, [ctx.bin("git-lfs-transfer"), path, mode], cwd=cwd, env=ctx.env(**env))
            try:
                alive = s.settle()
                if bytes(s.out) != ADV:
                    raise Violation("the session began with %r (%s)" % (bytes(s.out)[:200], "running" if alive else "ended"),
                                    path=path, kind=kind, earlier=how, mode=mode, stderr=bytes(s.err))
                reqs = [proto.batch([(o, len(b)) for o, b in zip(pool.oids, pool.blobs)]), proto.list_lock()]
                if mode == "download":
                    reqs += [proto.get(o) for o in m.objects]
                else:
                    reqs += [proto.verify(o, len(b)) for o, b in m.objects.items()]
                s.send(b"".join(r.raw for r in reqs))
                s.settle()
                rc = s.finish()
            finally:
                s.kill()
            c = model.crashed(rc, bytes(s.err))
            if c:
                raise Violation("the session %s" % c, stderr=bytes(s.err), path=path, kind=kind, earlier=how)
            adv, resps, rest = proto.parse_stream(bytes(s.out))
            if len(resps) != len(reqs):
                raise Bad({"C27"}, "%d answers to %d requests" % (len(resps), len(reqs)))
            for r, a in zip(reqs, resps):
                try:
                    m.check(r, a, mode)
                except Bad as b:
                    b.tags.add("C27")
                    raise
            after = snap(g)
            bad = [p for p in before if p not in after or before[p] != after[p]]
            bad += [p for p in after if p not in before and not os.path.isdir(os.path.join(g, p))]
            if bad:
                raise Violation("starting a session changed %s" % sorted(bad)[:5], path=path, kind=kind, earlier=how, mode=mode)
            for d in ("objects", "incomplete", "tmp", "locks"):
                if not os.path.isdir(os.path.join(g, "lfs", d)):
                    raise Violation("lfs/%s was not created" % d, path=path, kind=kind, earlier=how, mode=mode)
            if other and snap(other) != before_other:
                raise Violation("the environment led the session to another repository", path=path, environment=env)
            ctx.stats["sessions_started"] += 1
            ctx.stats["objects_seen_again"] += len(m.objects)
            ctx.stats["locks_seen_again"] += len(m.locks)
            if mode == "upload" and rng.random() < 0.5:
                m2, rq = m, [proto.put(pool.oids[0], pool.blobs[0]), proto.lock(pool.paths[0])]
                model.run_reqs(ctx, m2, "upload", rq)
    except Bad as b:
        if "C27" not in b.tags:
            model.raise_for(ctx, b)
        raise Violation(b.msg, **b.detail, path=path, kind=kind, mode=mode)
    return {"key": (kind, form, how, tuple(steps)), "sample": {"kind": kind, "path": path, "earlier": how, "started_as": steps}}
