"""C35: a shared store serves every user it is shared with."""
import os
import random
import subprocess

from lib import core, gen, model, proto, seq

TECHNIQUE = "reference-model monitor over histories of sessions of several user IDs, compared with the same history of a single user"
NOTE = "Sessions of different users follow one another; sharing by POSIX modes and groups only, no ACLs, no sticky directories."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
AS_ROOT = True  # to start the server as other users; the server itself never runs as root
RULE = ("random histories in which the members of a group, and users outside of it, upload, download, verify, lock and unlock the same few objects and "
        "paths of a repository set up by git init --shared (every spelling), or by permissive umasks; members write where the setting lets them, everyone it lets read has download sessions, each "
        "with a umask of their own; uploads are cut short by one user and made again by another; at the end the store may be made read-only and downloads continue. "
        "Every response is compared with the reference model; a history which goes wrong for a single user too is none of this check's. Distinct by users, setting, operations and statuses.")
ASSUMPTIONS = ["the directories inherit the group, as git init --shared arranges"]
UIDS = [1, 2, 5, 13, 65534, 12345, 12346, 70001, 4000000000]
TEAM = 54321
# The setting; who else may write: "group", "all" or nobody; who else may read.
SET = [("group", "group", "group"), ("true", "group", "group"), ("1", "group", "group"), ("0660", "group", "group"), ("0770", "group", "group"),
       ("all", "group", "all"), ("world", "group", "all"), ("everybody", "group", "all"), ("2", "group", "all"), ("0664", "group", "all"),
       ("0666", "all", "all"), ("0777", "all", "all"), ("0640", None, "group"), ("0644", None, "all"), (None, "group", "group"), (None, "group", "all"), (None, "all", "all")]
UMASKS = [0, 0o002, 0o022, 0o027, 0o077, 0o007]
WU = {"put": 5, "badput": 1, "verify": 3, "batch": 3, "lock": 3, "unlock": 2, "list": 2, "junk": 1}
WD = {"get": 6, "verify": 2, "batch": 4, "list": 2, "junk": 1}


def history(ctx, seed, setting, write, read, owner, members, outside):
    """Runs a history; who is who does not change what is asked."""
    rng = random.Random(seed)
    plain = {("group", "group"): 0o007, ("group", "all"): 0o002, ("all", "all"): 0}.get((write, read)) if setting is None else None
    top = ctx.dir("shared")
    os.chown(top, owner, TEAM)
    os.chmod(top, 0o2777)
    bare = rng.random() < 0.7
    home = ctx.dir("home")
    os.chmod(home, 0o755)
    g = os.path.join(top, "r.git" if bare else "r")
    cmd = ["git", "init", "-q"] + (["--bare"] if bare else []) + (["--shared=" + setting] if setting else []) + [g]
    p = subprocess.run(cmd, user=owner, group=TEAM, extra_groups=[], umask=rng.choice(UMASKS[:4]) if plain is None else plain, env=ctx.env(HOME=home),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise core.Inconclusive("git init: %r" % p.stderr[-200:])
    work, g = g, g if bare else os.path.join(g, ".git")
    if plain is not None:
        for b, _, _ in os.walk(work):
            os.chmod(b, 0o2777 & ~plain)
    elif not bare:
        # Whoever reads the repository has to get there.
        os.chmod(work, 0o2755 if read == "all" else 0o2750)
    with open(os.path.join(home, ".gitconfig"), "w") as f:
        f.write("[safe]\n\tdirectory = %s\n" % work)
    os.chmod(os.path.join(home, ".gitconfig"), 0o644)
    m = model.Model(g)
    pool = gen.Pool(rng, rng.randrange(2, 6), rng.randrange(1, 4), big=0.1)
    writers = [owner] + (members if write else []) + (outside if write == "all" else [])
    readers = [owner] + members + (outside if read == "all" else [])
    done = []

    def go(uid, mode, reqs, cut=None):
        m.me = model.username(uid)
        mask = rng.choice(UMASKS) if plain is None else plain
        groups = [TEAM] if uid in [owner] + members else []
        kw = dict(env=ctx.env(HOME=home), user=uid, group=TEAM if uid == owner else uid, extra_groups=groups, umask=mask)
        if cut is not None:
            core_run = model.session(ctx, g, mode, cut, **kw)
            c = model.crashed(core_run.rc, core_run.err)
            if c:
                raise model.Bad({"C35"}, "the server %s" % c, end=model.describe_exit(core_run.rc, core_run.err))
            return
        try:
            p, resps = model.run_reqs(ctx, m, mode, reqs, **kw)
        except model.Bad as b:
            b.detail.update(user=uid, owner=owner, members=members, outside=outside, umask="%o" % mask, stderr_note="setting %s" % setting)
            raise
        done.append((mode, reqs, resps))
        if uid != owner:
            ctx.stats["responses_to_others"] += len(resps)
            ctx.stats["uploads_over_others"] += sum(r.f.get("oid") in before for r in reqs if r.kind == "put")
        before.update(m.objects)

    before = set()
    go(rng.choice(writers), "upload", [proto.lock(p) for p in dict.fromkeys(pool.paths)])
    reqs = [proto.list_lock()] + [proto.unlock(m.ids[r]) for r in dict.fromkeys(pool.paths)]
    go(rng.choice(writers), "upload", reqs)
    for _ in range(rng.randrange(3, 9)):
        x = rng.random()
        if x < 0.15:
            r = gen.put_req(rng, pool)
            if len(r.raw) > 200:
                go(rng.choice(writers), "upload", None, r.raw[:-rng.randrange(5, 100)])
        elif x < 0.6:
            go(rng.choice(writers), "upload", [gen.mixed(rng, pool, m, WU) for _ in range(rng.randrange(1, 9))])
        else:
            go(rng.choice(readers), "download", [gen.mixed(rng, pool, m, WD) for _ in range(rng.randrange(1, 9))])
    if rng.random() < 0.4:
        # The store is archived.
        for b, _, fs in os.walk(work, topdown=False):
            for q in [os.path.join(b, f) for f in fs] + [b]:
                if not os.path.islink(q):
                    os.chmod(q, os.stat(q).st_mode & 0o7555)
        ctx.stats["archived"] += 1
        for _ in range(2):
            go(rng.choice(readers), "download", [gen.mixed(rng, pool, m, WD) for _ in range(rng.randrange(1, 9))])
    return done


def case(ctx, rng, n):
    setting, write, read = rng.choice(SET)
    users = rng.sample(UIDS, rng.randrange(3, 6))
    k = rng.randrange(2, len(users) + 1)
    owner, members, outside = users[0], users[1:k], users[k:]
    seed = rng.getrandbits(64)
    try:
        done = history(ctx, seed, setting, write, read, owner, members, outside)
    except model.Bad as b:
        for f in os.listdir(ctx.tmp):
            core.rmtree(os.path.join(ctx.tmp, f), ctx.scratch)
        try:
            history(ctx, seed, setting, write, read, owner, [owner] * len(members), [owner] * len(outside))
        except model.Bad as c:
            raise core.Other("the same happens to a single user: %s" % c)
        raise core.Violation("a user whom the repository is shared with is not served like its owner: %s" % b.msg, setting=setting, **b.detail)
    ctx.stats["sessions"] += len(done)
    ctx.stats["users"] += len(users)
    return {"key": (setting, write, read, len(users), seq.history_key(done)),
            "sample": [[a, [{"request": r.brief(), "status": x.status} for r, x in zip(b, c)]] for a, b, c in done][:2]}
