"""C25: lock ownership is reported relative to the user asking."""
import os
import pwd

from lib import gen, model, proto, seq

TECHNIQUE = "reference-model monitor over histories of sessions run under several user IDs"
NOTE = "Users of the sandbox's password file and numbers without an entry."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
AS_ROOT = True  # to start the server as other users; the server itself never runs as root
RULE = ("random histories in which several users, with and without account names, with nearly the same names and with large numbers, lock, unlock and list the same "
        "few paths in upload and download sessions of a repository shared through core.sharedRepository, directory permissions or both, with environments "
        "that name other users; "
        "every response is compared with a reference model that knows who created what. Distinct by the sequence of users, operations, "
        "kinds and statuses.")
ASSUMPTIONS = ["no two users have the same name", "the repository's settings let the users read each other's locks"]
UIDS = [1, 2, 5, 13, 65534, 12345, 12346, 70001, 4000000000, 2 ** 31]
# Users whose names are nearly alike.
NAMES = {u.pw_name: u.pw_uid for u in pwd.getpwall() if u.pw_uid}
ALIKE = [(NAMES[a], NAMES[b]) for a in sorted(NAMES) for b in sorted(NAMES) if a != b and (a in b or a[:3] == b[:3] or a.lower() == b.lower())]
W = {"lock": 6, "unlock": 4, "list": 7, "junk": 1}
WD = {"list": 6, "lock": 1, "unlock": 1}


def share(g, setting):
    with open(os.path.join(g, "config"), "a") as f:
        if setting:
            f.write("\tsharedRepository = %s\n" % setting)
    for base, dirs, files in os.walk(g):
        os.chmod(base, 0o777)
        for x in files:
            os.chmod(os.path.join(base, x), 0o644)


def case(ctx, rng, n):
    g = model.new_repo(ctx, bare=rng.random() < 0.7)
    bare = os.path.basename(g) != ".git"
    home = ctx.dir("home")
    with open(os.path.join(home, ".gitconfig"), "w") as f:
        f.write("[safe]\n\tdirectory = %s\n" % (g if bare else os.path.dirname(g)))
    setting = rng.choice(["all", "world", "everybody", "2", "0666", "0664", None])
    share(g, setting)
    if setting is None:
        # Nothing is shared by Git's own means, only by the permissions of the directories.
        for d in ("lfs", "lfs/objects", "lfs/objects/incomplete", "lfs/objects/tmp", "lfs/locks", "lfs/incomplete", "lfs/tmp"):
            os.makedirs(os.path.join(g, d), exist_ok=True)
            os.chmod(os.path.join(g, d), 0o777)
    elif setting in ("all", "world", "everybody", "2", "0664"):
        for d in ("lfs", "lfs/locks", "lfs/objects", "lfs/objects/incomplete", "lfs/incomplete", "lfs/tmp"):
            os.makedirs(os.path.join(g, d), exist_ok=True)
            os.chmod(os.path.join(g, d), 0o777)
    users = rng.sample(UIDS, rng.randrange(2, 6))
    if ALIKE and rng.random() < 0.4:
        users = list(dict.fromkeys(rng.choice(ALIKE) + tuple(users[1:])))
    m = model.Model(g)
    pool = gen.Pool(rng, 2, rng.randrange(1, 6), big=0)
    done, reqs, mode, uid = [], [], None, None

    def go(uid, mode, reqs):
        m.me = model.username(uid)
        # Who asks is decided by the account, whatever the environment claims.
        env = {k: model.username(rng.choice(UIDS)) if rng.random() < 0.8 else b"root" for k in (
            "LOGNAME", "USER", "USERNAME", "SUDO_USER", "GIT_COMMITTER_NAME", "GIT_AUTHOR_NAME", "EMAIL", "LNAME") if rng.random() < 0.4}
        for k in ("UID", "EUID", "SUDO_UID"):
            if rng.random() < 0.3:
                env[k] = str(rng.choice(UIDS))
        return model.run_reqs(ctx, m, mode, reqs, env=ctx.env(HOME=home, **env), user=uid, group=rng.choice([uid, 100]), extra_groups=[])

    try:
        uid, mode = rng.choice(users), "upload"
        reqs = [proto.lock(p) for p in dict.fromkeys(pool.paths)]
        go(uid, mode, reqs)
        reqs = [proto.list_lock()] + [proto.unlock(m.ids[r.f["path"]]) for r in reqs]
        go(uid, mode, reqs)
        for _ in range(rng.randrange(2, 9)):
            uid, mode = rng.choice(users), rng.choice(["upload", "upload", "download"])
            reqs = [gen.mixed(rng, pool, m, W if mode == "upload" else WD) for _ in range(rng.randrange(1, 9))]
            if rng.random() < 0.4:
                p = rng.choice(pool.paths)
                reqs += [proto.lock(p), proto.list_lock(path=p), proto.list_lock(), proto.lock(p),
                         proto.list_lock(path=p, cursor=rng.choice([b"0", b"", m.ids[p]])), proto.list_lock(path=p, limit=1),
                         proto.list_lock(cursor=rng.choice([b"0", min(m.ids.values())]))]
            p, resps = go(uid, mode, reqs)
            done.append((mode, reqs, resps))
            ctx.stats["locks_listed"] += sum(sum(d.startswith(b"ownername ") for d in x.data) for x in resps)
            ctx.stats["marked_ours"] += sum(sum(d.startswith(b"owner ") and d.endswith(b"ours\n") for d in x.data) for x in resps)
            ctx.stats["marked_theirs"] += sum(sum(d.startswith(b"owner ") and d.endswith(b"theirs\n") for d in x.data) for x in resps)
    except model.Bad as b:
        model.raise_for(ctx, b, user=uid, shared=setting, last_session=[mode] + [r.brief() for r in reqs][-20:],
                        owners={k: v["ownername"] for k, v in m.locks.items()})
    ctx.stats["sessions"] += len(done) + 2
    ctx.stats["users"] += len(users)
    return {"key": (tuple(users), seq.history_key(done)),
            "sample": [[a, [{"request": r.brief(), "status": x.status} for r, x in zip(b, c)]] for a, b, c in done][:2]}
