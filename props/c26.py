"""C26: git at and git recent-refs leave the repository as it was."""
import hashlib
import os

from lib import core, gitat, gitrepo, mon, pcre
from lib.core import Violation

TECHNIQUE = "state-snapshot monitor and system-call monitor (ptrace) around every kind of run"
NOTE = "Sampled repositories and command lines; reading creates an empty log of HEAD where there is none, which is tolerated."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random repositories with working trees, indexes, hooks, packed and loose references, logs and linked working trees, some of them damaged, on which both "
        "programs are run with all their options, successfully and not (no match, missing revision, bad pattern, bad option, read-only "
        "repository); every file's and directory's identity, mode, times and content is compared before and after, and, in a share of the "
        "runs, every mutating system call below the repository is reported, so that changes which are undone are seen as well. Distinct by "
        "program, options, exit status and repository layout.")
ASSUMPTIONS = ["libgit2 creates an empty logs/HEAD when it reads a missing one", "git show changes nothing itself"]


# What other git commands leave or hold while they run.
STATE = ("ORIG_HEAD", "FETCH_HEAD", "index.lock", "MERGE_MSG", "MERGE_HEAD", "MERGE_MODE", "CHERRY_PICK_HEAD", "REVERT_HEAD", "BISECT_LOG", "AUTO_MERGE",
         "REBASE_HEAD", "rebase-merge/done", "sequencer/todo", "gc.pid", "gc.log", "HEAD.lock", "config.lock", "packed-refs.lock", "packed-refs.new",
         "refs/heads/main.lock", "refs/tags/gone.lock", "logs/HEAD.lock", "objects/pack/tmp_pack_x", "objects/pack/.tmp-1-pack-x.pack", "objects/tmp_obj_x",
         "objects/info/commit-graph.lock", "objects/maintenance.lock", "shallow.lock", "COMMIT_EDITMSG", ".COMMIT_EDITMSG.swp", "info/refs", "description",
         "objects/pack/pack-x.keep", "index.stash.12", "refs/heads/a~", "sharedindex.1234", "modules/x/HEAD", "lfs/tmp/x", "svn/.metadata")


def snapshot(*tops):
    out = {}
    for top in tops:
        for base, dirs, files in os.walk(top):
            for f in dirs + files:
                p = os.path.join(base, f)
                st = os.lstat(p)
                d = b""
                if os.path.islink(p):
                    d = os.readlink(p).encode("utf-8", "surrogateescape")
                elif f in files:
                    with open(p, "rb") as fh:
                        d = hashlib.sha1(fh.read()).digest()
                out[p] = (st.st_ino, st.st_mode, st.st_size if f in files else 0, st.st_mtime_ns if f in files else 0, d)
    return out


def allowed(p):
    return p.endswith(("/logs/HEAD", "/logs")) or "/worktrees/" in p and p.endswith("/logs")


def furnish(ctx, r, rng, made):
    """A working tree, an index, hooks, logs."""
    ev = os.path.join(ctx.dir("hook"), "ran")
    hooks = os.path.join(r.gitdir, "hooks")
    os.makedirs(hooks, exist_ok=True)
    for h in ("post-checkout", "post-index-change", "reference-transaction", "pre-auto-gc", "post-rewrite", "fsmonitor"):
        with open(os.path.join(hooks, h), "w") as f:
            f.write("#!/bin/sh\necho %s >>%s\n" % (h, ev))
        os.chmod(os.path.join(hooks, h), 0o755)
    if r.path != r.gitdir:
        if rng.random() < 0.8 and "HEAD" not in r.refs:
            gitrepo.git(ctx, r.path, "read-tree", "HEAD", check=False)
        for i in range(rng.randrange(3)):
            with open(os.path.join(r.path, "f" if i == 0 else "file%d" % i), "w") as f:
                f.write("changed %d\n" % i)
    if rng.random() < 0.7:
        os.makedirs(os.path.join(r.gitdir, "logs/refs/heads"), exist_ok=True)
        zero = "0" * 40
        log = "".join("%s %s N <n@example.com> %d +0000\tcheckout: moving from %s to %s\n" % (
            zero, rng.choice(made), 1500000000 + i, rng.choice(["main", "dev", "gone", made[0], "caf\udce9"]), "main") for i in range(rng.choice([0, 1, 3, 8, 120, 2500] if rng.random() < 0.3 else [2, 5])))
        for f in ("HEAD", "refs/heads/main"):
            with open(os.path.join(r.gitdir, "logs", f), "w", errors="surrogateescape") as fh:
                fh.write(log)
    for f in STATE:
        if rng.random() < 0.12:
            p = os.path.join(r.gitdir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if os.path.exists(p):
                continue
            with open(p, "w") as fh:
                fh.write(rng.choice(["", made[0] + "\n", "1234 host\n"]) if f.endswith((".lock", ".pid", "_0", "keep")) else made[0] + "\n")
            if rng.random() < 0.5:
                # Of long ago, or of the future.
                os.utime(p, (rng.choice([0, 1000000000, 2500000000]),) * 2)
    if os.path.exists(ev):
        os.unlink(ev)
    return ev


def harm(ctx, r, rng, made):
    """Damages the repository, which is no reason to tidy it up."""
    for i in range(rng.randrange(1, 4)):
        if rng.random() < 0.5:
            o = rng.choice(made)
            p = os.path.join(r.gitdir, "objects", o[:2], o[2:])
            if not os.path.exists(p):
                continue
            os.unlink(p)
            if rng.random() < 0.5:
                with open(p, "w"):
                    pass
            ctx.stats["damaged_objects"] += 1
        else:
            p = os.path.join(r.gitdir, rng.choice(["refs/heads/", "refs/remotes/origin/", "refs/tags/", "refs/x/"]) + "harm%d" % i)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(rng.choice(["", "garbage\n", "%040x\n" % rng.getrandbits(160), "%040x\n" % rng.getrandbits(160), "ref: refs/heads/nowhere\n", "0" * 40 + "\n"]))
            ctx.stats["broken_references"] += 1


def command(ctx, r, rng, revs):
    if rng.random() < 0.5:
        args = rng.choice([[], ["--sort=visitdate"], ["--sort=committerdate"], ["--sort=authordate"], ["--sort=nonsense"], ["--help"], ["extra"]])
        return "git-recent-refs", args
    args = [o for o in ("--summary", "--show", "--quiet", "--no-fixup") if rng.random() < 0.35]
    rev = rng.choice(revs)[0]
    if rng.random() < 0.2:
        rev = rng.choice(["nosuch", "HEAD^{tree}", "HEAD~99"])
    if rev is not None:
        args.append(rev)
    args.append(rng.choice(["needle", "bee", ".", "(", "(?!)", "fixup!"]))
    return "git-at", args


def case(ctx, rng, n):
    r, made = gitat.build(ctx, rng, n=rng.choice([1, 3, 8, 15]))
    revs = gitat.revisions(ctx, r, rng, made)
    if rng.random() < 0.06:
        # Ever so many references, most of them loose.
        for i in range(rng.choice([130, 600, 1500])):
            r.refs["refs/heads/many/%d" % i] = rng.choice(made)
        r.flush_refs({x for x in r.refs if x != "HEAD" and rng.random() < 0.1})
    wt = gitrepo.worktree(ctx, r, rng.choice([made[0], "ref: refs/heads/main"])) if rng.random() < 0.2 else None
    ev = furnish(ctx, r, rng, made)
    tops = [r.path] + ([wt] if wt else [])
    if rng.random() < 0.3:
        harm(ctx, r, rng, made)
    readonly = rng.random() < 0.1
    if readonly:
        for base, dirs, files in os.walk(r.path):
            os.chmod(base, 0o555)
    keys, sample = [], None
    before = snapshot(*tops)
    try:
        for _ in range(12):
            prog, args = command(ctx, r, rng, revs)
            cwd = wt if wt and rng.random() < 0.4 else r.path if readonly else gitat.cwd_of(ctx, r, rng)
            if not readonly:
                before = snapshot(*tops)
            traced = rng.random() < 0.3
            env = ctx.env(GIT_CONFIG_GLOBAL="/dev/null")
            argv = [ctx.bin(prog), *args]
            if traced:
                run = mon.go(ctx, tops, [(argv, b"")], env=env, cwd=cwd)
                rc = run.ends[0]
                bad = [e.brief() for e in run.events if e.ret is not None and e.ret >= 0 and e.cls == mon.MUT
                       and not (allowed(e.path) and e.name in ("mkdir", "mkdirat", "open", "openat", "creat"))]
                if bad:
                    raise Violation("%s %s changed the repository: %s" % (prog, args, bad[0]), calls=bad, cwd=cwd, outcome=rc)
                ctx.stats["system_calls_seen"] += len(run.events)
            else:
                res = core.run(ctx, argv, env=env, cwd=cwd)
                rc = res.rc
            after = snapshot(*tops)
            gone = sorted(set(before) - set(after))
            new = sorted(p for p in set(after) - set(before) if not (allowed(p) and after[p][2] == 0))
            diff = sorted(p for p in set(before) & set(after) if before[p] != after[p])
            if gone or new or diff:
                raise Violation("%s %s: removed %s, added %s, changed %s" % (prog, args, gone[:3], new[:3], diff[:3]), cwd=cwd, outcome=rc)
            if os.path.exists(ev):
                raise Violation("%s %s ran a hook" % (prog, args), hooks=open(ev).read())
            ctx.stats["files_compared"] += len(after)
            keys.append((prog, tuple(a for a in args if a.startswith("-")), rc, r.stored, readonly, bool(wt), traced, cwd == r.path))
            sample = {"run": [prog] + args, "outcome": rc, "files_compared": len(after), "traced": traced}
    finally:
        if readonly:
            for base, dirs, files in os.walk(r.path):
                os.chmod(base, 0o755)
    return {"keys": keys, "evaluations": len(keys), "sample": sample}
