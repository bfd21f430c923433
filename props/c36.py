"""C36: how a repository is stored and where git at or recent-refs is run makes no difference."""
import os
import shutil

from lib import core, gitrepo
from lib.core import Violation

TECHNIQUE = "metamorphic monitor: the same questions about the same repository in many forms, from many places and environments"
NOTE = "Forms which Git and libgit2 both support; the answers themselves are checked against an oracle by C18 to C22."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("a random repository is written once, and copies of it are given other forms (packs, several packs, bitmaps, multi-pack indexes, commit graphs, alternates, packed "
        "and stale references, symlinks, .git files, bare, submodules, linked working trees, left lock files, unreachable objects, unrelated settings, read-only) at paths with "
        "unusual names; the same questions are asked of each, from its root, subdirectories or the repository's own directories, in different environments, and standard "
        "output and status must be those given for the plain form. Distinct by form, place and answers.")
ASSUMPTIONS = ["file systems take names of any bytes"]
WORDS = [b"needle", b"fixup! needle", b"hay", b"squash! hay\n\nneedle", b"Needle\n\nbody", b"x" * 3000 + b"needle"]
PATHS = [b"plain", b"with space", b"-dash", b"caf\xc3\xa9", b"caf\xe9", b"new\nline", b"a'b\"c", b"$HOME", b"*", b"x.git", b"deep/" * 30 + b"er", b"tab\tx", b"~", b"%41", b"y" * 200, b"#1", b"back\\slash"]
NOISE = [("core.abbrev", "4"), ("color.ui", "always"), ("i18n.logOutputEncoding", "latin1"), ("i18n.commitEncoding", "latin1"), ("log.date", "iso"), ("log.showSignature", "true"),
         ("core.quotePath", "false"), ("core.logAllRefUpdates", "false"), ("gc.auto", "1"), ("core.fsmonitor", "true"), ("core.untrackedCache", "true"), ("alias.at", "!false"),
         ("log.showRoot", "false"), ("core.warnAmbiguousRefs", "true"), ("core.commentChar", "#"), ("core.hooksPath", "/nonexistent"), ("user.useConfigOnly", "true"), ("fetch.prune", "true"),
         ("core.compression", "0"), ("core.bigFileThreshold", "1"), ("core.sharedRepository", "0640"), ("core.symlinks", "false"), ("core.fileMode", "false"), ("log.follow", "true"),
         ("versionsort.suffix", "-rc"), ("branch.sort", "-committerdate"), ("tag.sort", "-version:refname"), ("grep.patternType", "fixed"), ("format.pretty", "oneline")]
ENV = [("LC_ALL", "de_DE.UTF-8"), ("LC_ALL", "C.UTF-8"), ("LANG", "ja_JP.eucJP"), ("TZ", "Asia/Tokyo"), ("TZ", "XXX+11:30"), ("TERM", "dumb"), ("TERM", "xterm-256color"), ("COLUMNS", "10"),
       ("GIT_AUTHOR_DATE", "0 +0000"), ("GIT_COMMITTER_DATE", "now"), ("EDITOR", "false"), ("GIT_TRACE", "1"), ("GIT_PREFIX", "sub/"), ("PWD", "/"), ("OLDPWD", "/nonexistent"),
       ("GIT_REFLOG_ACTION", "checkout"), ("GIT_OPTIONAL_LOCKS", "0"), ("GIT_LITERAL_PATHSPECS", "1"), ("GIT_TERMINAL_PROMPT", "0"), ("RUST_BACKTRACE", "1"), ("NO_COLOR", "1"),
       ("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent"), ("XDG_CONFIG_HOME", "/nonexistent")]


def make(ctx, rng):
    r = gitrepo.init(ctx)
    made = gitrepo.graph(r, rng, rng.randrange(8, 50), lambda g, i: g.choice(WORDS) + b" %d\n" % g.randrange(5), same_author=True, vary=rng.random() < 0.5)
    targets = rng.sample(made, min(len(made), rng.randrange(3, 14)))
    names = ["refs/heads/main", "refs/heads/dev", "refs/heads/a/b", "refs/tags/v1", "refs/tags/v2", "refs/remotes/origin/main", "refs/heads/caf\u00e9",
             "refs/notes/x", "refs/heads/z", "refs/tags/t/u", "refs/changes/1/2", "refs/heads/main2", "refs/tags/main"]
    rng.shuffle(names)
    names.remove("refs/heads/main")
    names.insert(0, "refs/heads/main")
    for n, t in zip(names, targets):
        r.refs[n] = r.tag(t, b"t") if n.startswith("refs/tags/") and rng.random() < 0.6 else t
    if rng.random() < 0.2:
        del r.symrefs["HEAD"]
        r.refs["HEAD"] = rng.choice(made)
    r.flush_refs()
    d = os.path.join(r.gitdir, "logs")
    os.makedirs(d)
    prev = "0" * 40
    left = [n[11:] for n in r.refs if n.startswith("refs/heads/")] + ["gone", made[0], made[-1]]
    with open(os.path.join(d, "HEAD"), "wb") as f:
        for i in range(rng.randrange(12)):
            t = rng.choice(made)
            msg = "checkout: moving from %s to %s" % (rng.choice(left), rng.choice(left)) if rng.random() < 0.7 else "commit: needle"
            f.write(("%s %s C <c@example.com> %d +0100\t%s\n" % (prev, t, 1000 + i, msg)).encode())
            prev = t
    work = os.path.join(r.path, "sub", "dir")
    os.makedirs(work)
    with open(os.path.join(r.path, "sub", "file"), "w") as f:
        f.write("needle\n")
    return r, made


def questions(r, rng, made):
    revs = ["HEAD", "main", "HEAD~1", "HEAD~3", "@", rng.choice(made), rng.choice(made), "HEAD^{/hay}", "absent", "HEAD~999", "v1", "v1^{}", "origin/main", "heads/dev", "a/b~1", "@{-1}", "HEAD@{0}",
            "HEAD@{1}", made[-1][:12], "sub/dir", "refs/heads/main", "main^0", "z^2", "HEAD^@"]
    qs = [["git-recent-refs"], ["git-recent-refs", "--sort=visitdate"], ["git-recent-refs", "--sort=committerdate"], ["git-recent-refs", "--sort=authordate"]]
    for _ in range(6):
        pat = rng.choice(["needle", "^hay", "needle 3", "(?i)NEEDLE", "absent", "(", "x{2000}", "^Needle$", "sub", "."])
        opts = [o for o in ("--summary", "--no-fixup", "--quiet") if rng.random() < 0.3]
        qs.append(["git-at", *opts, *([rng.choice(revs)] if rng.random() < 0.75 else []), pat])
    return qs


def ask(ctx, qs, cwd, env):
    out = []
    for q in qs:
        p = core.run(ctx, [ctx.bin(q[0]), *q[1:]], env=env, cwd=cwd)
        out.append((p.rc, p.out, p.err))
    return out


def move(src, dst):
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    os.rename(src, dst)


def form(ctx, rng, top, d, made):
    """Changes the copy at `d`; returns the places to run from."""
    g = os.path.join(d, b".git")
    run = lambda *a: gitrepo.git(ctx, d, *a, check=False)
    done = []

    def do(p, name):
        if rng.random() < p:
            done.append(name)
            return True

    # Objects.
    x = rng.random()
    if x < 0.25:
        done.append("packs")
        for _ in range(rng.randrange(1, 4)):
            objs = gitrepo.git(ctx, d, "rev-list", "--all", "--objects", "--max-count=%d" % rng.randrange(1, 40), check=False).stdout
            gitrepo.git(ctx, d, "pack-objects", "-q", os.path.join(g, b"objects/pack/pack"), stdin=b"".join(
                line.split(b" ")[0] + b"\n" for line in objs.split(b"\n") if line), check=False)
        if rng.random() < 0.7:
            run("prune-packed", "-q")
    elif x < 0.55:
        done.append("packed")
        run("repack", "-q", "-a", "-d", "-k", *(["-b"] if rng.random() < 0.3 else []))
    if do(0.2, "midx"):
        run("multi-pack-index", "write", "--no-progress")
    if do(0.25, "graph"):
        run("commit-graph", "write", "--reachable", "--no-progress", *(["--split"] if rng.random() < 0.4 else []), *(["--changed-paths"] if rng.random() < 0.3 else []))
    if do(0.15, "garbage"):
        for i in range(rng.randrange(1, 20)):
            run("hash-object", "-w", "-t", "blob", "/dev/null")
            run("commit-tree", "-m", "needle %d" % i, "HEAD^{tree}")
    # References.
    x = rng.random()
    if x < 0.3:
        done.append("packed-refs")
        run("pack-refs", "--all", *(["--no-prune"] if rng.random() < 0.4 else []))
    elif x < 0.4:
        done.append("some-packed")
        run("pack-refs")
    if do(0.2, "empty-dirs"):
        for f in (b"refs/heads/empty/x", b"refs/remotes/gone", b"branches", b"hooks"):
            os.makedirs(os.path.join(g, f), exist_ok=True)
    if do(0.3, "noise"):
        for k, v in rng.sample(NOISE, rng.randrange(1, 6)):
            run("config", k, v)
            done.append(k)
    # Layout.
    places = [d, os.path.join(d, b"sub"), os.path.join(d, b"sub/dir"), g, os.path.join(g, b"refs"), os.path.join(g, b"refs/heads")]
    x = rng.random()
    if x < 0.15:
        done.append("bare")
        b = os.path.join(top, rng.choice([b"b.git", b"bare", b"b .git", b"\xff.git"]))
        move(g, b)
        shutil.rmtree(d)
        gitrepo.git(ctx, b, "config", "core.bare", "true")
        places = [b, os.path.join(b, b"refs"), os.path.join(b, b"refs/heads"), os.path.join(b, b"logs")]
        g = b
    elif x < 0.3:
        done.append("gitfile")
        b = os.path.join(top, rng.choice([b"real/modules/sub", b"gd", b"g d.git", b"\xe9"]))
        move(g, b)
        with open(g, "wb") as f:
            f.write(b"gitdir: " + (b if rng.random() < 0.5 else os.path.relpath(b, d)) + rng.choice([b"\n", b"\n", b""]))
        if rng.random() < 0.6:
            gitrepo.git(ctx, b, "config", "core.worktree", d)
        places = places[:3]
        g = b
    elif x < 0.4:
        done.append("git-symlink")
        b = os.path.join(top, b"elsewhere.git")
        move(g, b)
        os.symlink(b, g)
        places = places[:3]
    elif x < 0.55:
        done.append("worktree")
        w = os.path.join(top, b"wt")
        os.makedirs(os.path.join(w, b"sub/dir"))
        m = os.path.join(g, b"worktrees/wt")
        os.makedirs(os.path.join(m, b"logs"))
        shutil.copy(os.path.join(g, b"HEAD"), os.path.join(m, b"HEAD"))
        shutil.copy(os.path.join(g, b"logs/HEAD"), os.path.join(m, b"logs/HEAD"))
        for f, t in ((b"commondir", b"../.."), (b"gitdir", os.path.join(w, b".git"))):
            with open(os.path.join(m, f), "wb") as fh:
                fh.write(t + b"\n")
        with open(os.path.join(w, b".git"), "wb") as f:
            f.write(b"gitdir: " + m + b"\n")
        if rng.random() < 0.5:
            # What the main working tree has checked out is of no interest here.
            os.unlink(os.path.join(g, b"logs/HEAD"))
            with open(os.path.join(g, b"HEAD"), "wb") as f:
                f.write(rng.choice([b"ref: refs/heads/unborn", b"ref: refs/heads/dev", rng.choice(made).encode()]) + b"\n")
        places = [w, os.path.join(w, b"sub"), os.path.join(w, b"sub/dir")]
    if do(0.2, "alternates"):
        other = os.path.join(top, rng.choice([b"other store", b"store", b"st\xe4re"]))
        move(os.path.join(g, b"objects"), other)
        os.makedirs(os.path.join(g, b"objects/info"))
        os.makedirs(os.path.join(g, b"objects/pack"))
        with open(os.path.join(g, b"objects/info/alternates"), "wb") as f:
            f.write(rng.choice([b"", b"# comment\n"]) + other + b"\n")
        if "git-symlink" not in done and rng.random() < 0.4:
            done.append("relative")
            with open(os.path.join(g, b"objects/info/alternates"), "wb") as f:
                f.write(os.path.relpath(other, os.path.join(g, b"objects")) + b"\n")
    elif do(0.1, "objects-symlink"):
        move(os.path.join(g, b"objects"), os.path.join(top, b"objs"))
        os.symlink(os.path.join(top, b"objs"), os.path.join(g, b"objects"))
    if do(0.15, "locks"):
        for f in rng.sample([b"HEAD.lock", b"index.lock", b"packed-refs.lock", b"refs/heads/main.lock", b"config.lock", b"shallow.lock", b"objects/info/commit-graph.lock", b"gc.pid", b"refs/heads/new.lock",
                             b"MERGE_HEAD", b"CHERRY_PICK_HEAD", b"FETCH_HEAD", b"ORIG_HEAD", b"BISECT_LOG", b"COMMIT_EDITMSG"], 4):
            p = os.path.join(g, f)
            if os.path.isdir(os.path.dirname(p)) and not os.path.lexists(p):
                with open(p, "wb") as fh:
                    fh.write(rng.choice([b"", b"junk\n", b"0" * 40 + b"\n"]))
        os.makedirs(os.path.join(g, b"rebase-merge"), exist_ok=True)
    if "relative" not in done and do(0.15, "via-symlink"):
        s = os.path.join(top, b"link")
        os.symlink(places[0], s)
        places = [s] + [os.path.join(s, os.path.relpath(p, places[0])) for p in places[1:] if p.startswith(places[0] + b"/")]
    if do(0.2, "read-only"):
        for b, ds, fs in os.walk(top, topdown=False):
            for f in fs:
                p = os.path.join(b, f)
                if not os.path.islink(p):
                    os.chmod(p, os.stat(p).st_mode & 0o7555)
            if b != top:
                os.chmod(b, 0o555)
    return done, places


def unlock(top):
    for b, ds, _ in os.walk(top):
        for x in ds:
            p = os.path.join(b, x)
            if not os.path.islink(p):
                os.chmod(p, 0o755)


def same(a, b):
    return a[:2] == b[:2] and bool(a[2]) == bool(b[2])


def case(ctx, rng, n):
    r, made = make(ctx, rng)
    qs = questions(r, rng, made)
    plain = dict(GIT_CONFIG_GLOBAL="/dev/null")
    first = ask(ctx, qs, r.path, ctx.env(**plain))
    keys, sample, evals = [], None, 0
    for _ in range(4):
        top = os.fsencode(ctx.dir("form"))
        d = os.path.join(top, rng.choice(PATHS))
        shutil.copytree(os.fsencode(r.path), d, symlinks=True)
        done, places = form(ctx, rng, top, d, made)
        ctx.stats["forms"] += 1
        for x in done:
            if "." not in x:
                ctx.stats["form_" + x] += 1
        try:
            place = rng.choice(places)
            env = dict(rng.sample(ENV, rng.randrange(5))) if rng.random() < 0.6 else {}
            res = ask(ctx, qs, place, ctx.env(**{**plain, **env}))
        finally:
            unlock(top)
        for q, a, b in zip(qs, first, res):
            evals += 1
            if not same(a, b):
                # Does Git see the same repository?
                raise Violation("%s answers differently about a repository in another form" % q[0], question=q, plain=a, here=b, form=done, path=d, place=os.path.relpath(place, top), env=env)
        keys.append((tuple(x for x in done if "." not in x), os.path.relpath(place, top)[-8:], tuple(a[0] for a in first)))
        sample = {"form": done, "place": repr(os.path.relpath(place, top)), "statuses": [a[0] for a in first]}
        shutil.rmtree(top)
    ctx.stats["answered"] += sum(a[0] == 0 for a in first)
    return {"keys": keys, "evaluations": evals, "sample": sample}
