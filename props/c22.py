"""C22: git recent-refs lists visits from most to least recent."""
import os

from lib import core, gitat, gitrepo
from lib.core import Violation

TECHNIQUE = "trace monitor: the log of HEAD as recorded by Git, read independently, against the program's listing"
NOTE = "Histories made by the installed Git and written by the check; names are unambiguous."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("histories of HEAD made by running git (checkout, switch -c, checkout -B, detached and orphan checkouts, commit, amend, reset, merge, "
        "rename, delete, re-create branches, linked working trees) and histories written directly to the log (thousands of entries, other "
        "entries between, revision expressions checked out, odd messages, unknown names and commits). The oracle reads the log line by line. Distinct "
        "by the sequence of kinds of visits (branch, gone, commit, unknown) and the state of HEAD.")
ASSUMPTIONS = ["names of branches which are gone are not also names of tags, remotes or commits", "a detached HEAD may be listed as HEAD or as its commit"]


def parse_log(gitdir):
    """The names that checkouts left, the most recent first."""
    out = []
    try:
        with open(os.path.join(gitdir, "logs/HEAD"), "rb") as f:
            data = f.read()
    except OSError:
        return out
    for line in data.split(b"\n"):
        if b"\t" not in line:
            continue
        m = line.split(b"\t", 1)[1]
        pre = b"checkout: moving from "
        if m.startswith(pre) and b" to " in m[len(pre):]:
            out.append(m[len(pre):].split(b" to ", 1)[0].decode("utf-8", "surrogateescape"))
    return out[::-1]


def expected(head, names, branches, commits):
    """head: list of acceptable first lines, or [] when unborn."""
    out, kinds = [], []
    for x in names:
        if x in branches:
            out.append("refs/heads/" + x)
            kinds.append("b")
        elif x in commits:
            out.append(x)
            kinds.append("c")
        else:
            kinds.append("u" if len(x) == 40 else "g")
    return out, "".join(kinds)


def check(ctx, cwd, args, head, names, branches, commits, extra):
    res = core.run(ctx, [ctx.bin("git-recent-refs"), *args], env=ctx.env(GIT_CONFIG_GLOBAL="/dev/null"), cwd=cwd)
    lines = res.out.decode("utf-8", "surrogateescape").split("\n")
    want, kinds = expected(head, names, branches, commits)
    detail = {"args": args, "exit": res.rc, "stdout": res.out, "stderr": res.err, "left_by_checkouts": names[:200], "branches": sorted(branches),
              "head": head, **extra}
    if res.rc != 0:
        raise Violation("git recent-refs failed", **detail)
    if lines.pop() != "":
        raise Violation("the last line is incomplete", **detail)
    got = list(lines)
    if core.known(ctx, "names-not-utf8"):
        # Exactly those names which are not UTF-8 may be missing.
        seen = [h for h in head if gitrepo.utf8(h)]
        some = [x for x in want if gitrepo.utf8(x)]
        if (len(seen), len(some)) != (len(head), len(want)) and (got == some if not seen else got[:1] == seen[:1] and got[1:] == some):
            ctx.stats["known_finding_names_not_utf8"] += 1
            return (tuple(head[:1]) and head[0][:11], kinds)
    if head:
        if not got or got[0] not in head:
            raise Violation("the first line should be the current HEAD, %s" % head[0], **detail)
        got = got[1:]
    if got != want:
        i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
        raise Violation("after HEAD, line %d should be %s but is %s" % (
            i + 1, want[i] if i < len(want) else "absent", got[i] if i < len(got) else "absent"), **detail)
    ctx.stats["visits_listed"] += len(want)
    ctx.stats["visits_gone"] += len(kinds) - len(want)
    return (tuple(head[:1]) and head[0][:11], kinds)


def current(ctx, cwd):
    p = gitrepo.git(ctx, cwd, "symbolic-ref", "-q", "HEAD", check=False)
    q = gitrepo.git(ctx, cwd, "rev-parse", "-q", "--verify", "HEAD", check=False)
    if q.returncode:
        return []
    if p.returncode == 0:
        return [p.stdout.decode("utf-8", "surrogateescape").rstrip("\n")]
    return ["HEAD", q.stdout.decode().strip()]


NAMES = ["dev", "feature/x", "feature/to/y", "é", "a-b", "fix#1", "to", "from", "moving", "checkout", "b.c", "main2", "x@y", "v", "long" * 20]


# Not UTF-8.
ODD = ["caf\udce9", "x/\udcff\udcfe", "\udcc3"]


def pick_names(rng):
    return NAMES + ODD if rng.random() < 0.08 else NAMES


def real(ctx, rng):
    names_ = pick_names(rng)
    d = os.path.join(ctx.dir("real"), "r")
    os.makedirs(d)
    gitrepo.git(ctx, d, "init", "-q", "-b", "main")
    clock = [1600000000]
    ops = []

    def g(*a, cwd=d, check=False, env=None):
        clock[0] += rng.choice([0, 1, 100])
        t = "%d +0000" % clock[0]
        p = gitrepo.git(ctx, cwd, *a, check=check, env={"GIT_AUTHOR_DATE": t, "GIT_COMMITTER_DATE": t, **(env or {})})
        ops.append(" ".join(os.fsdecode(x) for x in a) + (" (failed)" if p.returncode else ""))
        return p.returncode == 0

    g("commit", "-q", "--allow-empty", "-m", "first", check=True)
    if rng.random() < 0.5:
        g("tag", "-a", "-m", "x", "rel-1")
    wts = [d]
    branches = ["main"]
    for _ in range(rng.randrange(2, 26)):
        cwd = rng.choice(wts)
        x = rng.random()
        b = rng.choice(names_)
        if x < 0.25:
            g("checkout", "-q", rng.choice(branches + ["-", "HEAD~1", ":/work to do", "HEAD^{/moving from}", b":/caf\xe9"]), cwd=cwd)
        elif x < 0.4:
            if g(*rng.choice([("checkout", "-q", "-b", b), ("switch", "-q", "-c", b), ("checkout", "-q", "-B", b)]), cwd=cwd):
                branches.append(b)
        elif x < 0.5:
            g(*rng.choice([("checkout", "-q", "--detach"), ("checkout", "-q", "HEAD~0"), ("checkout", "-q", "rel-1"), ("switch", "-q", "--detach", "main")]),
              cwd=cwd)
        elif x < 0.68:
            g("commit", "-q", "--allow-empty", "-m", rng.choice(["work", "work to do", b"caf\xe9 to go", "checkout: moving from main to dev", "x\n\ny"]), cwd=cwd)
        elif x < 0.72:
            g("commit", "-q", "--allow-empty", "--amend", "-m", "amended", cwd=cwd)
        elif x < 0.76:
            g("reset", "-q", rng.choice(["--hard", "--soft"]), rng.choice(["HEAD~1", "HEAD", "main"]), cwd=cwd)
        elif x < 0.84:
            g("branch", "-D", rng.choice(branches), cwd=cwd)
        elif x < 0.89:
            if g("branch", b, cwd=cwd):
                branches.append(b)
        elif x < 0.92:
            if g("branch", "-M", rng.choice(branches), b, cwd=cwd):
                branches.append(b)
        elif x < 0.94:
            g("merge", "-q", "--no-ff", "-m", "m", rng.choice(branches), cwd=cwd)
        elif x < 0.96:
            g("checkout", "-q", "--orphan", b, cwd=cwd)
        elif x < 0.98 and len(wts) < 3:
            p = ctx.dir("wt") + "/w"
            if g("worktree", "add", "-q", p, *rng.choice([("--detach",), ("-b", b)])):
                wts.append(p)
        else:
            g("pack-refs", "--all")
    keys = []
    for cwd in wts:
        gd = gitrepo.git(ctx, cwd, "rev-parse", "--absolute-git-dir").stdout.decode().rstrip("\n")
        names = parse_log(gd)
        have = gitrepo.git(ctx, cwd, "for-each-ref", "--format=%(refname)", "refs/heads").stdout.decode("utf-8", "surrogateescape").split("\n")
        have = {h[11:] for h in have if h}
        commits = {x for x in names if len(x) == 40 and
                   gitrepo.git(ctx, cwd, "cat-file", "-e", x + "^{commit}", check=False).returncode == 0}
        args = rng.choice([[], ["--sort=visitdate"]])
        keys.append(check(ctx, cwd, args, current(ctx, cwd), names, have, commits, {"commands": ops}))
        ctx.stats["git_commands"] += len(ops)
    return keys, {"commands": ops[:30]}


def written(ctx, rng):
    r = gitrepo.init(ctx, rng.random() < 0.3)
    made = gitrepo.graph(r, rng, rng.choice([2, 5, 12]), lambda g, i: b"m%d\n" % i)
    r.refs["refs/heads/main"] = made[-1]
    names_ = pick_names(rng)
    have = [x for x in names_ if rng.random() < 0.5]
    for x in have:
        r.refs["refs/heads/" + x] = rng.choice(made)
    have = set(have) | {"main"}
    for x in sorted(have):
        # A branch is meant, whatever else has its name.
        if rng.random() < 0.15:
            r.refs[rng.choice(["refs/tags/", "refs/remotes/", "refs/"]) + x] = rng.choice([rng.choice(made), r.tag(made[0])])
    head = ["refs/heads/main"]
    if rng.random() < 0.2:
        del r.refs["refs/heads/main"]
        r.refs = {k: v for k, v in r.refs.items() if not k.endswith("/main")}
        have.discard("main")
        head = []
    r.flush_refs({x for x in r.refs if rng.random() < rng.choice([0, 0.5, 1])})
    if rng.random() < 0.25:
        r.loose("HEAD", made[0])
        head = ["HEAD", made[0]]
    pool = names_ + ["main", "nosuch"] + rng.sample(made, min(3, len(made))) + ["%040x" % rng.randrange(16 ** 40)]
    lines, prev = [], rng.choice(pool)
    zero = "0" * 40
    for i in range(rng.choice([0, 1, 2, 5, 15, 40, 120, 120, 1500 if ctx.thorough else 400] + ([1300, 5000] if rng.random() < 0.1 else []))):
        x = rng.random()
        if x < 0.7:
            nxt = rng.choice(pool)
            to = nxt if rng.random() < 0.9 else rng.choice([":/up to date", "HEAD^{/from a to b}", ":/caf\udce9", "HEAD@{1 day ago}", " to "])
            msg = "checkout: moving from %s to %s" % (prev, to)
            prev = nxt if rng.random() < 0.95 else rng.choice(pool)
        else:
            msg = rng.choice(["commit: x", "commit: checkout: moving from main to dev", "reset: moving to HEAD~1", "rebase (start): checkout main",
                              "checkout: moving", "checkout:", "commit (amend): to", " checkout: moving from main to dev", "clone: from u", "",
                              "Checkout: moving from main to dev", "pull: Fast-forward", "rebase -i (finish): returning to refs/heads/main"])
        lines.append("%s %s N <n@example.com> %d %s%s" % (zero if i == 0 else rng.choice(made), rng.choice(made), 1500000000 + i,
                                                          rng.choice(["+0000", "-0700"]), "\t" + msg))
    os.makedirs(os.path.join(r.gitdir, "logs"))
    with open(os.path.join(r.gitdir, "logs/HEAD"), "wb") as f:
        f.write("".join(x + "\n" for x in lines).encode("utf-8", "surrogateescape"))
    cwd = gitat.cwd_of(ctx, r, rng)
    k = check(ctx, cwd, rng.choice([[], ["--sort=visitdate"], ["--sort", "visitdate"]]), head, parse_log(r.gitdir), have, set(made),
              {"log": lines[-60:]})
    return [k], {"log": lines[-5:]}


def case(ctx, rng, n):
    keys, sample = (real if rng.random() < 0.25 else written)(ctx, rng)
    return {"keys": keys, "evaluations": len(keys), "sample": sample}
