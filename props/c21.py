"""C21: git recent-refs sorts every reference by committer or author date."""
import os

from lib import core, gitat, gitrepo
from lib.core import Violation

TECHNIQUE = "reference-model monitor: the references the check itself wrote against the program's listing (complete, no repeats, sorted)"
NOTE = "Sampled repositories; the order of references with equal times is left open."
LEVEL = "exploration"
QUICK_S = 20
THOROUGH_S = 600
RULE = ("random repositories with branches, remote branches, notes, stash and other namespaces, loose, packed or both (a stale packed "
        "value under a loose one), annotated and nested tags, tags of trees and blobs, symbolic and dangling symbolic references, "
        "references to missing objects, leftover lock files and empty directories, in a few repositories thousands of them; times from 1970 to far in the future; author and committer times are independent, equal for "
        "some, with any zone. Distinct by numbers of references of each kind, sort key, storage and place.")
ASSUMPTIONS = ["files format references"]


FAMILIAR = ["refs/remotes/origin/main", "refs/remotes/origin/HEAD", "refs/remotes/up/master", "refs/notes/commits", "refs/bisect/bad", "refs/bisect/good-1", "refs/replaced/x",
            "refs/worktree/x", "refs/rewritten/onto", "refs/prefetch/remotes/origin/main", "refs/changes/01/1/meta", "refs/pull/1f/head", "refs/heads/master",
            "refs/heads/HEAD", "refs/tags/main", "refs/heads/tags", "refs/heads/refs/heads/main", "refs/heads/origin/main", "refs/meta/config", "refs/keep-around/x"]


def fill(r, rng, made, n):
    """References of all kinds; returns the number of each."""
    kinds = {}
    odd = rng.random() < 0.08
    space = ["refs/heads/", "refs/heads/", "refs/heads/feature/", "refs/tags/", "refs/remotes/origin/", "refs/remotes/up/x/", "refs/notes/",
             "refs/pull/", "refs/original/refs/heads/", "refs/"]
    for i in range(n):
        s = rng.choice(space)
        name = s + rng.choice(["%d", "b%d", "v%d.0", "ü%d", "a-%d", "x%d/y", "HEAD%d", "%d@x"]) % i
        if odd and rng.random() < 0.2:
            name = s + rng.choice(["caf\udce9%d", "\udcff%d/y", "x%d\udcc3"]) % i
        x = rng.random()
        o = rng.choice(made)
        if x < 0.5:
            k = "commit"
        elif x < 0.75:
            k = "tag"
            for _ in range(rng.choice([1, 1, 2, 4])):
                o = r.tag(o, b"t%d" % i, when=rng.randrange(2 ** 31), tagger=rng.random() < 0.8)
        elif x < 0.8:
            k, o = "tree", rng.choice([r.tree, r.blob])
        elif x < 0.85:
            k, o = "tag of tree", r.tag(rng.choice([r.tree, r.blob]), b"t%d" % i)
        elif x < 0.97:
            k = "symbolic"
            r.symrefs[name] = rng.choice(sorted(r.refs)) if r.refs and rng.random() < 0.8 else "refs/heads/gone"
            o = None
        else:
            k, o = "missing", "%040x" % rng.randrange(1, 16 ** 40)
        if o:
            r.refs[name] = o
        kinds[k] = kinds.get(k, 0) + 1
    return kinds


def jobs(ctx):
    return [300, 1500, 5000, 12000] + ([40000] if ctx.thorough else [])


def run_job(ctx, rng, job):
    return one(ctx, rng, job)


def case(ctx, rng, n):
    return one(ctx, rng, None)


def one(ctx, rng, count):
    bare = rng.random() < 0.3
    r = gitrepo.init(ctx, bare)
    made = gitrepo.graph(r, rng, rng.choice([1, 2, 4, 9, 20, 40]), lambda g, i: b"m%d\n" % i)
    # Very old and very new ones.
    for i in range(rng.choice([0, 0, 1, 3])):
        t = [rng.choice([0, 0, 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 33, rng.randrange(2 ** 34)]) for _ in range(2)]
        made.append(r.commit(r.tree, [], t[0], b"odd %d\n" % i, t[1], rng))
    # Some commits share their times with others.
    for i in range(rng.randrange(0, 4)):
        c = r.commits[rng.choice(made)]
        made.append(r.commit(r.tree, [], c.ctime, b"twin %d\n" % i, rng.choice([c.atime, rng.randrange(2 ** 31)]), rng))
    r.refs["refs/heads/main"] = made[-1]
    kinds = fill(r, rng, made, count or rng.choice([0, 1, 3, 8, 20, 50]))
    if rng.random() < 0.2:
        r.refs["refs/stash"] = rng.choice(made)
    linked = rng.random() < 0.15
    for name in FAMILIAR:
        # Those which belong to one working tree are not listed in another.
        if rng.random() < 0.08 and not (linked and name.startswith(("refs/bisect/", "refs/worktree/", "refs/rewritten/"))):
            r.refs[name] = rng.choice(made)
    for name in ("refs/remotes/origin/HEAD", "refs/remotes/up/HEAD", "refs/heads/default", "refs/heads/HEAD"):
        if rng.random() < 0.12:
            r.refs.pop(name, None)
            r.symrefs[name] = rng.choice(sorted(r.refs) + ["refs/remotes/origin/main"])
    if rng.random() < 0.15:
        del r.refs["refs/heads/main"]
    share = rng.choice([0.9, 1]) if count else rng.choice([0, 0.3, 0.7, 1])
    packed = {x for x in r.refs if rng.random() < share}
    stored = "loose" if not packed else "packed" if len(packed) == len(r.refs) else "both"
    r.flush_refs(packed)
    for x in sorted(packed):
        # A newer loose value hides the packed one.
        if rng.random() < 0.15:
            r.refs[x] = rng.choice(made)
            r.loose(x, r.refs[x])
            stored = "stale"
    missing = "missing" in kinds
    if not missing:
        stored += gitrepo.settle(ctx, r, rng) if rng.random() < 0.5 else ""
    if rng.random() < 0.2:
        r.loose("refs/heads/left.lock", made[0])
    if rng.random() < 0.2:
        os.makedirs(os.path.join(r.gitdir, "refs/heads/empty/dir"))
    if rng.random() < 0.2:
        r.loose("ORIG_HEAD", made[0])
    wt = gitrepo.worktree(ctx, r, rng.choice([made[0], "ref: refs/heads/main"])) if linked else None
    want = {}
    for name, o in r.refs.items():
        c = r.commits.get(r.peel(o))
        if c:
            want[name] = c
    keys = []
    sample = None
    for sort in ("committerdate", "authordate"):
        cwd = gitat.cwd_of(ctx, r, rng)
        if wt and rng.random() < 0.6:
            cwd = wt
        args = rng.choice([["--sort=" + sort], ["--sort", sort]])
        res = core.run(ctx, [ctx.bin("git-recent-refs"), *args], env=ctx.env(GIT_CONFIG_GLOBAL="/dev/null"), cwd=cwd)
        lines = res.out.decode("utf-8", "surrogateescape").split("\n")
        t = (lambda c: c.ctime) if sort == "committerdate" else (lambda c: c.atime)
        detail = {"args": args, "exit": res.rc, "stdout": res.out, "stderr": res.err, "stored": stored, "kinds": kinds,
                  "references": sorted((x, r.refs[x], t(want[x]) if x in want else None) for x in r.refs), "symbolic": r.symrefs}
        if res.rc != 0:
            raise Violation("git recent-refs %s failed" % args, **detail)
        if lines.pop() != "":
            raise Violation("the last line is incomplete", **detail)
        if len(set(lines)) != len(lines):
            raise Violation("a reference is listed twice", **detail)
        if core.known(ctx, "names-not-utf8") and set(lines) == {x for x in want if gitrepo.utf8(x)}:
            ctx.stats["known_finding_names_not_utf8"] += len(want) - len(lines)
        elif set(lines) != set(want):
            raise Violation("listed but should not be: %s; missing: %s" % (sorted(set(lines) - set(want))[:5], sorted(set(want) - set(lines))[:5]),
                            **detail)
        for a, b in zip(lines, lines[1:]):
            if t(want[a]) < t(want[b]):
                raise Violation("%s (%d) comes before %s (%d)" % (a, t(want[a]), b, t(want[b])), **detail)
        ctx.stats["references_listed"] += len(lines)
        ctx.stats["references_left_out"] += len(r.refs) + len(r.symrefs) - len(want)
        keys.append((sort, stored, len(lines), tuple(sorted(kinds.items())), cwd == r.path))
        sample = {"args": args, "listed": lines[:10], "stored": stored, "kinds": kinds}
    return {"keys": keys, "evaluations": 2, "sample": sample}
