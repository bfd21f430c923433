"""C30: damage to a repository never makes git at or git recent-refs give a wrong answer."""
import os
import re
import shutil
import zlib

from lib import core, gitat, gitrepo
from lib.core import Violation

TECHNIQUE = "fault injection into the repository's files; reference-model monitor knowing what was there before"
NOTE = "Commits which are missing, unreadable or no commits, and broken references; not damage which still reads as a valid, different commit."
LEVEL = "exploration"
QUICK_S = 20
THOROUGH_S = 600
RULE = ("random repositories (loose, partly packed, with or without a commit graph) in which up to three commits below the starting one are "
        "removed, emptied, replaced by garbage, by another type of object, by a commit without a committer, by a directory or dangling "
        "link, or made unreadable, or their alternate store is lost, and now and then their tree is as well. Patterns match a damaged commit, an earlier or later one, or none. "
        "git at must print what was right before the damage or report an error with status 2; where no damage can be reached it must answer "
        "as ever. Then references are broken (empty, garbage, unreadable, pointing nowhere or at themselves); git recent-refs must list all the others in order. "
        "Distinct by damage, storage, depth of the damage and of the match, options and outcome.")
ASSUMPTIONS = ["libgit2 itself never stops on a loose object cut short inside its data, so that damage is left out",
               "libgit2 itself stops reading references at a dangling symbolic link in the file system"]
KINDS = ["missing", "missing", "missing", "empty", "garbage", "type", "nocommitter", "header", "directory", "dangling", "unreadable", "nodir"]


def objpath(r, oid):
    return os.path.join(r.gitdir, "objects", oid[:2], oid[2:])


def damage(r, rng, oid, kind):
    p = objpath(r, oid)
    d = os.path.dirname(p)
    if kind == "nodir":
        # Everything in that directory goes.
        gone = [d[-2:] + f for f in os.listdir(d)]
        shutil.rmtree(d)
        return gone
    if kind == "unreadable":
        os.chmod(p, 0)
        return [oid]
    os.unlink(p)
    t = None
    if kind == "empty":
        t = b""
    elif kind == "garbage":
        t = rng.choice([b"hello\n", rng.randbytes(100), b"\0" * 200, b"commit 10\0tree"])
    elif kind == "type":
        k, b = rng.choice([(b"blob", b""), (b"blob", b"needle"), (b"tree", b"")])
        t = zlib.compress(k + b" %d\0" % len(b) + b)
    elif kind == "nocommitter":
        b = b"tree " + r.tree.encode() + b"\n" + rng.choice([b"", b"author A <a> 1 +0000\n"]) + b"\nneedle\n"
        t = zlib.compress(b"commit %d\0" % len(b) + b)
    elif kind == "header":
        t = zlib.compress(rng.choice([b"comit 3\0abc", b"commit \0abc", b"commit x\0abc", b"", b"commit"]))
    elif kind == "directory":
        os.mkdir(p)
    elif kind == "dangling":
        os.symlink("nowhere", p)
    if t is not None:
        with open(p, "wb") as f:
            f.write(t)
    return [oid]


def case(ctx, rng, n):
    r = gitrepo.init(ctx, rng.random() < 0.3)
    made = gitrepo.graph(r, rng, rng.choice([2, 3, 5, 9, 20, 40]), lambda g, i: b"commit <%d>\n\n" % i + gitat.message(g, i))
    r.refs["refs/heads/main"] = made[-1]
    for i in range(rng.randrange(1, 5)):
        r.refs["refs/heads/b%d" % i] = rng.choice(made)
    r.refs["refs/tags/t"] = r.tag(rng.choice(made), b"t")
    r.flush_refs({x for x in r.refs if rng.random() < rng.choice([0, 0, 0.5, 1])})
    start = rng.choice([made[-1], made[-1], rng.choice(made)])
    below = [c.oid for c in r.walk(start) if c.oid != start]
    stored = rng.choice(["loose", "loose", "packed", "graph", "packed+graph", "alternate"])
    if "graph" in stored:
        gitrepo.git(ctx, r.path, "commit-graph", "write", "--reachable", "--no-progress")
    victims = rng.sample(below, min(len(below), rng.choice([0, 1, 1, 1, 2, 3])))
    if "packed" in stored:
        keep = {o for o in r.objects if o not in victims and (o == start or rng.random() < 0.6)}
        if keep:
            gitrepo.git(ctx, r.path, "pack-objects", "-q", os.path.join(r.gitdir, "objects/pack/pack"), stdin="\n".join(sorted(keep)).encode() + b"\n")
            gitrepo.git(ctx, r.path, "prune-packed", "-q")
    bad = set()
    if stored == "alternate":
        alt = os.path.join(ctx.dir("alt"), "objects")
        os.mkdir(alt)
        for o in victims:
            os.makedirs(os.path.join(alt, o[:2]), exist_ok=True)
            os.rename(objpath(r, o), os.path.join(alt, o[:2], o[2:]))
        with open(os.path.join(r.gitdir, "objects/info/alternates"), "w") as f:
            f.write(alt + "\n")
        # Now and then it is still there.
        kinds = ["alternate"]
        if rng.random() < 0.8:
            bad = set(victims)
            if rng.random() < 0.5:
                shutil.rmtree(os.path.dirname(alt))
            else:
                os.chmod(alt, 0)
    else:
        kinds = []
        for o in victims:
            k = rng.choice(KINDS)
            if os.path.exists(objpath(r, o)):
                if k == "nodir" and os.path.exists(objpath(r, start)) and start[:2] == o[:2]:
                    k = "missing"
                kinds.append(k)
                bad.update(damage(r, rng, o, k))
    if rng.random() < 0.3 and os.path.exists(objpath(r, r.tree)):
        # Nobody needs what is in the commits.
        damage(r, rng, r.tree, rng.choice([k for k in KINDS if k != "nodir"]))
        ctx.stats["damaged_trees"] += 1
    hurt = {o for o in bad if o in r.commits}
    keys, evals, sample = [], 0, None
    names = [x for x in r.refs if r.peel(r.refs[x]) == start and r.refs[x] not in bad] + [start]
    starts = [(rng.choice(names), start)] * 5
    for x in sorted(r.refs):
        if r.refs[x] not in bad and r.peel(r.refs[x]) not in bad:
            starts.append((x, r.peel(r.refs[x])))
    for rev, s in starts:
        walk = r.walk(s)
        depths = [i for i, c in enumerate(walk) if c.oid in hurt]
        x = rng.random()
        summary, no_fixup, quiet = rng.random() < 0.2, rng.random() < 0.15, rng.random() < 0.4
        if x < 0.3 and depths:
            p = b"<%d>" % made.index(walk[rng.choice(depths)].oid)
            what = "damaged"
        elif x < 0.6:
            p, what = b"<%d>" % made.index(rng.choice(walk).oid), "any"
        elif x < 0.8:
            p, what = b"absent", "none"
        else:
            p, what = re.escape(rng.choice(gitat.WORDS)), "word"
        want, _ = gitat.expected(r, s, p, True, summary, no_fixup)
        if not want:
            continue
        args = ["-s"] * summary + ["--no-fixup"] * no_fixup + ["-q"] * quiet + [rev, p.decode()]
        res = gitat.run(ctx, r, args, cwd=gitat.cwd_of(ctx, r, rng))
        detail = {"args": args, "exit": res.rc, "stdout": res.out, "stderr": res.err, "acceptable": sorted(str(w) for w in want),
                  "damage": list(zip(victims, kinds * 9)), "damaged": sorted(hurt), "stored": stored,
                  "walk": [(c.oid, c.ctime, c.message[:60], c.oid in hurt) for c in walk][:60]}
        got = res.out.decode("latin-1").rstrip("\n")
        evals += 1
        if res.rc < 0 or b"panicked" in res.err:
            raise Violation("git at died in a damaged repository", **detail)
        if res.rc == 0:
            if got not in want:
                raise Violation("git at printed %r although %s came first before the damage" % (got, sorted(str(w) for w in want)), **detail)
            out = "right"
        elif res.out:
            raise Violation("git at failed but printed something", **detail)
        elif not depths:
            if None not in want or res.rc != 1:
                raise Violation("git at failed (%d) although all of its history is intact" % res.rc, **detail)
            out = "nomatch"
        else:
            if res.rc == 1:
                raise Violation("git at says that nothing matches, or that the revision is missing, although it could not read the history",
                                **detail)
            if res.rc != 2 or not res.err.strip():
                raise Violation("git at did not report the damage (status %d)" % res.rc, **detail)
            out = "error"
        ctx.stats["git_at_" + out] += 1
        keys.append((stored, tuple(kinds), tuple(depths), what, summary, no_fixup, quiet, out, len(walk)))
        sample = {"args": args, "damage": kinds, "exit": res.rc, "stderr": res.err.decode("latin-1")}
    e, k = listing(ctx, rng, r, bad, stored, kinds)
    ctx.stats["repositories"] += 1
    ctx.stats["damaged_commits"] += len(hurt)
    for k2 in set(kinds):
        ctx.stats["damage_" + k2] += 1
    return {"keys": keys + k, "evaluations": evals + e, "sample": sample}


def listing(ctx, rng, r, bad, stored, kinds):
    """Breaks some references and lists the rest."""
    broken = []
    for i in range(rng.randrange(0, 4)):
        p = os.path.join(r.gitdir, rng.choice(["refs/heads/broken%d", "refs/tags/b%d", "refs/heads/A/b%d", "refs/heads/zz%d"]) % i)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        k = rng.choice(["empty", "garbage", "short", "unreadable", "symbolic", "loop", "nul", "zero"])
        broken.append(k)
        t = {"empty": "", "garbage": "hello\n", "short": "1234abcd\n", "symbolic": "ref: refs/heads/nowhere\n", "nul": "\0" * 41,
             "loop": "ref: " + os.path.relpath(p, r.gitdir) + "\n", "zero": "0" * 40 + "\n"}.get(k, r.refs["refs/heads/main"] + "\n")
        with open(p, "w") as f:
            f.write(t)
        if k == "unreadable":
            os.chmod(p, 0)
    # What a lost tag pointed at may be known from packed-refs.
    lost, shown, either = {}, {}, set()
    for x, o in r.refs.items():
        chain = [o]
        while chain[-1] in r.tags:
            chain.append(r.tags[chain[-1]])
        (lost if any(c in bad for c in chain) else shown)[x] = r.commits[chain[-1]]
        if x in lost and chain[-1] not in bad:
            either.add(x)
    keys = []
    for sort in ("committerdate", "authordate", "visitdate"):
        res = core.run(ctx, [ctx.bin("git-recent-refs"), "--sort=" + sort], env=ctx.env(GIT_CONFIG_GLOBAL="/dev/null"), cwd=r.path)
        lines = res.out.decode("utf-8", "surrogateescape").split("\n")
        detail = {"sort": sort, "exit": res.rc, "stdout": res.out, "stderr": res.err, "stored": stored, "damage": kinds, "broken": broken,
                  "lost": sorted(lost), "shown": sorted(shown)}
        if res.rc != 0 or b"panicked" in res.err:
            raise Violation("git recent-refs failed because of a broken reference or commit", **detail)
        if lines.pop() != "":
            raise Violation("the last line is incomplete", **detail)
        if sort != "visitdate":
            t = (lambda c: c.ctime) if sort == "committerdate" else (lambda c: c.atime)
            if set(lines) - either != set(shown) or len(lines) != len(set(lines)):
                raise Violation("listed but should not be: %s; missing: %s" % (
                    sorted(set(lines) - set(shown)), sorted(set(shown) - set(lines))), **detail)
            for a, b in zip(lines, lines[1:]):
                if t(shown.get(a) or lost[a]) < t(shown.get(b) or lost[b]):
                    raise Violation("%s comes before %s" % (a, b), **detail)
        ctx.stats["listings"] += 1
        keys.append((sort, stored, tuple(sorted(broken)), len(lost), len(lines)))
    return len(keys), keys
