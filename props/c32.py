"""C32: housekeeping and changes by others don't make git at or git recent-refs answer wrongly."""
import os

from lib import gitat, gitrepo, mon
from lib.core import Violation

TECHNIQUE = "controlled interference: the program is held at a system call (ptrace) while git repacks or changes the repository; reference-model monitor"
NOTE = ("Each run is disturbed by one or two complete git commands, at most one of which repacks objects, each between two system calls of the program; "
        "other interleavings of the same commands are not decided.")
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random repositories, in which a query is first made undisturbed, recording its system calls on the repository; then it is repeated "
        "with git packing references, repacking or pruning packed objects, rewriting the commit graph, or creating, moving or deleting "
        "references at one or two of those calls, or with a long history being replaced by another. git at must print what was right before, or after, and git recent-refs must list every "
        "reference which was not itself changed exactly once, in order, and changed ones as before or as after. Distinct by query, "
        "commands, and the calls before which they were made.")
ASSUMPTIONS = ["commands by the installed git take effect one reference at a time"]
KEEP = "-c gc.reflogExpire=never -c gc.reflogExpireUnreachable=never -c gc.auto=0 "
PLAIN = ["pack-refs --all --prune", "pack-refs --all --no-prune", "prune-packed -q", "commit-graph write --reachable --no-progress"]
PACKS = ["repack -a -d -q -k", "repack -d -q", "repack -a -d -q -f -k", "gc -q --no-prune", "multi-pack-index write --no-progress"]


def command(c):
    return " && ".join("git " + KEEP + x for x in c.split(" && git "))


def changes(rng, r, made):
    """A command which changes one reference: (command, name, old, new)."""
    name = rng.choice(["refs/heads/new", "refs/heads/a/new", "refs/tags/new"] + [x for x in sorted(r.refs) if x.startswith("refs/") and gitrepo.utf8(x)] * 2)
    old = r.refs.get(name)
    if old and rng.random() < 0.4 and name != "refs/heads/main":
        return "update-ref -d '%s'" % name, name, old, None
    new = rng.choice(made)
    return "update-ref '%s' %s" % (name, new), name, old, new


def run(ctx, r, argv, cwd, faults, scripts):
    env = ctx.env(GIT_CONFIG_GLOBAL="/dev/null", HOME=ctx.home if hasattr(ctx, "home") else "/nonexistent", GIT_AUTHOR_NAME="A", GIT_AUTHOR_EMAIL="a",
                  GIT_COMMITTER_NAME="A", GIT_COMMITTER_EMAIL="a")
    return mon.go(ctx, r.gitdir, [(argv, b"")], faults=faults, cwd=cwd, env=env, scripts=["cd '%s' && %s >/dev/null" % (r.path, s) for s in scripts])


def times(r, refs, key):
    out = {}
    for name, o in refs.items():
        if not name.startswith("refs/"):
            continue
        c = r.commits.get(r.peel(o))
        if c:
            out[name] = key(c)
    return out


def packing(ctx, rng, r, made):
    """A reference which is loose, and was packed with another value, is packed again at any of the calls which look for references."""
    names = [x for x in sorted(r.refs) if x.startswith("refs/heads/") and gitrepo.utf8(x) and r.peel(r.refs[x]) in r.commits]
    name = rng.choice(names)
    old, new = rng.choice(made), rng.choice(made)
    pack = "git pack-refs --all --prune"

    def stale():
        for v, pk in ((old, True), (new, False)):
            gitrepo.git(ctx, r.path, "update-ref", name, v)
            if pk:
                gitrepo.git(ctx, r.path, "pack-refs", "--all", "--prune")
    cwd = gitat.cwd_of(ctx, r, rng)
    at = rng.random() < 0.7
    walk = r.walk(new)
    if at:
        rev = rng.choice([name, name[5:], name[11:]])
        if name != rev and (any(x in r.refs for x in (rev, "refs/" + rev, "refs/tags/" + rev)) or "-" in rev[:1] or len(rev) < 2):
            rev = name
        argv = [ctx.bin("git-at"), rev, "<%d>" % made.index(rng.choice(walk).oid)]
    else:
        argv = [ctx.bin("git-recent-refs"), "--sort=" + rng.choice(["committerdate", "authordate"])]
    key = (lambda c: c.ctime) if "committer" in argv[1] else (lambda c: c.atime)
    keys = []
    stale()
    r.refs[name] = new
    time = times(r, r.refs, key)

    def same(out):
        a, b = (x.decode("utf-8", "surrogateescape").split("\n")[:-1] for x in (base.out[0], out))
        return a == b or not at and sorted(a) == sorted(b) and all(time[x] >= time[y] for x, y in zip(b, b[1:]))
    base = run(ctx, r, argv, cwd, [], [])
    evs = [e for e in base.of(0) if e.cls != mon.STD and e.name not in ("execve", "chdir", "close") and ("refs" in e.path or "HEAD" in e.path)]
    if base.ends.get(0, ("", 1)) != ("exit", 0) or not evs:
        raise Violation("an undisturbed query failed", argv=argv[1:], stderr=base.err[0])
    many = len(evs) if ctx.thorough else 14
    for e in evs if len(evs) <= many else rng.sample(evs, many):
        stale()
        res = run(ctx, r, argv, cwd, [(0, e.n, "run", 0)], [pack])
        keys.append(("packed", at, e.name, e.path.split(".git", 1)[-1][:40], e.n))
        ctx.stats["commands_in_between"] += 1
        ctx.stats["packed_again"] += 1
        if res.ends.get(0) != base.ends[0] or not same(res.out[0]):
            raise Violation("packing the references changed the answer of %s" % os.path.basename(argv[0]), argv=argv[1:], name=name, old=old, new=new, call=e.brief(),
                            before=base.out[0], status=res.ends, stdout=res.out[0], stderr=res.err[0], trace=[x.brief() for x in res.of(0)][-120:])
    return {"keys": keys, "evaluations": len(keys), "sample": {"query": argv[1:], "packed": name, "calls": len(keys)}}


def rewritten(ctx, rng):
    """A long history is replaced by another one at any of the calls."""
    r = gitrepo.init(ctx, bare=rng.random() < 0.5)
    tree = r.write("tree", b"")
    shared = [None]
    for i in range(rng.choice([1, 3, 30])):
        shared.append(r.commit(tree, [x for x in shared[-1:] if x], 1000000000 + i, b"commit <s%d>\n" % i))
    tips = []
    for side in b"ab":
        prev = shared[-1] if rng.random() < 0.8 else shared[rng.randrange(1, len(shared))]
        k = rng.choice([5, 60, 150, 300, 600, 1200])
        marks = {rng.randrange(k) for _ in range(rng.choice([0, 1, 1, 2]))}
        for i in range(k):
            prev = r.commit(tree, [prev], 1000001000 + 2 * i + side % 2, b"commit <%c%d>%s\n" % (side, i, b" mark" if i in marks else b""))
        tips.append(prev)
    r.refs["refs/heads/main"] = tips[0]
    r.refs["refs/heads/other"] = tips[1]
    r.refs["refs/heads/both"] = tips[0]
    r.flush_refs()
    gitrepo.git(ctx, r.path, "repack", "-a", "-d", "-q")
    if rng.random() < 0.3:
        gitrepo.git(ctx, r.path, "commit-graph", "write", "--reachable")
    keys, what = [], None
    for _ in range(4):
        r.loose("refs/heads/main", tips[0])
        opts = [o for o in ("--summary", "--no-fixup") if rng.random() < 0.3]
        p = rng.choice([b"mark", b"mark", b"<s0>", b"<[ab]%d>" % rng.choice([0, 1, 4, 55, 100]), b"absent", b"<a0>|<b0>"])
        rev = rng.choice([["HEAD"], [], ["main"], ["refs/heads/main"]])
        argv = [ctx.bin("git-at"), *opts, *rev, p.decode()]
        ok = set()
        for t in tips:
            w, _ = gitat.expected(r, t, p, True, "--summary" in opts, "--no-fixup" in opts)
            ok |= {(1, b"") if x is None else (0, x.encode() + b"\n") for x in w}
        base = run(ctx, r, argv, r.path, [], [])
        evs = [e for e in base.of(0) if e.cls != mon.STD and e.name not in ("execve", "chdir", "close")]
        todo = rng.sample(evs, min(len(evs), 10))
        # Above all, late ones.
        todo += [e for e in evs[-5:] if e not in todo]
        # And back again.
        for e in todo:
            r.loose("refs/heads/main", tips[0])
            faults = [(0, e.n, "run", 0)]
            later = [x for x in evs if x.n > e.n]
            if later and rng.random() < 0.3:
                faults.append((0, rng.choice(later).n, "run", 1))
            res = run(ctx, r, argv, r.path, faults, ["git update-ref refs/heads/main %s" % tips[1], "git update-ref refs/heads/main %s" % tips[0]])
            end = res.ends.get(0, ("", 1))
            if end[0] != "exit" or (end[1], res.out[0]) not in ok:
                raise Violation("git at gave a wrong answer (%s %d) while the history was replaced" % end, argv=argv[1:], acceptable=sorted(ok), stdout=res.out[0], stderr=res.err[0],
                                calls=[x.brief() for x in res.of(0) if x.n in [f[1] for f in faults]], trace=[x.brief() for x in res.of(0)][-60:])
            ctx.stats["histories_replaced"] += 1
            ctx.stats["commands_in_between"] += len(res.scripts)
            keys.append(("replaced", tuple(opts), p, e.name, e.path.split(".git", 1)[-1][:20], e.n, len(faults)))
    return {"keys": keys, "evaluations": len(keys), "sample": {"query": argv[1:], "replaced": True, "calls": len(keys)}}


def case(ctx, rng, n):
    if rng.random() < 0.1:
        return rewritten(ctx, rng)
    r, made = gitat.build(ctx, rng, n=rng.choice([2, 5, 9, 20, 40]), messages=lambda g, i: b"commit <%d>\n\n" % i + gitat.message(g, i))
    keys, evals, sample = [], 0, None
    if rng.random() < 0.25:
        gitrepo.git(ctx, r.path, "repack", "-a", "-d", "-q", "-k", check=False)
        gitrepo.git(ctx, r.path, "multi-pack-index", "write", "--no-progress", check=False)
        r.stored += "+midx"
    if rng.random() < 0.3:
        return packing(ctx, rng, r, made)
    for _ in range(3):
        what = rng.choice(["at", "at", "committerdate", "authordate", "visitdate"])
        start = r.resolve("HEAD")
        rev = "HEAD"
        if what == "at":
            rev = rng.choice([x for x in sorted(r.refs) if r.peel(r.refs[x]) in r.commits])
            start = r.peel(r.refs[rev])
            walk = r.walk(start)
            p = b"<%d>" % made.index(rng.choice(walk[len(walk) // 2:]).oid) if rng.random() < 0.7 else b"absent"
            argv = [ctx.bin("git-at"), rev, p.decode()]
        else:
            argv = [ctx.bin("git-recent-refs"), "--sort=" + what]
        cwd = gitat.cwd_of(ctx, r, rng)
        base = run(ctx, r, argv, cwd, [], [])
        evs = [e for e in base.of(0) if e.cls != mon.STD and e.name not in ("execve", "chdir", "close")]
        if base.ends.get(0, ("", 1))[0] != "exit" or not evs:
            raise Violation("an undisturbed query died", argv=argv[1:], stderr=base.err[0])
        cmds, alt = [], None
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if rng.random() < 0.35 and alt is None:
                alt = changes(rng, r, made)
                cmds.append(alt[0])
            else:
                cmds.append(rng.choice(PLAIN + PACKS))
        at = set()
        while len(at) < min(len(evs), len(cmds)):
            # Often where it looks for what is packed.
            near = [e for e in evs if "pack" in e.path] if rng.random() < 0.5 else evs
            at.add(rng.choice(near or evs).n)
            if near and len(near) < len(cmds):
                at.add(rng.choice(evs).n)
        at = sorted(at)[:len(cmds)]
        res = run(ctx, r, argv, cwd, [(0, k, "run", i) for i, k in enumerate(at)], [command(c) for c in cmds])
        detail = {"argv": argv[1:], "commands": list(zip(at, cmds, res.scripts)), "before": base.out[0], "before_status": base.ends, "stdout": res.out[0], "status": res.ends,
                  "stderr": res.err[0], "stored": r.stored, "trace": [e.brief() for e in res.of(0)][-120:]}
        evals += 1
        ran = [x for x in res.scripts if x[2] == 0]
        ctx.stats["commands_in_between"] += len(ran)
        ctx.stats["commands_failed"] += len(res.scripts) - len(ran)
        befores, afters = dict(r.refs), dict(r.refs)
        if alt:
            _, name, old, new = alt
            if gitrepo.git(ctx, r.path, "rev-parse", "-q", "--verify", name, check=False).stdout.decode().strip() == (new or ""):
                if new:
                    afters[name] = new
                else:
                    afters.pop(name, None)
            r.refs = afters
        if res.ends.get(0, ("", 1))[0] != "exit":
            raise Violation("the program died while the repository changed", **detail)
        status, out = res.ends[0][1], res.out[0]
        if what == "at":
            ok = set()
            for refs in (befores, afters):
                o = refs.get(rev)
                if o is None:
                    ok.add((1, b""))
                    continue
                w, _ = gitat.expected(r, r.peel(o), p, True, False, False)
                ok |= {(1, b"") if x is None else (0, x.encode() + b"\n") for x in w}
            detail["acceptable"] = sorted(ok)
            if status == 2 and not out and res.err[0] and any(c in PACKS for c in cmds):
                # The library does not always find objects which were repacked, and it says so.
                ctx.stats["errors_reported"] += 1
            elif (status, out) not in ok:
                raise Violation("git at gave a wrong answer (status %d) while the repository changed" % status, **detail)
        elif what == "visitdate":
            if not alt and (status, out) != (0, base.out[0]):
                raise Violation("git recent-refs listed other visits while the repository was repacked", **detail)
            if status != 0:
                raise Violation("git recent-refs failed (%d) while the repository changed" % status, **detail)
        else:
            key = (lambda c: c.ctime) if what == "committerdate" else (lambda c: c.atime)
            t1, t2 = times(r, befores, key), times(r, afters, key)
            lines = out.decode("utf-8", "surrogateescape").split("\n")[:-1]
            same = {x for x in t1 if x in t2 and t1[x] == t2[x]}
            if status != 0:
                raise Violation("git recent-refs failed (%d) while the repository changed" % status, **detail)
            if len(set(lines)) != len(lines):
                raise Violation("a reference was listed twice while the repository changed", **detail)
            gone = same - set(lines)
            if gone:
                raise Violation("references were left out while the repository changed: %s" % sorted(gone)[:4], **detail)
            if set(lines) - set(t1) - set(t2):
                raise Violation("references were made up while the repository changed", **detail)
            fixed = [x for x in lines if x in same]
            for a, b in zip(fixed, fixed[1:]):
                if t1[a] < t1[b]:
                    raise Violation("%s comes before %s" % (a, b), **detail)
        ctx.stats["queries_" + what] += 1
        keys.append((what, tuple(c.split(" '")[0] for c in cmds), tuple(next((e.name, e.path.split(".git", 1)[-1][:20]) for e in evs if e.n == k) for k in at)))
        sample = {"query": argv[1:], "commands": list(zip(at, cmds)), "status": status}
    return {"keys": keys, "evaluations": evals, "sample": sample}
