"""C18: git at prints the first matching commit in commit-date order."""
import re

from lib import gitat, gitrepo, pcre
from lib.core import Violation

TECHNIQUE = "reference-model monitor: own walk of the graph and PCRE2/Python matching against git at's output"
NOTE = "Sampled graphs, messages and patterns; committer times within a repository are distinct."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random commit graphs (linear, merges up to five parents, several roots, skewed dates; loose, packed, with a commit graph; signed "
        "and re-encoded commits; arbitrary message bytes), queried from branches, tags (annotated, nested), HEAD, abbreviations, ancestors, "
        "subdirectories and bare repositories, with literal and random regular expressions. The oracle knows every commit because it wrote "
        "them, walks the graph itself and matches with PCRE2 (and Python where the two agree on the syntax). Queries are distinct by the "
        "shape of the walk: commits passed, result, storage and revision form.")
ASSUMPTIONS = ["no grafts, replacements or shallow clones", "distinct committer times", "message bytes after a NUL and blank lines in "
               "front of a message may or may not count"]


def query(ctx, r, rng, revs, summary, no_fixup, opts=(), pat=None):
    rev, start = rng.choice(revs)
    if start is None:
        return None
    p, simple = pcre.pattern(rng, gitat.WORDS)
    x = rng.random()
    if x < 0.35:
        # Something which only a few have.
        c = rng.choice([r.commits[o] for o in r.order])
        m = c.message.replace(b"\0", b"")
        a = rng.randrange(0, len(m) + 1)
        s = m[a:a + rng.randrange(1, 12)]
        try:
            s.decode()
        except UnicodeDecodeError:
            s = b""
        if s:
            p, simple = re.escape(s), True
    elif x < 0.45:
        p, simple = b"\\b%d\\b" % rng.randrange(len(r.order) + 2), True
    elif x < 0.5:
        p, simple = rng.choice([b"", b".", b"(?s)^.*$", b"\\A", b"^\\S", b"[^\\x00-\\x7f]", b"\\xff", b" ", b" $", b"\\n\\n"]), True
    if pat is not None:
        p, simple = pat, b"\\Z" not in pat and b"(?m)" not in pat
    try:
        p.decode()
        want, walked = gitat.expected(r, start, p, simple, summary, no_fixup)
    except (pcre.Invalid, UnicodeDecodeError):
        return None
    if not want:
        return None
    args = list(opts)
    if rng.random() < 0.2:
        args.append("-q")
    ps = p.decode()
    if rev is None:
        pos = (["--"] if ps.startswith("-") or rng.random() < 0.1 else []) + [ps]
    else:
        # The command line can't express a revision and a pattern which starts with a dash.
        pos = [rev, "(?:)" + ps if ps.startswith("-") else ps]
    args += pos
    cwd = gitat.cwd_of(ctx, r, rng)
    res = gitat.run(ctx, r, args, cwd=cwd)
    detail = {"args": args, "exit": res.rc, "stdout": res.out, "stderr": res.err, "acceptable": sorted(str(w) for w in want),
              "start": start, "walk": [(c.oid, c.ctime, c.message[:120]) for c in r.walk(start)][:60],
              "stored": r.stored}
    return args, rev, want, walked, res, detail


def judge(want, res, detail):
    """Compares the outcome with what is acceptable."""
    got = res.out.decode("latin-1")
    if res.rc == 0:
        if got.rstrip("\n") not in want:
            raise Violation("git at printed %r but the first matching commit is %s" % (
                got, " or ".join(str(w) for w in sorted(want, key=str))), **detail)
    elif None not in want or res.rc != 1:
        raise Violation("git at found no commit (exit status %d) but %s matches" % (
            res.rc, sorted(str(w) for w in want)), **detail)


HARD = [("^(a+)+$|needle", b"a" * 60 + b" needle"), ("(x+x+)+y|needle", b"x" * 60 + b" needle"), ("^(?:a|aa)+$|needle", b"a" * 90 + b"! needle\n"),
        ("^(?:(\\w+)\\s?)*$|needle", b"word" * 20 + b"!\n\nneedle\n"), ("(?:[ab]|b)*c|needle", b"b" * 50 + b" needle")]


def hard(ctx, rng):
    """Messages on which matching gives up: no answer may be given which takes them for messages that don't match."""
    pat, msg = rng.choice(HARD)
    r = gitrepo.init(ctx, True)
    at = rng.randrange(4)
    made = gitrepo.graph(r, rng, 6, lambda g, i: msg if i == 5 - at else b"needle %d\n" % i if i < 5 - at else b"!\n", style="linear", skew=0)
    r.refs["refs/heads/main"] = made[-1]
    r.flush_refs()
    r.stored = "loose"
    args = [o for o in ("--summary", "--no-fixup", "--quiet") if rng.random() < 0.2 and b"\n" not in msg] + [pat]
    res = gitat.run(ctx, r, args)
    detail = {"args": args, "exit": res.rc, "stdout": res.out, "stderr": res.err, "message": msg, "right": made[5 - at]}
    if not (res.rc == 0 and res.out.decode("latin-1").strip() == made[5 - at] or res.rc == 2 and res.out == b"" and res.err):
        raise Violation("git at passed over a message which is too hard to match", **detail)
    ctx.stats["hard_given_up" if res.rc else "hard_found"] += 1
    return {"key": ("hard", pat, at, tuple(args), res.rc), "evaluations": 1}


def jobs(ctx):
    return [("hard", i) for i in range(12)] + [("linear", 4000), ("bushy", 3000), ("linear", 20000 if ctx.thorough else 6000)]


def run_job(ctx, rng, job):
    """Long histories, where only the oldest commits match."""
    style, n = job
    if style == "hard":
        return hard(ctx, rng)
    r = gitrepo.init(ctx, True)
    made = gitrepo.graph(r, rng, n, lambda g, i: b"commit %d\n\nneedle\n" % i if i in (0, 3) else b"commit %d\n" % i, style=style, skew=0)
    r.refs["refs/heads/main"] = made[-1]
    r.flush_refs()
    r.stored = "large"
    gitrepo.git(ctx, r.path, "repack", "-q", "-a", "-d")
    keys = []
    for start in [made[-1], made[-2], made[n // 2]]:
        for p in (b"needle", b"commit 1$", b"(?m)^commit 0$", b"absent"):
            want, walked = gitat.expected(r, start, p, True, False, False)
            res = gitat.run(ctx, r, [start, p.decode()])
            judge(want, res, {"args": [start, p], "exit": res.rc, "stdout": res.out, "stderr": res.err, "job": job,
                              "acceptable": sorted(str(w) for w in want)})
            keys.append((job, walked, p))
            ctx.stats["commits_walked_by_oracle"] += walked
    return {"keys": keys, "evaluations": len(keys)}


def case(ctx, rng, n):
    r, made = gitat.build(ctx, rng)
    revs = gitat.revisions(ctx, r, rng, made)
    keys, evals, sample = [], 0, None
    for _ in range(30):
        q = query(ctx, r, rng, revs, False, False)
        if q is None:
            continue
        args, rev, want, walked, res, detail = q
        judge(want, res, detail)
        evals += 1
        ctx.stats["commits_walked_by_oracle"] += walked
        ctx.stats["found" if res.rc == 0 else "not_found"] += 1
        keys.append((walked, res.rc, r.stored, None if rev is None else "".join(c for c in rev if c in "~^{}@") + str(len(rev)), len(made)))
        sample = {"args": args, "exit": res.rc, "stdout": res.out.decode("latin-1"), "commits": len(made), "walked": walked}
    ctx.stats["repositories"] += 1
    ctx.stats["merges"] += sum(len(c.parents) > 1 for c in r.commits.values())
    return {"keys": keys, "evaluations": evals, "sample": sample}
