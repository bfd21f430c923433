"""C19: git at's --summary and --no-fixup select exactly the right commits."""
import re

from lib import gitat
from props import c18

TECHNIQUE = "reference-model monitor: own selection of first lines and fixups against git at's output"
NOTE = "Sampled graphs, messages and patterns; committer times within a repository are distinct."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random commit graphs whose messages have subjects, bodies, CRLF or missing line ends and every near miss of fixup!/squash! "
        "(case, position, white space of all kinds, in the body), searched with --summary, --no-fixup, both and neither, with patterns "
        "which match in the subject, only in the body, across the line end or at either end. The oracle decides from the message bytes. "
        "Queries are distinct by options, commits passed and what kinds of commits they were.")
ASSUMPTIONS = c18.ASSUMPTIONS + ["a carriage return at the end of the first line may or may not be part of it"]

SPAN = [b"\\s", b"\\n", b"[^x]+42", b"(?s).*needle", b"\\s+\\S+$", b"(?m)^needle", b"(?m)42$", b"$", b"\\S$", b"^$", b"\\A\\s*\\S",
        b"needle|\\n", b"(?!)|bee", b"fixup", b"^fixup!", b"^squash!", b"!", b"(?i)fixup!", b"^\\s", b"\\W\\Z", b"x$", b"^x", b"q\\s*$", b"\\r",
        b"[^a-z]$", b"(?s)^.{1,9}$", b"(?s)^.{30,}$", b"^[^!]*$", b"^(?!fixup!|squash!)", b"(?s)a.*b"]


def case(ctx, rng, n):
    r, made = gitat.build(ctx, rng, n=rng.choice([2, 4, 8, 14, 25, 40]))
    revs = [x for x in gitat.revisions(ctx, r, rng, made) if x[1]]
    keys, evals, sample = [], 0, None
    for _ in range(30):
        summary, nofix = rng.choice([(True, False), (False, True), (True, True), (True, True), (False, False)])
        opts = []
        if summary:
            opts.append(rng.choice(["--summary", "-s"]))
        if nofix:
            opts.append("--no-fixup")
        rng.shuffle(opts)
        pat = None
        if rng.random() < 0.5:
            pat = rng.choice(SPAN)
            if rng.random() < 0.3:
                pat = pat + b"|" + re.escape(rng.choice(gitat.WORDS))
        q = c18.query(ctx, r, rng, revs, summary, nofix, opts, pat)
        if q is None:
            continue
        args, rev, want, walked, res, detail = q
        c18.judge(want, res, detail)
        evals += 1
        ctx.stats["commits_walked_by_oracle"] += walked
        ctx.stats["found" if res.rc == 0 else "not_found"] += 1
        passed = list(r.walk(detail["start"]))[:walked]
        ctx.stats["fixups_passed"] += sum(gitat.is_fixup(c.message) for c in passed)
        keys.append((summary, nofix, walked, res.rc, "".join("f" if gitat.is_fixup(c.message) else "m" if b"\n" in c.message else "s"
                                                             for c in passed)))
        sample = {"args": args, "exit": res.rc, "stdout": res.out.decode("latin-1"), "commits": len(made), "walked": walked}
    ctx.stats["repositories"] += 1
    return {"keys": keys, "evaluations": evals, "sample": sample}
