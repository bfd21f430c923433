"""C20: git at's exit status and output tell the outcome."""
import os
import pty
import re
import subprocess

from lib import core, gitat, gitrepo, pcre
from lib.core import Violation

TECHNIQUE = "outcome monitor: exit status, standard output, standard error and programs started, against the expected outcome"
NOTE = "Sampled repositories; usage errors of the command line itself are not covered."
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random repositories, where the outcome of a query (found, no match, missing revision, unborn branch, revision which isn't a commit, "
        "invalid pattern, arguments which aren't UTF-8, outside of any repository, output which can't be written) is known, with all combinations of the options; with "
        "--show, both the real git (with settings and attributes which change what it shows) and stand-ins which record how they were called and exit with a chosen status. Distinct by outcome, "
        "options, place and kind of query.")
ASSUMPTIONS = ["git is installed", "committer times are distinct", "revision expressions which libgit2 understands"]
BAD_PATTERNS = ["(", "a)", "[", "[z-a]", "*a", "+", "a{2,1}", "(?<n", "(?P<1>a)", "\\", "(?", "(?z)", "\\k<none>", "(?<=a*)b", "[[:foo:]]", "x(?R", "\\x{zz}"]
MISSING = ["nosuch", "HEAD~999", "refs/heads/nosuch", "nosuch~1", "main^9", "nosuch^{commit}", "HEAD:nosuch", "heads/nosuch", "HEAD^9",
           "tags/nosuch", "v99.0", "1234567890123456789012345678901234567890", "nösuch", "mai", "MAIN", "feature", "HEAD^2^2^2^2^2^2^2^2"]


def opts_for(rng):
    o = []
    if rng.random() < 0.4:
        o.append(rng.choice(["--quiet", "-q"]))
    if rng.random() < 0.3:
        o.append(rng.choice(["--summary", "-s"]))
    if rng.random() < 0.3:
        o.append("--no-fixup")
    if rng.random() < 0.35:
        o.append("--show")
    rng.shuffle(o)
    return o


def fake_git(ctx, rng):
    """A stand-in for git."""
    d = ctx.dir("fake")
    status = rng.choice([0, 0, 1, 3, 42, 128, 141, 255, -9])
    text = b"shown %d\n" % rng.randrange(1000)
    rec = os.path.join(d, "rec")
    with open(os.path.join(d, "git"), "w") as f:
        f.write("#!/bin/sh\nfor a; do printf '%%s\\n' \"$a\" >>%s; done\necho -- >>%s\npwd >>%s.pwd\nprintf '%%s' '%s'\n%s\n" % (
            rec, rec, rec, text.decode(), "exit %d" % status if status >= 0 else "kill -KILL $$"))
    os.chmod(os.path.join(d, "git"), 0o755)
    return d, status, text, rec


def tastes(r, rng):
    """Settings and attributes which git show goes by, some of which depend on where it is run."""
    c = ""
    if rng.random() < 0.4:
        c += "[diff]\n" + "".join("\t%s\n" % x for x in rng.sample(
            ["relative = true", "noprefix = true", "context = 0", "mnemonicPrefix = true", "orderFile = order", "renames = copies",
             "statGraphWidth = 10", "algorithm = patience"], rng.randrange(1, 4)))
    if rng.random() < 0.2:
        c += rng.choice(["[color]\n\tui = always\n", "[log]\n\tdecorate = full\n", "[format]\n\tpretty = oneline\n", "[log]\n\tdate = unix\n",
                         "[i18n]\n\tlogOutputEncoding = UTF-8\n", "[log]\n\tabbrevCommit = true\n", "[log]\n\tmailmap = true\n"])
    with open(os.path.join(r.gitdir, "config"), "a") as f:
        f.write(c)
    attr = rng.choice(["f -diff\n", "* -diff\n", "*.txt binary\n", "sub/** -diff\n", "f diff=cpp\n", "*.txt -text\n"])
    if r.path != r.gitdir:
        if rng.random() < 0.5:
            with open(os.path.join(r.path, ".gitattributes"), "w") as f:
                f.write(attr)
        if rng.random() < 0.3:
            with open(os.path.join(r.path, ".mailmap"), "w") as f:
                f.write("Mapped <mapped@example.com> <a@example.com>\n")
        if rng.random() < 0.5:
            with open(os.path.join(r.path, "order"), "w") as f:
                f.write("sub/*\ng.txt\n")
        os.makedirs(os.path.join(r.path, "sub"), exist_ok=True)
    if rng.random() < 0.2:
        with open(os.path.join(r.gitdir, "info/attributes"), "w") as f:
            f.write(attr)


def one(ctx, rng, r, made, revs, outside):
    opts = opts_for(rng)
    quiet, show = "-q" in opts or "--quiet" in opts, "--show" in opts
    summary, nofix = "-s" in opts or "--summary" in opts, "--no-fixup" in opts
    kind = rng.choice(["found", "found", "found", "nomatch", "nomatch", "missing", "missing", "notcommit", "badpattern", "outside", "unborn", "notutf8"])
    cwd = gitat.cwd_of(ctx, r, rng)
    if r.path != r.gitdir and rng.random() < 0.2:
        cwd = os.path.join(r.path, "sub")
    words = [b"needle", b"bee", b"commit", b".", b"\\S", b"fixup", b"Update"]
    rev, want, p = None, None, rng.choice(words)
    expect = None
    if kind in ("found", "nomatch"):
        rev, start = rng.choice([x for x in revs if x[1]])
        if kind == "nomatch":
            p = rng.choice([b"(?!)", b"zebra crossing", b"\\A\\x01", b"x{100}"])
        want, _ = gitat.expected(r, start, p, False, summary, nofix)
        if len(want) != 1:
            return None
        want = next(iter(want))
        kind = "nomatch" if want is None else "found"
    elif kind == "missing":
        rev = rng.choice(MISSING + [x[0] for x in revs if x[1] is None and x[0] and "^{commit}" not in x[0] and "treetag" not in x[0]])
        if rev == "1234567890123456789012345678901234567890" and rng.random() < 0.5:
            rev = rng.choice(["%040x", "%010x", "%012x"]) % rng.randrange(16 ** 10)
        if gitrepo.git(ctx, r.path, "rev-parse", "-q", "--verify", rev + "^{object}", check=False).returncode == 0:
            return None
        if rev.endswith("^{}"):
            return None
    elif kind == "notcommit":
        c = "treetag" if "refs/tags/treetag" in r.refs else "HEAD^{tree}"
        rev = rng.choice(["HEAD^{tree}", "HEAD:f", r.tree, r.blob, "main^{tree}", c, r.blob, "main:", made[0] + ":f"])
        if rev == "main:":
            rev = "main^{tree}"
    elif kind == "badpattern":
        p = rng.choice(BAD_PATTERNS).encode()
        rev = rng.choice([None, "HEAD", "main"])
    elif kind == "outside":
        cwd = rng.choice(outside)
        rev = rng.choice([None, "HEAD", "main", "nosuch"])
    elif kind == "unborn":
        cwd = ctx.unborn
        rev = rng.choice([None, "HEAD", "@"])
    elif kind == "notutf8":
        # These can't be used, which isn't the same as that nothing matches.
        bad = rng.choice([b"\xff", b"caf\xe9", b"needle\xc3", b"\xed\xa0\x80", b"HEAD\x80", b"\xf5\x80\x80\x80"])
        rev, p = rng.choice([(None, bad), ("HEAD", bad), (os.fsdecode(bad), p), (os.fsdecode(bad), bad)])
    status, out = {"found": (0, None), "nomatch": (1, b""), "missing": (1, b""), "notcommit": (2, b""), "badpattern": (2, b""),
                   "outside": (4, b""), "unborn": (1, b""), "notutf8": (2, b"")}[kind]
    env = {}
    fake = None
    if show and rng.random() < 0.6:
        fake = fake_git(ctx, rng)
        env["PATH"] = fake[0] + ":/usr/bin:/bin"
    args = opts + ([rev] if rev is not None else []) + [os.fsdecode(p)]
    if rng.random() < 0.1:
        # Options may come last, too.
        args = args[len(opts):] + opts
    full = kind == "found" and rng.random() < 0.05
    if full:
        with open("/dev/full", "wb") as f:
            q = subprocess.Popen([ctx.bin("git-at"), *[a for a in args if a != "--show"]], stdout=f, stderr=subprocess.PIPE,
                                 stdin=subprocess.DEVNULL, cwd=cwd, env=ctx.env(GIT_CONFIG_GLOBAL="/dev/null"))
            _, err = q.communicate(timeout=60)
        if q.returncode == 0:
            raise Violation("git at exited 0 although its output could not be written", args=args, stderr=err)
        return ("full", q.returncode), args, q.returncode
    if kind == "found" and not show and rng.random() < 0.08:
        # On a terminal it prints the same.
        m, s = pty.openpty()
        try:
            q = subprocess.Popen([ctx.bin("git-at"), *args], stdout=s, stderr=s if rng.random() < 0.5 else subprocess.DEVNULL, stdin=s if rng.random() < 0.5 else subprocess.DEVNULL,
                                 cwd=cwd, env=ctx.env(GIT_CONFIG_GLOBAL="/dev/null", TERM=rng.choice(["xterm-256color", "dumb"])))
            rc = q.wait(timeout=60)
            os.close(s)
            s, text = None, b""
            try:
                while True:
                    d = os.read(m, 4096)
                    if not d:
                        break
                    text += d
            except OSError:
                pass
        finally:
            os.close(m)
            if s is not None:
                os.close(s)
        if rc != 0 or text not in (want.encode() + b"\r\n", want.encode() + b"\n"):
            raise Violation("found: on a terminal the output should be exactly %s and a newline" % want, args=args, exit=rc, output=text)
        ctx.stats["on_a_terminal"] += 1
        return ("terminal", summary, nofix), args, rc
    res = gitat.run(ctx, r, args, cwd=cwd, **env)
    detail = {"args": args, "cwd": os.path.relpath(cwd, r.path), "kind": kind, "exit": res.rc, "stdout": res.out, "stderr": res.err}

    def bad(msg):
        raise Violation("%s: %s" % (kind, msg), **detail)

    called = None
    if fake:
        called = open(fake[3]).read().split("\n--\n")[:-1] if os.path.exists(fake[3]) else []
        detail["git_called_with"] = called
    if kind == "found":
        if show:
            if fake:
                status, out = fake[1], fake[2]
                if len(called) != 1 or not called[0].startswith("show\n") or not called[0].endswith(want):
                    bad("git at --show should have run 'git show %s' once" % want)
            else:
                g = core.run(ctx, ["git", "show", want], env=ctx.env(GIT_CONFIG_GLOBAL="/dev/null"), cwd=cwd)
                status, out = g.rc, g.out
            if res.out != out:
                bad("the output is not that of git show, %r" % out[:300])
        else:
            if res.out != want.encode() + b"\n":
                bad("the output should be exactly %s and a newline" % want)
            if res.err:
                bad("success came with a message")
    else:
        if called:
            bad("git was run although there is nothing to show")
        if res.out != out:
            bad("there should be no output")
    if status < 0:
        # There is no such status to pass on.
        if res.rc == 0:
            bad("git show was killed, but the exit status is 0")
    elif res.rc != status:
        bad("the exit status is %d, not %d" % (res.rc, status))
    if status == 1 and kind != "found":
        if quiet and res.err:
            bad("--quiet did not keep it quiet")
        if not quiet and not res.err.strip():
            bad("there is no message")
    if kind in ("notcommit", "badpattern", "notutf8", "outside") and not res.err.strip():
        bad("a failure which isn't just a missing commit has no message")
    if b"panicked" in res.err:
        bad("the program crashed")
    ctx.stats["outcome_" + kind] += 1
    return (kind, quiet, show, summary, nofix, bool(fake), rev is None, p if kind == "badpattern" else "", rev if kind in ("missing", "notcommit") else "",
            cwd == r.path), args, res.rc


def case(ctx, rng, n):
    r, made = gitat.build(ctx, rng, n=rng.choice([1, 2, 5, 12]), vary=True)
    tastes(r, rng)
    revs = gitat.revisions(ctx, r, rng, made)
    ctx.unborn = gitrepo.init(ctx, rng.random() < 0.5, hint="unborn")
    ctx.unborn.flush_refs()
    ctx.unborn = ctx.unborn.path
    outside = [ctx.dir("outside"), ctx.dir("outside")]
    os.makedirs(os.path.join(outside[1], ".git/refs"))
    keys, sample = [], None
    for _ in range(30):
        x = one(ctx, rng, r, made, revs, outside)
        if x:
            keys.append(x[0])
            sample = {"outcome": x[0], "args": x[1], "exit": x[2]}
    return {"keys": keys, "evaluations": len(keys), "sample": sample}
