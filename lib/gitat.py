"""Queries of git at and what must come of them."""
import os
import subprocess

from . import core, gitrepo, pcre
from .core import Violation

WORDS = [b"fixup!", b"squash!", b"needle", b"Foo bar", b"a.b*(c)", "é".encode(), b"aa", b"Update", b"initial", b"x\ny", b"end.",
         b"Signed-off-by: Z", b"[tag]", b"bee", b"bee bee", b"fixup", b"\\d", b"42"]
FILL = WORDS + [b" ", b" ", b"\n", b"\n\n", b"\t", b"q", b"\xff\xfe", b"\xe9", b"\r\n", b"NEEDLE", b"Fixup!", b"foo  bar"]


def body(rng):
    return b"".join(rng.choice(FILL) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 20])))


def message(rng, i):
    x = rng.random()
    if x < 0.02:
        return b""
    m = b""
    if x < 0.3:
        m += rng.choice([b"fixup! ", b"squash! ", b"fixup!", b" fixup! ", b"\tsquash! ", b"fixup ", b"Fixup! ", b"xfixup! ", b"fixup! fixup! ",
                         b"amend! ", b"re: squash! ", b"squash !", b"fixup!\n", b"\x0bfixup! ", b"\xa0fixup! ", b" \t squash!", b"\rfixup! ",
                         b" \nfixup! ", b"\x0c\nsquash! a", b"a\nfixup! b", b"(fixup! )"])
    m += b"".join(rng.choice(FILL) for _ in range(rng.randrange(1, 5)))
    if x > 0.4:
        m += b" %d" % i
    if x > 0.5:
        m += rng.choice([b"\n", b"\n\n", b"\r\n\r\n", b"\n \n", b""]) + body(rng)
    if x > 0.6:
        m += b"\n"
    if rng.random() < 0.01:
        m += b"y" * rng.choice([500, 3000]) + b" needle\nneedle in the end"
    if rng.random() < 0.04:
        m = rng.choice([b"\n", b"\n\n", b"\n" * 5]) + m
    return m.replace(b"\0", b"")


def readings(message):
    """The forms of a message which a program could reasonably go by: the blank lines before it are commonly dropped."""
    a = message.split(b"\0")[0].lstrip(b"\n")
    return [a] if a == message else [a, message]


def is_fixup(m):
    m = m.lstrip(b" \t\n\x0b\x0c\r")
    return m.startswith((b"fixup!", b"squash!"))


def matches(regex, message, summary, no_fixup):
    """True or False, or None if it depends on how one looks at it."""
    out = set()
    # The summary is never an empty line in front of the message.
    for m in readings(message)[:1 if summary else 2]:
        if no_fixup and is_fixup(m):
            out.add(False)
        elif summary:
            out.add(regex.search(m.split(b"\n", 1)[0]))
            line = m.split(b"\n", 1)[0]
            if line.endswith(b"\r"):
                out.add(regex.search(line[:-1]))
        else:
            out.add(regex.search(m))
    return out.pop() if len(out) == 1 else None


def compile_(p, simple):
    # Python comes last: it never gives up.
    regs = [pcre.Regex(p)] if pcre.available() else []
    if simple:
        regs.append(pcre.PyRegex(p))
    return regs


def expected(r, start, p, simple, summary, no_fixup):
    """The set of acceptable results: object IDs, or None for no match; or an empty set if that cannot be told."""
    regs = compile_(p, simple)
    if not regs:
        return set(), 0
    ok, walked = set(), 0
    for c in r.walk(start):
        walked += 1
        try:
            v = set()
            for x in regs:
                v.add(matches(x, c.message, summary, no_fixup))
        except pcre.Limit:
            return set(), walked
        if len(v) != 1:
            v = {None}
        v = v.pop()
        if v is not False:
            ok.add(c.oid)
        if v:
            return ok, walked
    ok.add(None)
    return ok, walked


def run(ctx, r, args, cwd=None, **kw):
    env = ctx.env(GIT_CONFIG_GLOBAL="/dev/null", **kw)
    return core.run(ctx, [ctx.bin("git-at"), *args], env=env, cwd=cwd or r.path)


def revisions(ctx, r, rng, made):
    """Some ways to name commits: (argument or None, object ID of the commit)."""
    out = []
    def add(rev):
        out.append(rev)
    oids = list(r.objects)
    for n in r.refs:
        if n.startswith("refs/"):
            add(n)
            short = n.split("/", 2)[2]
            if n.startswith(("refs/heads/", "refs/tags/")):
                add(short)
                add(short + "~%d" % rng.randrange(4))
                add(short + "^%d" % rng.randrange(3))
                add(short + "^{commit}")
                add(short + "^{}")
                add(short + "~1^2")
                add(short + "^^{commit}~1")
            else:
                add(n[5:])
    for c in rng.sample(made, min(4, len(made))):
        add(c)
        k = 7
        while sum(o.startswith(c[:k]) for o in oids) > 1:
            k += 1
        add(c[:k])
        add(c[:rng.randrange(k, 41)])
        add(c[:k] + "~1")
        add(c[:k].upper())
    for t in list(r.tags)[:4]:
        add(t)
        add(t + "^{commit}")
    add("HEAD")
    add("@")
    add("HEAD~1")
    add("HEAD^2")
    add(None)
    q = "".join((x or "HEAD") + "^{commit}\n" for x in out)
    p = gitrepo.git(ctx, r.path, "cat-file", "--batch-check=%(objectname)", stdin=q.encode("utf-8", "surrogateescape"))
    res = []
    for rev, line in zip(out, p.stdout.decode().split("\n")):
        o = line.strip()
        res.append((rev, o if o in r.commits else None))
    return res


def build(ctx, rng, n=None, bare=None, messages=message, skew=None, vary=False):
    bare = rng.random() < 0.3 if bare is None else bare
    r = gitrepo.init(ctx, bare)
    n = n or rng.choice([1, 2, 3, 5, 8, 13, 20, 30, 45, 120 if ctx.thorough else 60])
    made = gitrepo.graph(r, rng, n, messages, skew=skew, vary=vary)
    r.refs["refs/heads/main"] = made[-1]
    for i in range(rng.randrange(0, 5)):
        r.refs["refs/heads/" + ["dev", "feature/x", "b%d" % i, "origin", "zé"][i]] = rng.choice(made)
    for i in range(rng.randrange(0, 4)):
        o = rng.choice(made)
        for _ in range(rng.choice([0, 1, 1, 2])):
            o = r.tag(o, b"t%d" % i, tagger=rng.random() < 0.8)
        r.refs["refs/tags/" + ["v1.0", "v1", "rel/2", "nested"][i]] = o
    if rng.random() < 0.4:
        r.refs["refs/remotes/origin/main"] = rng.choice(made)
        if rng.random() < 0.5:
            r.symrefs["refs/remotes/origin/HEAD"] = "refs/remotes/origin/main"
    if rng.random() < 0.2:
        r.refs["refs/notes/commits"] = rng.choice(made)
    if rng.random() < 0.2:
        r.refs["refs/tags/treetag"] = r.tag(r.tree, b"treetag")
    if rng.random() < 0.15:
        del r.symrefs["HEAD"]
        o = rng.choice(made)
        r.loose("HEAD", o)
        r.refs["HEAD"] = o
    packed = {x for x in r.refs if x.startswith("refs/") and rng.random() < rng.choice([0, 0, 0.5, 1])}
    head = r.refs.pop("HEAD", None)
    r.flush_refs(packed)
    if head:
        r.refs["HEAD"] = head
    r.stored = gitrepo.settle(ctx, r, rng)
    return r, made


def cwd_of(ctx, r, rng):
    x = rng.random()
    if x < 0.7:
        return r.path
    if r.path != r.gitdir and x < 0.9:
        p = os.path.join(r.path, "sub/dir é")
        os.makedirs(p, exist_ok=True)
        return p
    return os.path.join(r.gitdir, rng.choice(["", "refs", "objects"]))
