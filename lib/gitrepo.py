"""Random Git repositories, written object by object, so that the checks know exactly what is in them."""
import hashlib
import os
import subprocess
import zlib

from . import core

NAMES = [b"A U Thor", b"", b"\xc3\x89lodie", b"\xff\xfe", b"a.b,c;", b"Fix Up", b"x" * 60]
MAILS = [b"a@example.com", b"a@example.com", b"", b"a@caf\xe9", b"\xff", b"no address", b"y" * 80, "ü@x".encode()]
ZONES = [b"+0000", b"-0800", b"+0530", b"+1400", b"-1200", b"-0001", b"+1245"]


class Repo:
    """A repository and what is known about it."""

    def __init__(self, path, gitdir):
        self.path, self.gitdir = path, gitdir
        self.objects = {}    # oid -> type
        self.commits = {}    # oid -> Commit
        self.tags = {}       # oid of a tag -> oid it points at
        self.refs = {}       # full name -> oid
        self.symrefs = {}    # full name -> full name
        self.order = []      # commits in the order they were made

    def peel(self, oid):
        while oid in self.tags:
            oid = self.tags[oid]
        return oid

    def write(self, kind, data):
        store = b"%s %d\0" % (kind.encode(), len(data)) + data
        oid = hashlib.sha1(store).hexdigest()
        if oid not in self.objects:
            d = os.path.join(self.gitdir, "objects", oid[:2])
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, oid[2:])
            if not os.path.exists(p):
                with open(p, "wb") as f:
                    f.write(zlib.compress(store, 1))
                os.chmod(p, 0o444)
            self.objects[oid] = kind
        return oid

    def commit(self, tree, parents, ctime, message, atime=None, rng=None, headers=b"", zones=ZONES):
        atime = ctime if atime is None else atime
        who = (lambda: rng.choice(NAMES)) if rng else (lambda: b"A")
        zone = (lambda: rng.choice(zones)) if rng else (lambda: b"+0000")
        t = b"tree " + tree.encode() + b"\n"
        for p in parents:
            t += b"parent " + p.encode() + b"\n"
        mail = (lambda: rng.choice(MAILS)) if rng else (lambda: b"a@example.com")
        a, c = who(), who()
        t += b"author %s <%s> %d %s\n" % (a, mail(), atime, zone())
        t += b"committer %s <%s> %d %s\n" % (c, mail(), ctime, zone())
        t += headers + b"\n" + message
        oid = self.write("commit", t)
        if oid not in self.commits:
            self.commits[oid] = Commit(oid, parents, ctime, atime, message)
            self.order.append(oid)
        return oid

    def tag(self, target, name=b"t", message=b"tag\n", when=1000000000, tagger=True):
        t = b"object %s\ntype %s\ntag %s\n" % (target.encode(), self.objects[target].encode(), name)
        if tagger:
            t += b"tagger T <t@example.com> %d +0000\n" % when
        oid = self.write("tag", t + b"\n" + message)
        self.tags[oid] = target
        return oid

    def flush_refs(self, packed=()):
        """Writes all references, those in `packed` (with stale loose ones never present) to packed-refs."""
        lines = [b"# pack-refs with: peeled fully-peeled sorted \n"]
        for n in sorted(self.refs, key=lambda s: s.encode("utf-8", "surrogateescape")):
            oid = self.refs[n]
            if n in packed:
                lines.append(("%s %s\n" % (oid, n)).encode("utf-8", "surrogateescape"))
                if oid in self.tags:
                    lines.append(b"^%s\n" % self.peel(oid).encode())
            else:
                self.loose(n, oid)
        if len(lines) > 1:
            with open(os.path.join(self.gitdir, "packed-refs"), "wb") as f:
                f.writelines(lines)
        for n, t in self.symrefs.items():
            self.loose(n, "ref: " + t)

    def loose(self, name, value):
        p = os.path.join(self.gitdir.encode(), name.encode("utf-8", "surrogateescape"))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(value.encode("utf-8", "surrogateescape") + b"\n")

    def resolve(self, name):
        for _ in range(6):
            if name in self.symrefs:
                name = self.symrefs[name]
            else:
                return self.refs.get(name)
        return None

    def reachable(self, oid):
        seen, todo = set(), [oid]
        while todo:
            o = todo.pop()
            if o not in seen:
                seen.add(o)
                todo += self.commits[o].parents
        return seen

    def walk(self, oid):
        """The commits reachable from `oid`, newest first."""
        return sorted((self.commits[o] for o in self.reachable(oid)), key=lambda c: -c.ctime)


class Commit:
    def __init__(self, oid, parents, ctime, atime, message):
        self.oid, self.parents, self.ctime, self.atime, self.message = oid, list(parents), ctime, atime, message


def utf8(name):
    return not any("\udc80" <= c <= "\udcff" for c in name)


def git(ctx, cwd, *args, check=True, stdin=b"", env=None):
    e = ctx.env(GIT_CONFIG_GLOBAL="/dev/null", GIT_AUTHOR_NAME="A", GIT_AUTHOR_EMAIL="a@example.com",
                GIT_COMMITTER_NAME="C", GIT_COMMITTER_EMAIL="c@example.com")
    e.update(env or {})
    p = subprocess.run(["git", *args], cwd=cwd, env=e, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=60)
    if check and p.returncode:
        raise core.Other("git %s: %s" % (args, p.stderr.decode("utf-8", "replace")))
    return p


def init(ctx, bare=False, hint="repo"):
    """An empty repository, made without running Git (it is a known quantity and this is faster)."""
    path = os.path.join(ctx.dir(hint), "r")
    g = path if bare else os.path.join(path, ".git")
    for d in ("objects/info", "objects/pack", "refs/heads", "refs/tags", "info"):
        os.makedirs(os.path.join(g, d))
    with open(os.path.join(g, "HEAD"), "w") as f:
        f.write("ref: refs/heads/main\n")
    with open(os.path.join(g, "config"), "w") as f:
        f.write("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = %s\n" % ("true" if bare else "false"))
        if not bare:
            f.write("\tlogallrefupdates = true\n")
    r = Repo(path, g)
    r.symrefs["HEAD"] = "refs/heads/main"
    return r


def contents(r, rng):
    """A tree which has the file f and some more."""
    blob = lambda: bytes.fromhex(r.write("blob", b"".join(b"line %d\n" % rng.randrange(6) for _ in range(rng.randrange(5)))))
    sub = r.write("tree", b"100644 inner\0" + blob() + b"100755 run\0" + blob())
    return r.write("tree", b"100644 f\0" + blob() + b"100644 g.txt\0" + blob() + b"40000 sub\0" + bytes.fromhex(sub))


def graph(r, rng, n, message, skew=None, same_author=False, style=None, vary=False):
    """Adds `n` commits with distinct committer times; `message` makes a message, and `vary` gives them different trees."""
    blob = r.write("blob", b"blob\n")
    tree = r.write("tree", b"100644 f\0" + bytes.fromhex(blob))
    r.tree, r.blob = tree, blob
    skew = rng.choice([0, 0.2, 1]) if skew is None else skew
    style = style or rng.choice(["linear", "bushy", "wide", "roots"])
    base = rng.choice([1, 1000000, 1000000000, 1600000000, 2 ** 31 - 20, 2 ** 32 + 5])
    step = rng.choice([1, 1, 60, 86400])
    times = [base + i * step for i in range(n)]
    if skew:
        for i in range(n):
            if rng.random() < skew:
                j = rng.randrange(n)
                times[i], times[j] = times[j], times[i]
    made = []
    for i in range(n):
        if not made or (style == "roots" and rng.random() < 0.25) or rng.random() < 0.02:
            parents = []
        elif style == "linear":
            parents = [made[-1]]
        else:
            pool = made[-4:] if style == "bushy" else made
            k = rng.choice([1, 1, 1, 2, 2, 3, 5])
            parents = rng.sample(pool, min(k, len(pool)))
            if rng.random() < 0.5 and made[-1] not in parents:
                parents[0] = made[-1]
        at = times[i] if same_author else rng.choice([times[i], base + rng.randrange(0, n * step + 1), rng.randrange(2 ** 31)])
        h = b""
        x = rng.random()
        if x < 0.05:
            h = b"encoding ISO-8859-1\n"
        elif x < 0.1:
            h = b"gpgsig -----BEGIN PGP SIGNATURE-----\n \n fixup! needle\n -----END PGP SIGNATURE-----\n"
        m = message(rng, i)
        o = r.commit(contents(r, rng) if vary else tree, parents, times[i], m, at, rng, h)
        made.append(o)
    return made


def settle(ctx, r, rng):
    """Chooses how everything is stored. References must have been written."""
    x = rng.random()
    if x < 0.45:
        return "loose"
    what = "packed"
    git(ctx, r.path, "repack", "-q", "-a", "-d", *(["-k"] if rng.random() < 0.5 else ["-A"]))
    if rng.random() < 0.5:
        git(ctx, r.path, "prune-packed", "-q")
    if rng.random() < 0.4:
        git(ctx, r.path, "commit-graph", "write", "--reachable", "--no-progress")
        what += "+graph"
    return what


def worktree(ctx, r, head, name="w"):
    """Adds a linked working tree (empty) and returns its path."""
    p = os.path.join(ctx.dir("wt"), name)
    os.makedirs(p)
    d = os.path.join(r.gitdir, "worktrees", name)
    os.makedirs(d)
    for f, t in (("HEAD", head), ("commondir", "../.."), ("gitdir", p + "/.git")):
        with open(os.path.join(d, f), "w") as fh:
            fh.write(t + "\n")
    with open(os.path.join(p, ".git"), "w") as f:
        f.write("gitdir: %s\n" % d)
    return p
