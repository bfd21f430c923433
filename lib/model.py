"""A reference model of the LFS server and the comparison of real responses with it."""
import datetime
import hashlib
import os
import pwd
import re

from . import core, proto
from .core import Inconclusive, Other, Violation

OID = re.compile(rb"[0-9a-f]{64}\Z")


class Bad(Exception):
    """A difference between the server and the model, with the properties it contradicts."""

    def __init__(self, tags, msg, **detail):
        super().__init__(msg)
        self.tags, self.msg, self.detail = set(tags), msg, detail


def raise_for(ctx, bad, **detail):
    if ctx.prop in bad.tags:
        raise Violation(bad.msg, **{**bad.detail, **detail})
    raise Other(bad.msg)


def username(uid=None):
    uid = os.geteuid() if uid is None else uid
    try:
        return pwd.getpwuid(uid).pw_name.encode()
    except KeyError:
        return b"uid %d" % uid


def sha(data):
    return hashlib.sha256(data).hexdigest().encode()


def objpath(gitdir, oid):
    o = oid.decode()
    return os.path.join(gitdir, "lfs", "objects", o[:2], o[2:4], o)


def scan_objects(gitdir):
    """All regular files below lfs/objects, as {relative path: contents}."""
    top = os.path.join(gitdir, "lfs", "objects")
    out = {}
    for base, dirs, files in os.walk(top):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, top)] = fh.read()
    return out


def residue(gitdir):
    out = []
    for d in ("incomplete", "tmp"):
        p = os.path.join(gitdir, "lfs", d)
        if os.path.isdir(p):
            for base, dirs, files in os.walk(p):
                out += [os.path.relpath(os.path.join(base, f), p) for f in files + dirs]
    return out


def parse_time(b):
    try:
        s = b.decode("ascii")
        t = datetime.datetime.fromisoformat(s.replace("Z", "+00:00"))
        if t.tzinfo is None:
            return None
        return int(t.timestamp())
    except (ValueError, UnicodeDecodeError, OverflowError):
        return None


class Model:
    """What the store should hold, updated by the requests the server has acknowledged."""

    def __init__(self, gitdir):
        self.gitdir = gitdir
        self.objects = {}
        self.locks = {}      # path -> attributes
        self.ids = {}        # path -> lock ID, once known
        self.paths = {}      # lock ID -> path
        self.time_range = None  # callable giving the allowed range of new locks' times
        self.me = username()
        self.old_ids = []

    # Each method takes the request, the response and the session's operation.

    def check(self, req, resp, mode):
        try:
            getattr(self, "c_" + req.kind)(req, resp, mode)
        except proto.Malformed as e:
            raise Bad({"C06", *self.owner_tags(req)}, "malformed response to %s: %s" % (req.kind, e),
                      request=req.brief(), response=resp.brief())

    @staticmethod
    def owner_tags(req):
        return {"put": {"C01"}, "get": {"C03"}, "batch": {"C04"}, "verify": {"C04"}, "lock": {"C11"},
                "unlock": {"C11"}, "list": {"C11", "C12"}}.get(req.kind, set())

    def bad(self, tags, msg, req, resp, **kw):
        raise Bad(tags, msg, request=req.brief(), response=resp.brief(), **kw)

    def want(self, tags, req, resp, status, msg=""):
        if resp.status != status:
            self.bad(tags, "%s answered %d instead of %d%s" % (req.kind, resp.status, status, msg and ": " + msg),
                     req, resp)

    def error_only(self, tags, req, resp, what):
        if resp.status < 400:
            self.bad(tags, "%s answered %d" % (what, resp.status), req, resp)

    def c_version(self, req, resp, mode):
        if req.f["arg"] == b"1":
            self.want({"C05", "C27"}, req, resp, 200)
        else:
            self.error_only({"C05", "C27"}, req, resp, "unsupported version")

    def c_bad(self, req, resp, mode):
        self.error_only(req.f["tags"], req, resp, "invalid request (%s)" % req.f["what"])

    def c_any(self, req, resp, mode):
        pass

    def c_quit(self, req, resp, mode):
        self.want({"C05"}, req, resp, 200)

    def c_put(self, req, resp, mode):
        oid, size, data = req.f["oid"], req.f["size"], req.f["data"]
        if mode == "download":
            self.want({"C08"}, req, resp, 403, "upload in a download session")
            return
        good = OID.match(oid) and size == len(data) and sha(data) == oid
        if good:
            if not resp.ok():
                self.bad({"C01", "C14"}, "a valid upload was refused with %d" % resp.status, req, resp)
            self.objects[oid] = data
        else:
            self.error_only({"C01"}, req, resp, "an upload whose contents don't match")

    def c_get(self, req, resp, mode):
        oid = req.f["oid"]
        if mode == "upload":
            self.want({"C08"}, req, resp, 403, "download in an upload session")
            return
        if oid in self.objects:
            self.want({"C03"}, req, resp, 200)
            self.check_data(req, resp, self.objects[oid])
        elif OID.match(oid):
            self.want({"C03"}, req, resp, 404, "object not stored")
        else:
            self.error_only({"C03", "C09"}, req, resp, "download of an invalid ID")

    def check_data(self, req, resp, data, tags=("C03",)):
        size = resp.argmap().get(b"size")
        if size != b"%d" % len(data):
            self.bad(tags, "download gives the size %r instead of %d" % (size, len(data)), req, resp)
        body = resp.body
        if body != data:
            i = next((i for i, (a, b) in enumerate(zip(body, data)) if a != b), min(len(body), len(data)))
            self.bad(tags, "download has %d bytes instead of %d and differs from the object at offset %d"
                     % (len(body), len(data), i), req, resp)

    def c_batch(self, req, resp, mode):
        self.want({"C04"}, req, resp, 200)
        want = []
        for oid, size in req.f["items"]:
            have = oid in self.objects
            n = len(self.objects[oid]) if have else size
            if mode == "upload":
                act = b"noop" if have else b"upload"
            else:
                act = b"download" if have else b"noop"
            want.append(b"%s %d %s\n" % (oid, n, act))
        if resp.data != want:
            i = next((i for i, (a, b) in enumerate(zip(resp.data, want)) if a != b),
                     min(len(resp.data), len(want)))
            self.bad({"C04"}, "batch answer line %d is %r instead of %r" % (
                i, resp.data[i:i + 1], want[i:i + 1]), req, resp)

    def c_verify(self, req, resp, mode):
        if mode == "download":
            self.want({"C08"}, req, resp, 403, "verify in a download session")
            return
        oid, size = req.f["oid"], req.f["size"]
        if not OID.match(oid):
            self.error_only({"C04"}, req, resp, "verify of an invalid ID")
        elif oid not in self.objects:
            self.want({"C04"}, req, resp, 404, "object not stored")
        elif len(self.objects[oid]) != size:
            self.want({"C04"}, req, resp, 409, "size differs")
        else:
            self.want({"C04"}, req, resp, 200)

    # Locks

    @staticmethod
    def whose(got, held):
        return {"C25"} if got["ownername"] != held["ownername"] else set()

    def lock_args(self, req, resp):
        m = resp.argmap()
        for k in (b"id", b"path", b"locked-at", b"ownername"):
            if k not in m:
                self.bad({"C11"}, "%s response lacks %r" % (req.kind, k), req, resp)
        return {"id": m[b"id"], "path": m[b"path"], "locked-at": m[b"locked-at"], "ownername": m[b"ownername"]}

    def c_lock(self, req, resp, mode):
        path = req.f["path"]
        if mode == "download":
            self.error_only({"C08"}, req, resp, "lock in a download session")
            return
        held = self.locks.get(path)
        if held:
            self.want({"C11", "C10", "C13"}, req, resp, 409, "the path is locked")
            got = self.lock_args(req, resp)
            if got != held:
                self.bad({"C11"} | self.whose(got, held), "conflict reports %r instead of the lock's %r" % (got, held), req, resp)
            return
        self.want({"C11", "C10", "C13"}, req, resp, 201, "the path is not locked")
        got = self.lock_args(req, resp)
        if got["path"] != path:
            self.bad({"C11"}, "lock created for another path %r" % got["path"], req, resp)
        if path in self.ids and self.ids[path] != got["id"]:
            self.bad({"C11"}, "the ID of a path changed", req, resp, before=self.ids[path])
        if self.paths.get(got["id"], path) != path:
            self.bad({"C11"}, "two paths share a lock ID", req, resp, other=self.paths[got["id"]])
        if got["ownername"] != self.me:
            self.bad({"C11", "C25"}, "lock owned by %r instead of %r" % (got["ownername"], self.me), req, resp)
        t = parse_time(got["locked-at"])
        if t is None:
            self.bad({"C11"}, "lock time %r is not a time" % got["locked-at"], req, resp)
        if self.time_range:
            lo, hi = self.time_range()
            if not lo <= t <= hi:
                self.bad({"C11"}, "lock time %d is not between %d and %d" % (t, lo, hi), req, resp)
        self.ids[path] = got["id"]
        self.paths[got["id"]] = path
        self.locks[path] = got

    def c_unlock(self, req, resp, mode):
        if mode == "download":
            self.error_only({"C08"}, req, resp, "unlock in a download session")
            return
        path = self.paths.get(req.f["id"])
        held = self.locks.get(path) if path is not None else None
        if not held:
            if OID.match(req.f["id"]):
                self.want({"C11", "C10"}, req, resp, 404, "there is no such lock")
            else:
                self.error_only({"C11"}, req, resp, "unlock of an invalid ID")
            return
        self.want({"C11", "C10", "C13"} | ({"C25"} if held["ownername"] != self.me else set()), req, resp, 200, "the lock is held")
        got = self.lock_args(req, resp)
        if got != held:
            self.bad({"C11"} | self.whose(got, held), "unlock reports %r instead of the lock's %r" % (got, held), req, resp)
        del self.locks[path]

    def check_listed(self, req, resp, items, mode, tags):
        for x in items:
            held = self.locks.get(x["path"])
            if not held:
                self.bad(tags, "a lock which isn't held is listed: %r" % x["path"][:200], req, resp)
            for k in ("id", "path", "locked-at", "ownername"):
                if x[k] != held[k]:
                    self.bad({"C11"} | set(tags) | self.whose(x, held), "listed lock has %s %r instead of %r" % (k, x[k][:200], held[k][:200]),
                             req, resp)
            if mode == "upload":
                want = b"ours" if held["ownername"] == self.me else b"theirs"
                if x.get("owner") != want:
                    self.bad({"C25"}, "lock owner is %r instead of %r" % (x.get("owner"), want), req, resp)
            elif "owner" in x:
                self.bad({"C25"}, "a download session is told the owner", req, resp)

    def c_list(self, req, resp, mode):
        path, cursor, limit = req.f["path"], req.f["cursor"], req.f["limit"]
        if isinstance(limit, bytes):
            try:
                limit = int(limit)
            except ValueError:
                limit = -1
        if limit is not None and limit <= 0:
            self.error_only({"C12"}, req, resp, "listing with a bad limit")
            return
        if path is not None and cursor is None:
            if path not in self.locks:
                self.want({"C11", "C12"}, req, resp, 404, "the path isn't locked")
                return
            self.want({"C11", "C12"}, req, resp, 200, "the path is locked")
            items = proto.parse_lock_list(resp.data)
            if [x["path"] for x in items] != [path]:
                self.bad({"C12"}, "listing of a path gives %d locks" % len(items), req, resp)
            self.check_listed(req, resp, items, mode, {"C12"})
            return
        if path is not None:
            # Which of these the combination means is not defined, but what it lists must be right.
            if resp.status == 200:
                items = proto.parse_lock_list(resp.data)
                if [x["path"] for x in items] not in ([], [path]):
                    self.bad({"C12"}, "listing of a path gives other locks", req, resp)
                self.check_listed(req, resp, items, mode, {"C12", "C11"})
            return
        self.want({"C11", "C12"}, req, resp, 200)
        items = proto.parse_lock_list(resp.data)
        n = min(100, 100 if limit is None else limit)
        if len(items) > n:
            self.bad({"C12"}, "%d locks listed with a limit of %d" % (len(items), n), req, resp)
        seen = [x["path"] for x in items]
        if len(set(seen)) != len(seen):
            self.bad({"C12"}, "a lock is listed twice on a page", req, resp)
        self.check_listed(req, resp, items, mode, {"C12", "C11"})
        nxt = resp.argmap().get(b"next-cursor")
        if cursor is None and nxt is None and len(items) != len(self.locks):
            self.bad({"C12", "C11"}, "%d of %d locks listed and no further page" % (len(items), len(self.locks)), req, resp)
        if nxt is not None and not items:
            self.bad({"C12"}, "an empty page which isn't the last", req, resp)
        if cursor is None and nxt is not None and len(items) >= len(self.locks):
            self.bad({"C12"}, "all %d locks were listed but there is a cursor" % len(items), req, resp)
        req.f["next"] = nxt
        req.f["seen"] = seen

    # The store itself

    def check_store(self, tags, clean=True):
        got = scan_objects(self.gitdir)
        want = {"%s/%s/%s" % (o[:2].decode(), o[2:4].decode(), o.decode()): d for o, d in self.objects.items()}
        for p in sorted(set(got) - set(want)):
            raise Bad(tags, "the store has a file it should not have: %s (%d bytes)" % (p, len(got[p])))
        for p in sorted(set(want) - set(got)):
            raise Bad(tags, "the store lacks %s" % p)
        for p, d in want.items():
            if got[p] != d:
                raise Bad(tags, "the store has wrong contents (%d bytes) for %s" % (len(got[p]), p))
        if clean:
            r = residue(self.gitdir)
            if r:
                raise Bad(tags, "files were left behind: %r" % r[:3])


# Running sessions ---------------------------------------------------------------------------------

def new_repo(ctx, bare=True, hint="repo"):
    """Makes an empty repository without running git."""
    d = ctx.dir(hint)
    g = d if bare else os.path.join(d, ".git")
    for s in ("objects/info", "objects/pack", "refs/heads", "refs/tags"):
        os.makedirs(os.path.join(g, s))
    with open(os.path.join(g, "HEAD"), "w") as f:
        f.write("ref: refs/heads/main\n")
    with open(os.path.join(g, "config"), "w") as f:
        f.write("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = %s\n" % ("true" if bare else "false"))
    return g


def describe_exit(rc, err):
    return "exit %r, stderr %r" % (rc, err[-600:])


def crashed(rc, err):
    """Why this ending of git-lfs-transfer is a crash, or None."""
    if rc < 0:
        return "died of signal %d" % -rc
    if b"panicked at" in err or rc == 101:
        return "panicked"
    if rc not in (0, 2):
        return "exited with status %d" % rc
    return None


def session(ctx, gitdir, mode, data, **kw):
    return core.run(ctx, [ctx.bin("git-lfs-transfer"), gitdir, mode], stdin=data, **kw)


def run_reqs(ctx, m, mode, reqs, tags_crash=("C05", "C06"), complete=True, **kw):
    """Runs a pipelined session of complete requests and compares all of it with the model."""
    data = b"".join(r.raw for r in reqs)
    p = session(ctx, m.gitdir, mode, data, **kw)
    c = crashed(p.rc, p.err)
    tags = set(tags_crash) | set().union(*[m.owner_tags(r) for r in reqs]) if reqs else set(tags_crash)
    if c:
        raise Bad(tags, "the server %s" % c, end=describe_exit(p.rc, p.err), requests=[r.brief() for r in reqs],
                  mode=mode)
    try:
        adv, resps, rest = proto.parse_stream(p.out)
    except proto.Malformed as e:
        raise Bad(tags, "malformed output: %s" % e, out=p.out, requests=[r.brief() for r in reqs], mode=mode)
    check_responses(ctx, m, mode, reqs, p, adv, resps, rest, tags)
    return p, resps


def check_responses(ctx, m, mode, reqs, p, adv, resps, rest, tags=("C05", "C06")):
    if adv != [("data", b"version=1\n")]:
        raise Bad({"C05", "C27"}, "the session starts with %r" % (adv,), out=p.out[:200])
    if rest:
        raise Bad({"C05", "C06"} | set(tags), "an incomplete response was sent: %r" % (rest[:3],), mode=mode,
                  requests=[r.brief() for r in reqs])
    for i, (r, x) in enumerate(zip(reqs, resps)):
        ctx.stats["responses"] += 1
        ctx.stats["status_%d" % x.status] += 1
        try:
            m.check(r, x, mode)
        except Bad as b:
            b.detail["position"] = "request %d of %d" % (i, len(reqs))
            b.detail["mode"] = mode
            b.detail["requests"] = [q.brief() for q in reqs[:i + 1]][-12:]
            raise
    if len(resps) != len(reqs):
        raise Bad({"C05"} | set(tags), "%d responses to %d requests" % (len(resps), len(reqs)), mode=mode,
                  requests=[r.brief() for r in reqs], responses=[x.brief() for x in resps],
                  end=describe_exit(p.rc, p.err))
    if p.rc != 0:
        raise Bad({"C05", "C06"} | set(tags), "the session ended badly", end=describe_exit(p.rc, p.err), mode=mode,
                  requests=[r.brief() for r in reqs])
