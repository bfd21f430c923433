"""C12: listing locks pages through every lock exactly once."""
import os

from lib import core, gen, live, model, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = "exactly-once monitor over complete page walks, with changes between pages"
NOTE = ("Complete walks over stores of 0 to several hundred locks are compared with the set of locks known to be held; only the explored "
        "sizes, limits and changes are decided.")
LEVEL = "exploration"
QUICK_S = 30
THOROUGH_S = 600
RULE = ("stores with 0 to 330 locks (sizes around the page limits are enumerated) are walked page by page with constant or changing "
        "limits, with and without things in the lock directory which aren't locks (directories, broken links, damaged files), in sessions of either operation, in one live session or a new one per page, optionally with locks taken and removed "
        "(often the one the cursor names) between pages; locks held throughout must be listed exactly once, every page must respect "
        "its limit. Walks are the same if the numbers of locks, limits, page sizes and changes are.")
ASSUMPTIONS = []
SIZES = [0, 1, 2, 3, 99, 100, 101, 102, 199, 200, 201, 300]
LIMITS = [None, 1, 2, 3, 7, 50, 99, 100, 101, 102, 200, 1000, (1 << 32) - 1, 1 << 32, (1 << 64) - 1]


def jobs(ctx):
    out = [(n, k) for n in SIZES for k in (None, 1, 99, 100, 101, 1 << 32, (1 << 64) - 1)]
    out += [(n, k) for n in range(0, 7) for k in range(1, 8)]
    return sorted(out, key=lambda x: x[0] % 10)


def run_job(ctx, rng, job):
    n, k = job
    return walk_case(ctx, rng, n, lambda i: k, 0, ("job", job))


def case(ctx, rng, n):
    x = rng.random()
    count = rng.choice(SIZES) if x < 0.15 else rng.randrange(330) if x < 0.3 else rng.randrange(1, 25)
    style = rng.randrange(3)
    if style == 0:
        k = rng.choice(LIMITS) if rng.random() < 0.5 else max(1, count + rng.randrange(-2, 3))
        limits = lambda i: k  # noqa: E731
    elif style == 1:
        limits = lambda i: rng.choice(LIMITS)  # noqa: E731
    else:
        limits = lambda i: rng.randrange(1, 9)  # noqa: E731
    return walk_case(ctx, rng, count, limits, rng.choice([0, 0, 0.3, 0.8]), ("case",))


def name(rng, i):
    k = rng.randrange(5)
    if k == 0:
        return b"f%d" % i
    if k == 1:
        return b"dir %d/" % i + gen.path(rng)[:100]
    if k == 2:
        return b"%d" % i + b"\n=x" + rng.randbytes(3)
    if k == 3:
        return b"long%d/" % i + b"y" * rng.choice([200, 255, 256, 1000, 4000])
    return rng.randbytes(6) + b"%d" % i


class Client:
    """One request at a time, in new sessions or in one live session."""

    def __init__(self, ctx, m, alive, mode):
        self.ctx, self.m, self.mode = ctx, m, mode
        self.live = live.Live(ctx, [ctx.bin("git-lfs-transfer"), m.gitdir, mode]) if alive else None
        self.seen = 0

    def ask(self, req):
        if self.live is None:
            p, resps = model.run_reqs(self.ctx, self.m, self.mode, [req])
            return resps[0]
        self.live.send(req.raw)
        self.live.settle()
        try:
            _, resps, rest = proto.parse_stream(bytes(self.live.out))
        except proto.Malformed as e:
            raise Bad({"C05", "C06"}, "malformed output: %s" % e)
        if len(resps) != self.seen + 1:
            raise Bad({"C05"}, "%d responses to one request" % (len(resps) - self.seen))
        self.seen += 1
        self.m.check(req, resps[-1], self.mode)
        return resps[-1]

    def close(self):
        if self.live:
            self.live.kill()


def clutter(m, rng):
    """Things in the lock directory which aren't locks."""
    for i in range(rng.randrange(1, 6)):
        p = os.path.join(m.gitdir, "lfs/locks", rng.choice(["%064x" % rng.getrandbits(256)] * 5 + ["README", "%040x" % rng.getrandbits(160), "x.lock", "é"]) )
        k = rng.randrange(5)
        if os.path.lexists(p):
            continue
        if k == 0:
            os.mkdir(p)
        elif k == 1:
            os.symlink(rng.choice(["nosuch", ".", "/nonexistent/x", os.path.basename(p)]), p)
        else:
            with open(p, "wb") as f:
                f.write(rng.choice([b"", b"v1:", b"v2:1000000000:x", b"v1:1000000000", b"v1:x:y", b"\0" * 100, b"garbage\n", rng.randbytes(30), b"v1::z",
                                    b"v1:99999999999999999999:x", b"v1:9223372036854775807:x"]))


def walk_case(ctx, rng, count, limits, churn, key):
    m = model.Model(model.new_repo(ctx))
    names = list(dict.fromkeys(name(rng, i) for i in range(count)))
    spare = [b"spare %d" % i for i in range(30)]
    trace, pages = [], []
    client = None
    try:
        model.run_reqs(ctx, m, "upload", [proto.lock(p) for p in spare] + [proto.version()])
        model.run_reqs(ctx, m, "upload", [proto.unlock(a["id"]) for a in list(m.locks.values())])
        if rng.random() < 0.3:
            # What killed sessions leave behind.
            for i in range(rng.randrange(1, 4)):
                with open(os.path.join(m.gitdir, "lfs", "locks", ".tmp%06x.lock" % rng.randrange(1 << 24)), "wb") as f:
                    f.write(rng.choice([b"", b"v1:", b"v1:1000000000:x"]))
        if rng.random() < 0.4:
            clutter(m, rng)
            ctx.stats["cluttered"] += 1
        for a in range(0, len(names), 120):
            model.run_reqs(ctx, m, "upload", [proto.lock(p) for p in names[a:a + 120]])
        client = Client(ctx, m, rng.random() < 0.4, rng.choice(["upload", "download"]))
        stable, again, listed, cursor, i = set(m.locks), set(), [], None, 0
        while True:
            k = limits(i)
            r = proto.list_lock(cursor=cursor, limit=k, refname=b"refs/heads/main" if rng.random() < 0.2 else None)
            x = client.ask(r)
            page = r.f["seen"]
            listed += page
            pages.append((k, len(page)))
            trace.append({"limit": k, "listed": len(page), "cursor": r.f["next"]})
            cursor = r.f["next"]
            i += 1
            if cursor is None:
                break
            if i > count + 200:
                raise Bad({"C12"}, "the pages never end", pages=trace[-5:])
            if rng.random() < churn:
                if rng.random() < 0.3:
                    client.close()
                    client = Client(ctx, m, rng.random() < 0.4, rng.choice(["upload", "download"]))
                reqs = []
                for _ in range(rng.randrange(1, 4)):
                    free = [p for p in spare + names if p not in m.locks]
                    held = sorted(m.locks)
                    if held and rng.random() < 0.6:
                        at = [p for p in held if m.locks[p]["id"] == cursor]
                        p = at[0] if at and rng.random() < 0.5 else rng.choice(held)
                        if any(q.kind == "unlock" and q.f["id"] == m.locks[p]["id"] for q in reqs):
                            continue
                        reqs.append(proto.unlock(m.locks[p]["id"]))
                        stable.discard(p)
                    elif free:
                        p = rng.choice(free)
                        reqs.append(proto.lock(p))
                        again.add(p)
                if reqs:
                    model.run_reqs(ctx, m, "upload", reqs)
                    trace.append({"changes": [q.brief() for q in reqs]})
        missing = stable - set(listed)
        if missing:
            raise Bad({"C12"}, "%d of the %d locks held throughout were never listed" % (len(missing), len(stable)),
                      example=sorted(missing)[0])
        twice = {p for p in listed if listed.count(p) > 1} - again if len(set(listed)) != len(listed) else set()
        if twice:
            raise Bad({"C12"}, "%d locks were listed more than once" % len(twice), example=sorted(twice)[0])
        # Single paths, and limits which must be rejected.
        for p in rng.sample(names + spare, min(6, len(names + spare))) + [b"never locked"]:
            client.ask(proto.list_lock(path=p, limit=rng.choice([None, None, 1, 100])))
        for bad in rng.sample([b"0", b"x", b"", b"-1", b"1.5", b"0x5", b"ten", b"\xff", b"00", b" "], 3):
            x = client.ask(proto.list_lock(limit=bad, path=rng.choice([None, None, spare[0]] + names[:1])))
    except Bad as b:
        model.raise_for(ctx, b, locks=count, walk=trace[-40:])
    finally:
        if client:
            client.close()
    ctx.stats["walks"] += 1
    ctx.stats["pages"] += len(pages)
    ctx.stats["locks_listed"] += len(listed)
    ctx.stats["changes_between_pages"] += sum(len(t["changes"]) for t in trace if "changes" in t)
    return {"key": (key, count, pages, len(trace)), "sample": {"locks": count, "walk": trace[:8]}}
