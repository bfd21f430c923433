"""C31: a slow or stalled client never holds up other sessions."""
import copy
import fcntl
import subprocess
import time

from lib import core, gen, live, model, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = "live monitor: other sessions must be answered, and rightly, while some wait for their clients at chosen bytes (process states, reference model)"
NOTE = "A session which sleeps for more than two seconds although it has all its input, and goes on when the stalled ones end, counts as held up."
LEVEL = "exploration"
QUICK_S = 20
THOROUGH_S = 600
RULE = ("up to four, now and then up to forty, sessions at once are stalled: at any byte of any request, between requests, or because their client does not read a long "
        "download, listing or batch; meanwhile other sessions make all kinds of requests about the same objects and paths, and are compared "
        "with the reference model; then the stalled ones go on, in any order, or are killed, and their answers are compared too. "
        "Distinct by kinds of stalls, requests and outcomes.")
ASSUMPTIONS = []
WUP = {"put": 5, "badput": 1, "batch": 1, "verify": 1, "lock": 4, "unlock": 3, "list": 2}
WDOWN = {"get": 4, "batch": 1, "list": 2}
CROWD = {"put": 6, "lock": 1}
F_SETPIPE_SZ = 1031


class Stalled:
    """A session whose client has stopped."""

    def __init__(self, ctx, rng, m, pool, big, like=None):
        self.mode = like or rng.choice(["upload", "upload", "upload", "download", "download"])
        self.s = live.Live(ctx, [ctx.bin("git-lfs-transfer"), m.gitdir, self.mode])
        self.unread = rng.random() < (0.1 if like == "upload" else 0.35)
        self.states = []
        # What it did before.
        self.did = [gen.mixed(rng, pool, m, WUP if self.mode == "upload" else WDOWN) for _ in range(rng.choice([0, 0, 1, 2, 4]))]
        if self.did:
            self.s.send(b"".join(r.raw for r in self.did))
            self.steady()
            _, resps, rest = proto.parse_stream(bytes(self.s.out))
            if len(resps) != len(self.did) or rest:
                raise Bad({"C31"}, "a session gave %d answers to %d requests" % (len(resps), len(self.did)), requests=[r.brief() for r in self.did])
            for r, x in zip(self.did, resps):
                m.check(r, x, self.mode)
        if self.unread:
            fcntl.fcntl(self.s.o, F_SETPIPE_SZ, 4096)
            self.steady()
            if self.mode == "download" and rng.random() < 0.6:
                self.req = proto.get(rng.choice([o for o in pool.oids if len(m.objects.get(o, b"")) > 9000] or pool.oids))
            elif rng.random() < 0.6:
                self.req = proto.list_lock()
            else:
                self.req = proto.batch([(rng.choice(pool.oids), 5) for _ in range(300)])
            self.rest = b""
            self.s.send(self.req.raw)
            # It writes until nobody reads any more.
            for _ in range(200):
                if self.s.waiting() or self.asleep():
                    break
                time.sleep(0.002)
            self.what = "its answer to a %s is not read" % self.req.kind
        else:
            self.req = gen.mixed(rng, pool, m, CROWD if like == "upload" else WUP if self.mode == "upload" else WDOWN)
            n = len(self.req.raw)
            cut = rng.randrange(n) if like else rng.choice([0, n - 4, n - 1, rng.randrange(n), rng.randrange(n), min(n - 1, 70)])
            self.rest = self.req.raw[cut:]
            self.s.send(self.req.raw[:cut])
            self.steady()
            self.what = "%d of %d bytes of a %s are sent" % (cut, n, self.req.kind)
        self.note(m)

    def steady(self):
        """Waits until it waits for input, which others must not keep it from."""
        n = polls = 0
        while not self.s.waiting() and self.s.p.poll() is None:
            self.s.drain()
            self.s.check_time()
            time.sleep(0.0005 if polls < 100 else 0.02)
            polls += 1
            n = n + 1 if polls > 100 and self.asleep() and not self.s.waiting() else 0
            if n > 150:
                raise Bad({"C31"}, "a session which had all it needs did not go on", mode=self.mode, before=[r.brief() for r in self.did])
        self.s.drain()

    def asleep(self):
        try:
            with open("/proc/%d/stat" % self.s.p.pid) as f:
                return f.read().rsplit(")", 1)[1].split()[0] == "S"
        except OSError:
            return True

    def note(self, m):
        self.states.append((dict(m.objects), dict(m.locks)))

    def go_on(self, ctx, m, tags):
        """The client goes on, and ends the session."""
        self.s.send(self.rest)
        self.s.settle()
        rc = self.s.finish()
        c = model.crashed(rc, bytes(self.s.err))
        if c or rc:
            raise Bad(tags, "a stalled session %s" % (c or "ended with status %d" % rc), stderr=bytes(self.s.err)[-300:])
        _, resps, rest = proto.parse_stream(bytes(self.s.out))
        resps = resps[len(self.did):]
        if len(resps) != 1 or rest:
            raise Bad(tags, "a stalled session gave %d answers to a request" % len(resps), request=self.req.brief())
        try:
            m.check(self.req, resps[0], self.mode)
        except Bad:
            if self.req.kind not in ("get", "verify", "batch", "list") or (self.unread and self.req.kind in ("batch", "list") and resps[0].status == 200):
                if self.unread:
                    return resps[0].status
                raise
            # It may have been looked up at any time since.
            for objects, locks in self.states:
                old = copy.copy(m)
                old.objects, old.locks = objects, locks
                try:
                    old.check(self.req, resps[0], self.mode)
                    break
                except Bad:
                    pass
            else:
                raise
        return resps[0].status


def other(ctx, m, mode, reqs, slow, tags):
    """A session which has all its input and room for all its output."""
    d = ctx.dir("other")
    with open(d + "/in", "wb") as f:
        f.write(b"".join(r.raw for r in reqs))
    with open(d + "/in", "rb") as i, open(d + "/out", "wb") as o, open(d + "/err", "wb") as e:
        p = subprocess.Popen([ctx.bin("git-lfs-transfer"), m.gitdir, mode], stdin=i, stdout=o, stderr=e, env=ctx.env())
    core.limit_child(p.pid)
    ctx.stats["processes"] += 1
    start, last, asleep = time.monotonic(), 0, 0
    held = False
    while p.poll() is None:
        now = time.monotonic()
        time.sleep(0.0005 if now - start < 0.1 else 0.02)
        if now - last > 0.1 and now - start > 0.3:
            last = now
            try:
                with open("/proc/%d/stat" % p.pid) as f:
                    asleep = asleep + 1 if f.read().rsplit(")", 1)[1].split()[0] == "S" else 0
            except OSError:
                asleep = 0
        if asleep >= 20 and not held:
            held = True
            while slow:
                slow.pop().s.kill()
            start = now
        if now - start > 40:
            p.kill()
            p.wait()
            raise core.Inconclusive("a session took too long")
    if held:
        raise Bad(tags, "a session which had all its input waited for stalled ones", mode=mode, requests=[r.brief() for r in reqs])
    with open(d + "/out", "rb") as f:
        out = f.read()
    with open(d + "/err", "rb") as f:
        err = f.read()
    c = model.crashed(p.returncode, err)
    if c:
        raise Bad(tags, "the server %s" % c, stderr=err[-300:], requests=[r.brief() for r in reqs])
    try:
        adv, resps, rest = proto.parse_stream(out)
        model.check_responses(ctx, m, mode, reqs, core.Proc(p.returncode, out, err), adv, resps, rest)
    except proto.Malformed as e:
        raise Bad(tags, "malformed output: %s" % e)
    return resps


def case(ctx, rng, n):
    m = model.Model(model.new_repo(ctx))
    pool = gen.Pool(rng, 4, 3, big=0.3)
    big = rng.randbytes(rng.choice([20000, 200000, 1 << 20]))
    pool.blobs.append(big)
    pool.oids.append(model.sha(big))
    tags = {"C31"}
    slow, steps, key = [], [], []
    try:
        seq.learn_ids(ctx, m, pool)
        many = [b"%d/" % i + b"x" * 90 for i in range(rng.choice([0, 60, 110]))]
        model.run_reqs(ctx, m, "upload", [proto.put(model.sha(big), big)] * (rng.random() < 0.8) + [proto.lock(p) for p in many]
                       + [gen.mixed(rng, pool, m, {"put": 1, "lock": 1}) for _ in range(2)])
        crowd = rng.choice(["upload", "upload", "download"]) if rng.random() < 0.04 else None
        for _ in range(rng.choice([20, 40]) if crowd else rng.choice([1, 1, 2, 3, 4])):
            slow.append(Stalled(ctx, rng, m, pool, big, crowd))
            steps.append("stalled (%s): %s" % (slow[-1].mode, slow[-1].what))
            key.append((slow[-1].mode, slow[-1].req.kind, slow[-1].unread))
        ctx.stats["stalled_sessions"] += len(slow)
        while slow:
            for x in slow:
                x.note(m)
            if rng.random() < 0.6:
                mode = rng.choice(["upload", "upload", "download"])
                about = [x.req for x in slow]
                reqs = [gen.mixed(rng, pool, m, WUP if mode == "upload" else WDOWN) for _ in range(rng.randrange(1, 5))]
                # Mostly about what a stalled one is about.
                r = rng.choice(about)
                if r.kind in ("put", "get", "verify") and r.f["oid"] in pool.oids:
                    o = r.f["oid"]
                    d = pool.blobs[pool.oids.index(o)]
                    reqs.insert(0, proto.put(o, d) if mode == "upload" else proto.get(o))
                elif r.kind == "lock":
                    reqs.insert(0, proto.lock(r.f["path"]) if mode == "upload" else proto.list_lock(path=r.f["path"]))
                steps.append((mode, [x.brief() for x in reqs]))
                key.append((mode, tuple(x.status for x in other(ctx, m, mode, reqs, slow, tags))))
                ctx.stats["other_sessions"] += 1
            else:
                x = slow.pop(rng.randrange(len(slow)))
                if rng.random() < 0.15:
                    x.s.kill()
                    steps.append("killed: " + x.what)
                else:
                    steps.append("goes on: " + x.what)
                    key.append(x.go_on(ctx, m, tags))
        m.check_store(tags, clean=False)
    except Bad as b:
        b.tags |= tags
        model.raise_for(ctx, b, steps=steps[-15:])
    except proto.Malformed as e:
        raise Violation("malformed output: %s" % e, steps=steps[-15:])
    finally:
        for x in slow:
            x.s.kill()
    return {"key": tuple(key), "sample": {"steps": steps[:8]}}
