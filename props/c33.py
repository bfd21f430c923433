"""C33: a client which goes away, or a told end, ends its session and nothing else."""
import os
import select
import signal
import subprocess
import time

from lib import core, gen, gitrepo, live, model, proto, seq
from lib.core import Inconclusive
from lib.model import Bad
from props import c07

TECHNIQUE = "fault injection (streams closed and signals sent at chosen moments) with a monitor of the process's end and of the store's state"
NOTE = "The store afterwards must be one of the states which a twin session had after its requests. A process which stays counts if it sleeps or has used much processor time."
LEVEL = "exploration"
QUICK_S = 22
THOROUGH_S = 400
RULE = ("sessions whose client closes the answers' end of the connection at a quiescent moment after any number of requests, before the first one, "
        "or after having read any number of bytes, with its own end left open or closed and more requests on the way; sessions which are sent SIGTERM, "
        "SIGHUP or SIGINT between requests or within one; git recent-refs with a reader which stops reading; with SIGPIPE taken as usual or ignored "
        "at the start. Distinct by kind, moment, requests, how many took effect and how it ended.")
ASSUMPTIONS = []
WUP = {"put": 6, "badput": 1, "batch": 1, "verify": 1, "lock": 6, "unlock": 5, "list": 2, "junk": 1}
WDOWN = {"get": 5, "batch": 2, "list": 2, "junk": 1}
TAGS = {"C33"}


class Session(live.Live):
    """A live session, whose ends the client can close."""

    def __init__(self, ctx, argv, keep_ignored, cwd=None, pipesize=-1):
        # Whoever started the check may have these ignored, which children inherit.
        for n in (signal.SIGTERM, signal.SIGHUP, signal.SIGINT):
            signal.signal(n, signal.SIG_DFL)
        signal.pthread_sigmask(signal.SIG_SETMASK, [])
        # With restore_signals the child takes SIGPIPE as usual, else it finds it ignored.
        self.p = subprocess.Popen(argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ctx.env(),
                                  cwd=cwd, bufsize=0, restore_signals=not keep_ignored, pipesize=pipesize)
        core.limit_child(self.p.pid)
        ctx.stats["processes"] += 1
        self.ctx = ctx
        self.i, self.o, self.e = self.p.stdin.fileno(), self.p.stdout.fileno(), self.p.stderr.fileno()
        for fd in (self.i, self.o, self.e):
            os.set_blocking(fd, False)
        self.out, self.err, self.eof = bytearray(), bytearray(), False
        self.deadline = time.monotonic() + 60

    def hang_up(self, err=False):
        """Nobody reads the answers any more."""
        self.p.stdout.close()
        if err:
            self.p.stderr.close()

    def errors(self):
        if self.p.stderr.closed:
            return
        while True:
            try:
                d = os.read(self.e, 65536)
            except BlockingIOError:
                return
            if not d:
                return
            self.err += d

    def feed(self, data):
        """Sends what it takes without anybody reading; returns the bytes sent."""
        pos, stuck = 0, 0
        while pos < len(data) and stuck < 200:
            try:
                pos += os.write(self.i, data[pos:pos + 65536])
                stuck = 0
            except BlockingIOError:
                stuck += 1
                time.sleep(0.002)
                if self.p.poll() is not None:
                    break
            except BrokenPipeError:
                break
            self.errors()
        return pos

    def ended(self, why):
        """It must end by itself."""
        start = time.monotonic()
        asleep = 0
        while self.p.poll() is None:
            self.errors()
            now = time.monotonic() - start
            time.sleep(0.001 if now < 0.2 else 0.05)
            if now > 4:
                try:
                    with open("/proc/%d/stat" % self.p.pid) as f:
                        st = f.read().rsplit(")", 1)[1].split()
                    used = (int(st[11]) + int(st[12])) / os.sysconf("SC_CLK_TCK")
                except OSError:
                    continue
                asleep = asleep + 1 if st[0] == "S" else 0
                if asleep > 100 or used > 30:
                    raise Bad(TAGS, "%s, but the process stays (%s)" % (why, "asleep" if asleep > 100 else "busy for %d s" % used))
                if now > 45:
                    raise Inconclusive("a process does not end")
        self.errors()
        return self.p.returncode


def snapshot(m):
    return (frozenset(m.objects.items()), frozenset(m.locks))


def twin(ctx, setup, mode, reqs):
    """What the store holds after each request, and the answers, when nothing is disturbed."""
    m = model.Model(model.new_repo(ctx))
    model.run_reqs(ctx, m, "upload", setup)
    p = model.session(ctx, m.gitdir, mode, b"".join(r.raw for r in reqs))
    _, resps, rest = proto.parse_stream(p.out)
    if len(resps) != len(reqs) or rest:
        raise core.Other("a session gave %d answers to %d requests" % (len(resps), len(reqs)))
    snaps = [snapshot(m)]
    for r, x in zip(reqs, resps):
        m.check(r, x, mode)
        snaps.append(snapshot(m))
    core.rmtree(m.gitdir, ctx.scratch)
    return snaps, resps


def state(ctx, m):
    """What the store holds."""
    objects = {}
    for name, data in model.scan_objects(m.gitdir).items():
        oid = os.path.basename(name).encode()
        if model.sha(data) != oid:
            raise Bad(TAGS, "a wrong object is left: %s" % name)
        objects[oid] = data
    return (frozenset(objects.items()), frozenset(x["path"] for x in c07.locks_now(ctx, m, TAGS)))


def decide(ctx, m, snaps, lo, hi, what):
    """The store must be in a state from after `lo` to after `hi` requests."""
    got = state(ctx, m)
    ok = [j for j in range(len(snaps)) if snaps[j] == got]
    if not any(lo <= j <= hi for j in ok):
        raise Bad(TAGS, "%s, but the store is as after %s" % (what, ok or "no number of requests"), objects=[o for o, _ in got[0]], locks=list(got[1]),
                  allowed=[lo, hi])
    return min(j for j in ok if lo <= j <= hi)


def graceful(rc, err, allowed, what):
    if b"panicked at" in err or rc == 101:
        raise Bad(TAGS, "%s, and the process panicked" % what, stderr=err[-500:])
    if rc < 0 and -rc not in allowed:
        raise Bad(TAGS, "%s, and the process died of signal %d" % (what, -rc), stderr=err[-500:])


def server(ctx, rng, kind):
    mode = "download" if rng.random() < 0.2 else "upload"
    pool = gen.Pool(rng, 4, 4, big=0.2)
    probe = model.Model(model.new_repo(ctx))
    steps = []
    s, reqs = None, []
    try:
        seq.learn_ids(ctx, probe, pool)
        setup = [proto.lock(pool.paths[0])]
        big = rng.randbytes(rng.choice([20000, 300000]))
        if mode == "download":
            setup += [gen.put_req(rng, pool) for _ in range(2)] + [proto.put(model.sha(big), big)]
            pool.oids.append(model.sha(big))
            pool.blobs.append(big)
        probe.locks = {p: {"id": i} for p, i in probe.ids.items()}
        w = WUP if mode == "upload" else WDOWN
        reqs = [gen.mixed(rng, pool, probe, w) for _ in range(rng.randrange(2, 9))]
        snaps, resps = twin(ctx, setup, mode, reqs)
        m = model.Model(model.new_repo(ctx))
        model.run_reqs(ctx, m, "upload", setup)
        ignored = rng.random() < 0.4
        argv = [ctx.bin("git-lfs-transfer"), m.gitdir, mode]
        raw = [r.raw for r in reqs]
        if kind == "before":
            # The client has gone before anything is written.
            r, w_ = os.pipe()
            os.close(r)
            d = ctx.dir("in")
            with open(d + "/in", "wb") as f:
                f.write(b"".join(raw))
            with open(d + "/in", "rb") as f:
                p = subprocess.Popen(argv, stdin=f, stdout=w_, stderr=subprocess.PIPE, env=ctx.env(), restore_signals=not ignored)
            os.close(w_)
            core.limit_child(p.pid)
            ctx.stats["processes"] += 1
            try:
                _, err = p.communicate(timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                p.communicate()
                raise Inconclusive("a process does not end")
            what = "there was no client from the start"
            graceful(p.returncode, err, {13}, what)
            j = decide(ctx, m, snaps, 0, 1, what)
            return ("before", mode, j, p.returncode), steps
        s = Session(ctx, argv, ignored, pipesize=4096 if kind == "reading" else -1)
        if kind == "reading":
            twin_len = [x.end for x in resps]
            total = twin_len[-1]
            want = rng.choice([0, rng.randrange(total + 1), rng.randrange(total + 1), rng.choice(twin_len), max(0, rng.choice(twin_len) - 4096)])
            data = b"".join(raw)
            pos, got, start = 0, bytearray(), time.monotonic()
            while len(got) < want and time.monotonic() - start < 30:
                if pos < len(data):
                    try:
                        pos += os.write(s.i, data[pos:pos + 65536])
                    except BlockingIOError:
                        pass
                    except BrokenPipeError:
                        break
                try:
                    d = os.read(s.o, want - len(got))
                    if not d:
                        break
                    got += d
                except BlockingIOError:
                    select.select([s.o], [], [], 0.01)
            if len(got) < want:
                raise Inconclusive("the answers did not come")
            # Let it go as far as it can.
            s.feed(data[pos:])
            if rng.random() < 0.5:
                time.sleep(rng.random() * 0.02)
            s.hang_up(rng.random() < 0.3)
            # Whoever hangs up may also be the one who sends.
            if rng.random() < 0.5:
                s.p.stdin.close()
            what = "the client had read %d bytes of answers and went away" % want
            lo = sum(1 for e in twin_len if e <= want)
            hi = sum(1 for e in twin_len if e <= want + 4096 + 64) + 1
            steps.append((what, lo, hi))
            if lo == len(reqs) or total <= want + 4096 + 64:
                # Nothing more may be written, so that it need not notice.
                if not s.p.stdin.closed:
                    s.p.stdin.close()
            rc = s.ended(what)
            graceful(rc, bytes(s.err), {13}, what)
            j = decide(ctx, m, snaps, lo, min(hi, len(reqs)), what)
            return (kind, mode, ignored, tuple(r.kind for r in reqs), lo, j, rc), steps
        k = rng.randrange(0, len(reqs) + (kind == "signal"))
        s.send(b"".join(raw[:k]))
        if not s.settle():
            raise core.Other("the session ended")
        _, done, rest = proto.parse_stream(bytes(s.out))
        if len(done) != k or rest:
            raise core.Other("%d answers to %d requests" % (len(done), k))
        for r, x, y in zip(reqs, done, resps):
            if x.status != y.status:
                raise core.Other("the answers differ from the twin's")
        if kind == "signal":
            part = 0
            if k < len(reqs) and rng.random() < 0.6:
                part = rng.randrange(len(raw[k]))
                s.send(raw[k][:part])
                s.settle()
            sig = rng.choice([signal.SIGTERM, signal.SIGHUP, signal.SIGINT])
            what = "the session was sent %s after %d requests and %d bytes" % (sig.name, k, part)
            steps.append(what)
            s.p.send_signal(sig)
            if rng.random() < 0.3:
                # What comes after the signal is sent can't count, as it waits for input.
                s.feed(raw[k][part:] if k < len(reqs) else proto.version().raw)
                hi = min(k + 1, len(reqs))
                ctx.stats["input_after_signal"] += 1
            else:
                hi = k
            rc = s.ended(what)
            graceful(rc, bytes(s.err), {int(sig)}, what)
            j = decide(ctx, m, snaps, k, hi, what)
            return (kind, mode, sig.name, tuple(r.kind for r in reqs[:k + 1]), part > 0, rc), steps
        # The client hangs up at a quiescent moment; more requests are on the way.
        part = 0
        if rng.random() < 0.3:
            part = rng.randrange(len(raw[k]))
            s.send(raw[k][:part])
            s.settle()
        s.hang_up(rng.random() < 0.3)
        what = "the client went away after %d answers" % k
        steps.append(what)
        s.feed(b"".join(raw[k:])[part:])
        if rng.random() < 0.4:
            s.p.stdin.close()
        rc = s.ended(what)
        graceful(rc, bytes(s.err), {13}, what)
        j = decide(ctx, m, snaps, k, k + 1, what)
        return (kind, mode, ignored, tuple(r.kind for r in reqs), k, j, rc), steps
    except Bad as b:
        b.tags |= TAGS
        model.raise_for(ctx, b, steps=steps, mode=mode, kind=kind, requests=[r.brief() for r in reqs])
    except proto.Malformed as e:
        raise core.Other("malformed output: %s" % e)
    finally:
        if s:
            s.kill()


def listing(ctx, rng):
    """git recent-refs whose reader reads the first lines only."""
    r = gitrepo.init(ctx, bare=True)
    tree = r.write("tree", b"")
    made = []
    for i in range(rng.randrange(2, 6)):
        made.append(r.commit(tree, made[-1:], 1000000000 + 10 * i, b"c%d\n" % i))
    n = rng.choice([300, 1500, 4000])
    for i in range(n):
        r.refs["refs/heads/b%d" % i] = rng.choice(made)
    r.refs["refs/heads/main"] = made[0]
    r.flush_refs(packed=set(r.refs) - {"refs/heads/main"})
    with open(os.path.join(r.gitdir, "HEAD"), "w") as f:
        f.write("ref: refs/heads/main\n")
    sort = rng.choice(["committerdate", "authordate", "visitdate"])
    if sort == "visitdate":
        n = 600
        os.makedirs(os.path.join(r.gitdir, "logs"), exist_ok=True)
        with open(os.path.join(r.gitdir, "logs/HEAD"), "w") as f:
            for i in range(n):
                f.write("%s %s T <t@example.com> %d +0000\tcheckout: moving from b%d to b%d\n" % (made[0], made[0], 1000000000 + i, i % 290, (i + 1) % 290))
    argv = [ctx.bin("git-recent-refs"), "--sort=" + sort]
    full = core.run(ctx, argv, cwd=r.path)
    if full.rc:
        raise core.Other("git recent-refs fails: %r" % full.err[-200:])
    ignored = rng.random() < 0.5
    s = Session(ctx, argv, ignored, cwd=r.path, pipesize=4096)
    try:
        want = rng.choice([0, 1, 20, 500, 4096, rng.randrange(len(full.out))])
        want = min(want, len(full.out))
        got = b""
        while len(got) < want:
            s.check_time()
            try:
                d = os.read(s.o, want - len(got))
            except BlockingIOError:
                select.select([s.o], [], [], 0.05)
                continue
            if not d:
                break
            got += d
        what = "the reader of git recent-refs stopped after %d of %d bytes" % (want, len(full.out))
        if got != full.out[:want]:
            raise Bad(TAGS, "what is listed differs from time to time", got=got[-200:])
        s.p.stdin.close()
        s.hang_up()
        rc = s.ended(what)
        graceful(rc, bytes(s.err), {13}, what)
        return ("listing", sort, ignored, n, want.bit_length(), rc)
    except Bad as b:
        model.raise_for(ctx, b, sort=sort, refs=n)
    finally:
        s.kill()


def case(ctx, rng, n):
    kind = rng.choices(["gone", "before", "reading", "signal", "listing"], [6, 2, 5, 4, 1])[0]
    ctx.stats["kind_" + kind] += 1
    if kind == "listing":
        key = listing(ctx, rng)
        return {"key": key, "sample": {"kind": kind, "sort": key[1]}}
    key, steps = server(ctx, rng, kind)
    return {"key": key, "sample": {"kind": kind, "steps": steps}}
