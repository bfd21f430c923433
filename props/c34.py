"""C34: the effort stays in proportion to what is asked."""
import os
import re
import subprocess

from lib import core, gen, gitrepo, model, proto
from lib.core import Violation

TECHNIQUE = "cost monitor: instructions executed (callgrind), system calls and bytes moved (strace) of runs of size n, 2n and 4n"
NOTE = "Counts, not times, so that load makes no difference. A quadratic part shows when it is about a quarter of the linear one."
LEVEL = "exploration"
QUICK_S = 40
THOROUGH_S = 600
MIN_EVALUATIONS = 10
RULE = ("one kind of input at sizes n, 2n and 4n on the real programs: numbers of requests of each kind and of random blocks of them, batch lines, "
        "arguments, packets, bytes, refused data, locks held (one page, one path), objects stored, commits, merges, references, visits, message lengths. "
        "From 2n to 4n the instructions, system calls and bytes moved may grow by 2.8 times their growth from n to 2n at most (and a little slack); "
        "where the size should make no difference, by a little slack only. Distinct by kind, size and variant.")
ASSUMPTIONS = ["counts of instructions of the process itself; the kernel's work is seen by system calls and bytes only"]
MOVES = {"read", "write", "pread64", "pwrite64", "readv", "writev", "preadv", "pwritev", "sendfile", "copy_file_range", "splice", "getdents64"}
CALL = re.compile(rb"^(?:\[pid +\d+\] |\d+ +)?(\w+)\(.*\) += (-?\d+)", re.M)
RATIO = 2.8


def instructions(ctx, argv, inp, cwd, env):
    p = core.run(ctx, ["valgrind", "--tool=callgrind", "--callgrind-out-file=/dev/null", *argv], stdin=inp, cwd=cwd, env=env, timeout=200)
    m = re.findall(rb"Collected : (\d+)", p.err)
    if not m:
        raise core.Other("no instruction count: rc %d, %r" % (p.rc, p.err[-300:]))
    return sum(map(int, m)), p


def calls(ctx, argv, inp, cwd, env):
    log = os.path.join(ctx.dir("strace"), "log")
    p = core.run(ctx, ["strace", "-f", "-s", "0", "-o", log, *argv], stdin=inp, cwd=cwd, env=env, timeout=200)
    n = moved = 0
    with open(log, "rb") as f:
        for name, ret in CALL.findall(f.read()):
            n += 1
            if name.decode() in MOVES and int(ret) > 0:
                moved += int(ret)
    os.unlink(log)
    if not n:
        raise core.Other("no system calls seen: rc %d, %r" % (p.rc, p.err[-300:]))
    return n, moved, p


# Each workload makes what is run for a size: argv, input, directory.

def oid(i):
    return model.sha(b"%d" % i)


def lfs(ctx, mode, reqs, setup=()):
    g = model.new_repo(ctx)
    if setup:
        p = model.session(ctx, g, "upload", b"".join(r.raw for r in setup))
        if p.rc:
            raise core.Other("preparing fails: %r" % p.err[-200:])
    return [ctx.bin("git-lfs-transfer"), g, mode], b"".join(r.raw for r in reqs), None


def w_batch(ctx, rng, mode, same, stored):
    return lambda n: lfs(ctx, mode, [proto.batch([(oid(0 if same else i), 3) for i in range(n)])], [proto.put(oid(i), b"%d" % i) for i in range(n)] if stored else [])


def w_args(ctx, rng, cmd, same):
    line = b"key=%s\n" if same else b"%s=b\n"
    if cmd[:3] in (b"put", b"bat"):
        return lambda n: lfs(ctx, "upload", [proto.raw(proto.pkt(cmd) + b"".join(proto.pkt(line % (b"%d" % i)) for i in range(n)) + b"00010000")])
    return lambda n: lfs(ctx, "upload", [proto.raw(proto.pkt(cmd) + b"".join(proto.pkt(line % (b"%d" % i)) for i in range(n)) + b"0000")])


def w_arglen(ctx, rng, cmd):
    return lambda n: lfs(ctx, "upload", [proto.raw((proto.pkt(cmd) + proto.pkt(b"path=" + b"x" * (20 * n) + b"\n") + b"0000") * 3)])


def w_packets(ctx, rng, size, bad):
    def make(n):
        data = b"x" * (n * size)
        return lfs(ctx, "upload", [proto.put(oid(1) if bad else model.sha(data), data, sizes=(size,))])
    return make


def w_refused(ctx, rng, cmd, size):
    return lambda n: lfs(ctx, "upload", [proto.raw(proto.pkt(cmd) + proto.pkt(b"size=5\n") + b"0001" + proto.pkt(b"y" * size) * n + b"0000")])


def w_upload(ctx, rng, packet):
    def make(n):
        data = b"x" * (300 * n)
        return lfs(ctx, "upload", [proto.put(model.sha(data), data, sizes=(packet,))])
    return make


def w_download(ctx, rng, times):
    def make(n):
        data = b"x" * (20000 * n)
        return lfs(ctx, "download", [proto.get(model.sha(data))] * times, [proto.put(model.sha(data), data)])
    return make


def w_block(ctx, rng, mode):
    pool = gen.Pool(rng, 3, 3, big=0)
    pool.paths = [p[:60] for p in pool.paths]
    m = model.Model("/nowhere")
    m.ids = {p: oid(i) for i, p in enumerate(pool.paths)}
    w = {"put": 3, "badput": 2, "batch": 2, "verify": 2, "lock": 3, "unlock": 2, "list": 2, "junk": 4} if mode == "upload" else \
        {"get": 4, "batch": 2, "list": 2, "junk": 3, "put": 1, "lock": 1}
    block = [gen.mixed(rng, pool, m, w) for _ in range(rng.randrange(1, 7))]
    # Once more at the start, so that every further one finds the same.
    setup = [gen.put_req(rng, pool) for _ in range(2)]
    return lambda n: lfs(ctx, mode, block * (n + 1), setup)


def w_puts(ctx, rng):
    return lambda n: lfs(ctx, "upload", [proto.put(oid(i), b"%d" % i) for i in range(n)])


def w_gets(ctx, rng):
    return lambda n: lfs(ctx, "download", [proto.get(oid(i)) for i in range(n)], [proto.put(oid(i), b"%d" % i) for i in range(n)])


def w_locks(ctx, rng, unlock):
    def make(n):
        reqs = [proto.lock(b"p/%d" % i) for i in range(n)]
        if not unlock:
            return lfs(ctx, "upload", reqs)
        g = model.new_repo(ctx)
        _, resps, _ = proto.parse_stream(model.session(ctx, g, "upload", b"".join(r.raw for r in reqs)).out)
        return [ctx.bin("git-lfs-transfer"), g, "upload"], b"".join(proto.unlock(x.argmap()[b"id"]).raw for x in resps), None
    return make


def w_page(ctx, rng, mode, limit, cursor):
    def make(n):
        argv, _, _ = lfs(ctx, mode, [], [proto.lock(b"p/%d" % i) for i in range(n)])
        cur = None
        if cursor:
            _, resps, _ = proto.parse_stream(model.session(ctx, argv[1], mode, proto.list_lock(limit=limit).raw).out)
            cur = resps[0].argmap().get(b"next-cursor")
        return argv, proto.list_lock(limit=limit, cursor=cur).raw, None
    return make


def w_stored(ctx, rng, what):
    """One request of each kind, with ever more stored."""
    def make(n):
        setup = [proto.lock(b"p/%d" % i) for i in range(n)] if "locks" in what else []
        setup += [proto.put(oid(i), b"%d" % i) for i in range(n)] if "objects" in what else []
        g = model.new_repo(ctx)
        _, resps, _ = proto.parse_stream(model.session(ctx, g, "upload", b"".join(r.raw for r in [proto.lock(b"mine"), *setup])).out)
        one = proto.put(oid(-1), b"-1")
        mode = what[0]
        reqs = [one, proto.batch([(oid(-1), 2), (oid(-2), 2)]), proto.verify(oid(-1), 2), proto.lock(b"other"), proto.lock(b"mine"),
                proto.list_lock(path=b"mine"), proto.unlock(resps[0].argmap()[b"id"]), proto.put(oid(-2), b"wrong")]
        if mode == "download":
            model.session(ctx, g, "upload", one.raw)
            reqs = [proto.get(oid(-1)), proto.get(oid(-5)), proto.batch([(oid(-1), 2), (oid(-2), 2)]), proto.list_lock(path=b"mine"), proto.version()]
        return [ctx.bin("git-lfs-transfer"), g, mode], b"".join(r.raw for r in reqs), None
    return make


def w_size(ctx, rng, mode):
    """What concerns an object, but not its contents."""
    def make(n):
        data = b"x" * (10000 * n)
        o = model.sha(data)
        reqs = [proto.batch([(o, len(data))] * 3), *([proto.verify(o, len(data))] * 3 if mode == "upload" else [])]
        return lfs(ctx, mode, reqs, [proto.put(o, data)])
    return make


def history(ctx, n, shape, length, pack, fixups=False):
    r = gitrepo.init(ctx, bare=True)
    tree = r.write("tree", b"")
    made = []
    for i in range(n):
        ps = made[-1:]
        if shape == "merges" and i % 3 == 2:
            ps = [made[-1], made[-2]]
        elif shape == "ladder" and i > 2:
            # Every two commits merge the two before.
            ps = [made[i - 2 - i % 2], made[i - 1 - i % 2]]
        elif shape == "roots":
            # Every other commit merges a new root.
            ps = [made[i - 1], made[i - 2]] if i and i % 2 == 0 else []
        text = b"fixup! c%d\n" % (i // 2) if fixups and i % 2 else b"c%d\n" % i
        made.append(r.commit(tree, ps, 1000000000 + i, text + b"\n" + b"line of text\n" * length if length else text))
    r.refs["refs/heads/main"] = made[(n - 1) // 2 * 2]
    r.flush_refs()
    if pack:
        gitrepo.git(ctx, r.path, "repack", "-adq")
    if pack == 2:
        gitrepo.git(ctx, r.path, "commit-graph", "write", "--reachable")
    return r, made


def w_at(ctx, rng, shape, where, pack, opts, length):
    def make(n):
        r, made = history(ctx, n, shape, length, pack, "--no-fixup" in opts)
        pat = {"none": "zzz", "last": "^c0", "middle": "^c%d$" % (n // 4 * 2), "top": "^c%d$" % (n - 4 - n % 2)}[where]
        return [ctx.bin("git-at"), *opts, "HEAD", pat], b"", r.path
    return make


def w_message(ctx, rng, opts):
    """Ever longer messages."""
    def make(n):
        r, made = history(ctx, 4, "linear", 50 * n, 0)
        return [ctx.bin("git-at"), *opts, "HEAD", "zzz"], b"", r.path
    return make


def w_refs(ctx, rng, sort, packed, one, tags):
    def make(n):
        r = gitrepo.init(ctx, bare=True)
        tree = r.write("tree", b"")
        made = [r.commit(tree, [], 1000000000 + i * 7919 % 1009, b"c%d\n" % i) for i in range(1 if one else n)]
        for i in range(n):
            c = made[i % len(made)]
            r.refs["refs/%s/b%d" % ("tags" if tags else "heads", i)] = r.tag(c, b"b%d" % i) if tags else c
        r.refs["refs/heads/main"] = made[0]
        r.flush_refs(set(r.refs) if packed else ())
        return [ctx.bin("git-recent-refs"), "--sort=" + sort], b"", r.path
    return make


def w_visits(ctx, rng, branches, packed):
    def make(n):
        r = gitrepo.init(ctx, bare=True)
        c = r.commit(r.write("tree", b""), [], 1000000000, b"c\n")
        for i in range(branches):
            r.refs["refs/heads/b%d" % i] = c
        r.refs["refs/heads/main"] = c
        r.flush_refs(set(r.refs) if packed else ())
        os.makedirs(os.path.join(r.gitdir, "logs"), exist_ok=True)
        with open(os.path.join(r.gitdir, "logs/HEAD"), "w") as f:
            for i in range(n):
                f.write("%s %s T <t@example.com> %d +0000\tcheckout: moving from b%d to b%d\n" % (c, c, 1000000000 + i, i % branches, (i + 1) % branches))
        return [ctx.bin("git-recent-refs"), "--sort=visitdate"], b"", r.path
    return make


CMDS = [b"lock\n", b"batch\n", b"put-object %s\n" % oid(1), b"junk\n", b"unlock %s\n" % oid(1), b"verify-object %s\n" % oid(1), b"list-lock\n"]
KINDS = ["batch", "args", "arglen", "packets", "refused", "upload", "download", "block", "puts", "gets", "locks", "page", "stored", "size", "at", "at",
         "message", "refs", "visits"]


def make(ctx, rng, kind, huge=False):
    """A workload of this kind: what it is, the function, the smallest size, and whether size should matter."""
    big = rng.choice([1, 1, 2, 4]) if not ctx.thorough else rng.choice([1, 2, 4, 8])
    c, t = rng.choice, lambda: rng.random() < 0.5
    if kind == "batch":
        v = (c(["upload", "download"]), t(), t())
        return v, w_batch(ctx, rng, *v), 500 * big, True
    if kind == "args":
        v = (c(CMDS), t())
        return v, w_args(ctx, rng, *v), 1000 * big, True
    if kind == "arglen":
        v = (c(CMDS),)
        return v, w_arglen(ctx, rng, *v), 200, True
    if kind == "packets":
        v = (c([1, 2, 5, 100]), t())
        return v, w_packets(ctx, rng, *v), 2000 * big, True
    if kind == "refused":
        v = (c(CMDS[1:]), c([1, 4, 100, 1000]))
        return v, w_refused(ctx, rng, *v), 2000 * big, True
    if kind == "upload":
        v = (c([1000, 32768, 65516]),)
        return v, w_upload(ctx, rng, *v), 300 * big, True
    if kind == "download":
        v = (c([1, 3]),)
        return v, w_download(ctx, rng, *v), 10 * big, True
    if kind == "block":
        v = (c(["upload", "upload", "download"]),)
        return v, w_block(ctx, rng, *v), 40 * big, True
    if kind == "puts":
        return (), w_puts(ctx, rng), 100 * big, True
    if kind == "gets":
        return (), w_gets(ctx, rng), 100 * big, True
    if kind == "locks":
        v = (t(),)
        return v, w_locks(ctx, rng, *v), 100 * big, True
    if kind == "page":
        v = (c(["upload", "download"]), c([1, 10]), t())
        return v, w_page(ctx, rng, *v), 250 * big, True
    if kind == "stored":
        v = (c(["upload", "download"]), c(["locks", "objects", "locks and objects"]))
        return v, w_stored(ctx, rng, v[0] and (v[0], *v[1].split(" and "))), 200 * big, False
    if kind == "size":
        v = (c(["upload", "download"]),)
        return v, w_size(ctx, rng, *v), 20 * big, False
    if kind == "at":
        if huge:
            big = 1
        v = (c(["linear", "merges", "ladder", "roots"]), "none", 1, c([(), ("--summary",)]), 0) if huge else (c(["linear", "merges", "ladder", "roots"]), c(["none", "last", "middle", "top"]), c([0, 0, 1, 2]), c([(), (), ("--summary",), ("--no-fixup",)]), c([0, 0, 5]))
        return v, w_at(ctx, rng, *v), (1500 if huge else 250) * big, True
    if kind == "message":
        v = (c([(), ("--summary",), ("--no-fixup",)]),)
        return v, w_message(ctx, rng, *v), 20 * big, True
    if kind == "refs":
        v = (c(["committerdate", "authordate"]), t(), t(), t())
        return v, w_refs(ctx, rng, *v), 250 * big, True
    v = (c([1, 5, 40]), t())
    return v, w_visits(ctx, rng, *v), 500 * big, True


def decide(what, name, sizes, got, grows, slack):
    a, b, c = got
    d1, d2 = b - a, c - b
    if grows:
        if d2 > RATIO * max(d1, 0) + slack:
            raise Violation("%s of %s grow from %d to %d to %d as the size doubles from %d" % (name, what, a, b, c, sizes[0]))
    elif max(b, c) - a > slack:
        raise Violation("%s of %s grow from %d to %d to %d although nothing of that size is asked for" % (name, what, a, b, c))


def run_job(ctx, rng, kind):
    huge = kind == "long"
    if huge:
        kind = "at"
    if isinstance(kind, tuple):
        kind, v = kind
        f, n, grows = w_args(ctx, rng, *v), 1500, True
    else:
        v, f, n, grows = make(ctx, rng, kind, huge)
    n += rng.randrange(n // 2)
    sizes = [n, 2 * n, 4 * n]
    ins, cnt, moved, ends = [], [], [], set()
    for k in sizes:
        argv, inp, cwd = f(k)
        i, p = instructions(ctx, argv, inp, cwd, ctx.env(GIT_PAGER="cat"))
        ends.add(p.rc)
        ins.append(i)
        if not cwd:
            # It has changed the store.
            argv, inp, cwd = f(k)
        x, y, p = calls(ctx, argv, inp, cwd, ctx.env(GIT_PAGER="cat"))
        ends.add(p.rc)
        cnt.append(x)
        moved.append(y)
    if len(ends) != 1:
        raise core.Other("the statuses differ: %r" % ends)
    what = "%s %r" % (kind, v)
    ctx.stats["kind_" + kind] += 1
    try:
        decide(what, "the instructions", sizes, ins, grows, 30000 + ins[0] * 0.05)
        decide(what, "the system calls", sizes, cnt, grows, 30 + cnt[0] * 0.03)
        decide(what, "the bytes read and written", sizes, moved, grows, 4000 + moved[0] * 0.03)
    except Violation as e:
        e.detail.update(sizes=sizes, instructions=ins, system_calls=cnt, bytes_moved=moved, argv=argv)
        raise
    if grows and ins[1] > ins[0]:
        ctx.stats["growth_ratio_%.1f" % ((ins[2] - ins[1]) / (ins[1] - ins[0]))] += 1
    return {"key": (kind, v, n), "sample": {"kind": kind, "variant": v, "sizes": sizes, "instructions": ins, "system_calls": cnt, "bytes": moved}}


def jobs(ctx):
    return ["long"] + [("args", (c, False)) for c in CMDS if c != b"junk\n"] + [k for k in dict.fromkeys(KINDS) if k != "args"]


def case(ctx, rng, n):
    return run_job(ctx, rng, rng.choice(KINDS))
