"""C06: no input crashes the LFS server or makes it emit malformed output."""
import os
import shutil

from lib import core, fuzz, gen, model, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = 'mutation fuzzing with run-time checks and a protocol and store monitor'
NOTE = 'Millions of mutated requests per run at most; a hang or crash is seen only if an explored stream causes it. Built with overflow checks and debug assertions.'
LEVEL = "exploration"
QUICK_S = 30
THOROUGH_S = 900
RULE = ("streams of valid and invalid requests, mutated at byte, header, line and packet level, or random, fed to sessions of either "
        "operation over stores with objects, locks and corrupt lock files, with all of Rust's run-time checks on; the exit status, "
        "stderr, the form of the whole output, the validity of every stored object and (against a run of the stream cut off there) "
        "the effects after a malformed header are checked. Streams are the same if they give the same statuses, end and exit.")
W = {"put": 3, "badput": 2, "get": 2, "batch": 3, "verify": 2, "lock": 3, "unlock": 2, "list": 3, "junk": 5, "version": 1}
HEXISH = b"0123456789abcdef:g/`@GAF \n\0\xff-+"


def jobs(ctx):
    """Every header of one unusual character, and every short header value, as the first, and as a data packet's header."""
    out = []
    for pos in range(4):
        out.append(("byte", pos))
    for hi in range(0, 8):
        out.append(("value", hi))
    return out


def run_job(ctx, rng, job):
    """Headers are tried in batches, one session each, on one store."""
    kind, x = job
    g = model.new_repo(ctx)
    keys = []
    n = 0
    if kind == "byte":
        heads = []
        for c in range(256):
            h = bytearray(rng.choice([b"000a", b"ffff", b"0000", b"fff0", b"0fff"]))
            h[x] = c
            heads.append(bytes(h))
    else:
        vals = list(range(0, 10)) + list(range(65510, 65536)) + [rng.randrange(65536) for _ in range(24)]
        heads = [b"%04x" % v for i, v in enumerate(vals) if i % 8 == x]
    for h in heads:
        for where in (0, 1):
            tail = rng.randbytes(rng.choice([0, 3, 6, 100])) + b"0000" + proto.version().raw
            data = h + tail if where == 0 else proto.pkt(b"put-object " + b"0" * 64 + b"\n") + b"000bsize=6\n" + b"0001" + h + tail
            for mode in ("upload", "download"):
                p = model.session(ctx, g, mode, data)
                n += 1
                check_end(ctx, p, data, mode)
                keys.append((h, where, mode, p.rc))
    return {"evaluations": n, "keys": keys}


def check_end(ctx, p, data, mode, **kw):
    c = model.crashed(p.rc, p.err)
    if c:
        raise Violation("the server %s" % c, end=model.describe_exit(p.rc, p.err), input=data, mode=mode, **kw)
    if p.rc == 2 and not p.err.strip():
        raise Violation("exit status 2 without a message", input=data, mode=mode, **kw)
    try:
        adv, resps, rest = proto.parse_stream(p.out)
        for r in resps:
            if not (200 <= r.status < 300 or 400 <= r.status < 600):
                raise proto.Malformed("status %d" % r.status)
            r.argmap()
    except proto.Malformed as e:
        raise Violation("malformed output: %s" % e, input=data, out=p.out, mode=mode, **kw)
    if rest:
        raise Violation("an incomplete response was sent", input=data, out=p.out, mode=mode, **kw)
    if adv != [("data", b"version=1\n")]:
        raise Violation("the session starts with %r" % (adv,), input=data, out=p.out, mode=mode, **kw)
    for r in resps:
        ctx.stats["status_%d" % r.status] += 1
    reqs, ends, cur, off, why = fuzz.segment(data)
    for i, r in enumerate(reqs):
        if fuzz.is_quit(r):
            why = "quit"
            reqs = reqs[:i + 1]
            break
    if why == "header" and fuzz.is_quit(cur):
        # Quitting need not wait for its flush.
        why = "quit"
    if why == "header":
        ctx.stats["malformed_headers"] += 1
        if p.rc != 2:
            raise Violation("a malformed packet header was accepted", offset=off, header=data[off:off + 4], input=data,
                            mode=mode, end=model.describe_exit(p.rc, p.err), **kw)
        if len(resps) > len(reqs) + 1 or (len(resps) == len(reqs) + 1 and resps[-1].ok() and not fuzz.is_quit(cur)):
            raise Violation("requests after a malformed packet header were answered", offset=off, input=data, mode=mode,
                            responses=[r.brief() for r in resps], **kw)
    return resps, why, off


def effects(gitdir):
    """Objects and locks, without what may differ between two runs."""
    locks = {}
    d = os.path.join(gitdir, "lfs", "locks")
    for f in sorted(os.listdir(d)):
        p = os.path.join(d, f)
        if os.path.isfile(p):
            with open(p, "rb") as fh:
                c = fh.read()
            parts = c.split(b":", 2)
            locks[f] = parts[2] if len(parts) == 3 else c
    return model.scan_objects(gitdir), locks


def case(ctx, rng, n):
    g = model.new_repo(ctx)
    m = model.Model(g)
    pool = gen.Pool(rng, 3, 3, big=0.08)
    mode = rng.choice(["upload", "upload", "download"])
    try:
        if rng.random() < 0.8:
            seq.learn_ids(ctx, m, pool)
            model.run_reqs(ctx, m, "upload", [gen.mixed(rng, pool, m, {"put": 3, "lock": 2}) for _ in range(rng.randrange(1, 5))])
        reqs = [gen.mixed(rng, pool, m, W) for _ in range(rng.randrange(1, 9))]
    except Bad as b:
        model.raise_for(ctx, b)
    corrupt = rng.random() < 0.4
    if corrupt:
        fuzz.corrupt_store(rng, g)
    if rng.random() < 0.05:
        data = rng.randbytes(rng.randrange(1, 300))
    elif rng.random() < 0.05:
        data = bytes(rng.choice(HEXISH) for _ in range(rng.randrange(1, 60)))
    else:
        data = b"".join(r.raw for r in reqs)
        if rng.random() < 0.93:
            data = fuzz.mutate(rng, data, pool)
    twin = None
    off = fuzz.segment(data)[3]
    why = fuzz.segment(data)[4]
    if why == "header" and mode == "upload" and rng.random() < 0.5:
        twin = ctx.dir("twin")
        shutil.copytree(g, os.path.join(twin, "r"))
        twin = os.path.join(twin, "r")
    before = model.scan_objects(g)
    p = model.session(ctx, g, mode, data)
    resps, why, off = check_end(ctx, p, data, mode, corrupt_locks=corrupt)
    got = model.scan_objects(g)
    for f, d in got.items():
        if f in before:
            if d != before[f]:
                raise Violation("hostile input changed a stored object", input=data, mode=mode)
        else:
            name = f.rsplit("/", 1)[-1]
            if f != "%s/%s/%s" % (name[:2], name[2:4], name) or model.sha(d).decode() != name:
                raise Violation("hostile input stored an invalid object %r" % f, input=data, mode=mode)
    if set(before) - set(got):
        raise Violation("hostile input removed an object", input=data, mode=mode)
    if twin:
        ctx.stats["twin_runs"] += 1
        model.session(ctx, twin, mode, data[:off])
        a, b = effects(g), effects(twin)
        if a != b:
            raise Violation("something after a malformed packet header took effect", input=data, offset=off,
                            objects=sorted(set(a[0]) ^ set(b[0])), locks=sorted(set(a[1]) ^ set(b[1])))
    # The store must still be usable, and what is listed must be well formed.
    p2 = model.session(ctx, g, "upload", proto.list_lock().raw + proto.version().raw)
    r2, _, _ = check_end(ctx, p2, proto.list_lock().raw + proto.version().raw, "upload", after_input=data)
    if [x.status for x in r2] != [200, 200]:
        raise Violation("listing locks fails after hostile input", input=data, responses=[x.brief() for x in r2])
    try:
        proto.parse_lock_list(r2[0].data)
    except proto.Malformed as e:
        raise Violation("malformed lock listing: %s" % e, input=data, response=r2[0].brief())
    ctx.stats["end_" + why] += 1
    ctx.stats["input_bytes"] += len(data)
    return {"key": (mode, why, p.rc, tuple(x.status for x in resps), p.err[:60]),
            "sample": {"mode": mode, "input": data[:400], "end": why, "exit": p.rc, "statuses": [x.status for x in resps]}}
