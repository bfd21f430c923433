"""C01: stored objects always match their ID and declared size."""
import os

from lib import core, gen, model, proto, seq
from lib.model import Bad

TECHNIQUE = 'reference-model monitor over random upload histories, byte-exact store audit'
NOTE = 'The real server is run on random mixes of valid and corrupt uploads; every response and every stored byte is compared with a model. Assurance is that of the explored histories.'
LEVEL = "exploration"
SAME_PID = 0.4  # share of cases in which all sessions have the same process ID
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random histories of up to 5 sessions over a pool of objects, mixing valid uploads with uploads whose bytes, size, ID or "
        "form is wrong, under random packet splittings; after every session each response is compared with a reference model and "
        "every file of the store is compared byte for byte; also uploads in stores with foreign leftovers named like the objects, and uploads whose stream breaks off. Some histories have up to four live sessions at once, each request answered before the next is sent to any, with objects removed, stored or linked by hand in between. Two histories are the same if they have the same kinds, sizes and "
        "statuses; trivial ones (no upload at all) are not counted.")
ASSUMPTIONS = ["SHA-256 and the file system behave"]
W = {"upload": {"put": 5, "badput": 6, "verify": 1, "batch": 1, "junk": 1}, "download": {"get": 4, "badput": 1, "put": 1}}


def shape(rng, pool, m, mode, reqs):
    if mode == "upload" and rng.random() < 0.3:
        # A rejected upload right before or after an accepted one of the same object.
        r = gen.put_req(rng, pool)
        other = proto.put(r.f["oid"], r.f["data"] + b"x", size=len(r.f["data"]))
        reqs += rng.choice([[r, other], [other, r], [r, r], [other, other]])
    return reqs


OLD = ["incomplete/%s", "tmp/%s", "incomplete/%s.tmp", "incomplete/%s.part", "incomplete/%s.lock", "tmp/%s.tmp", "objects/%s", "incomplete/%s-1", "tmp/.%s",
       "incomplete/%sabcdefghijkl", "incomplete/%sZ9yX8w", "incomplete/.%sQ1w2E3"]


def leftovers(ctx, rng, m, pool):
    """What other or earlier programs may have left under names like those of the objects."""
    for o in pool.oids:
        for name in rng.sample(OLD, 8):
            p = os.path.join(m.gitdir, "lfs", name % o.decode())
            if name.startswith("objects"):
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(rng.choice([b"", b"x", b"left over" * 3000, pool.blobs[0], pool.blobs[0] * 2, rng.randbytes(100000)]))
            if rng.random() < 0.6:
                core.age(p, rng)
            ctx.stats["planted_leftovers"] += 1


def leftover_case(ctx, rng):
    """Uploads in a store full of leftovers, and ones whose stream breaks off, are stored exactly or not at all."""
    m = model.Model(model.new_repo(ctx))
    pool = gen.Pool(rng, rng.randrange(1, 4), 1, big=0.2)
    broken = b""
    try:
        if rng.random() < 0.7:
            leftovers(ctx, rng, m, pool)
        before = set(model.residue(m.gitdir))
        for _ in range(rng.randrange(1, 4)):
            model.run_reqs(ctx, m, "upload", [gen.put_req(rng, pool) if rng.random() < 0.6 else gen.corrupt_put(rng, pool) for _ in range(rng.randrange(1, 5))])
            b = rng.choice(pool.blobs)
            head = proto.pkt(b"put-object " + model.sha(b) + b"\n") + proto.pkt(b"size=%d\n" % len(b)) + proto.DELIM
            body = b"".join(proto.pkt(b[i:i + 60000]) for i in range(0, len(b), 60000))
            broken = head + rng.choice([body, body, body[:rng.randrange(len(body) + 1)]]) + rng.choice(
                [b"", b"zzzz", b"0002", b"0003", b"fff5", b"00", b"FFFF", b"000", b"0009a", b"0x10"])
            p = model.session(ctx, m.gitdir, "upload", broken)
            _, resps, _ = proto.parse_stream(p.out, partial_ok=True)
            if any(x.ok() for x in resps):
                raise Bad({"C01"}, "an upload which broke off was acknowledged", response=resps[0].brief())
            got = set(model.residue(m.gitdir)) - before
            if got:
                raise Bad({"C01"}, "an upload which broke off left files behind: %r" % sorted(got)[:3])
            m.check_store({"C01"}, clean=False)
            ctx.stats["broken_streams"] += 1
    except Bad as b:
        model.raise_for(ctx, b, stream=broken[-300:])
    except proto.Malformed as e:
        raise core.Other(str(e))
    return {"key": ("leftovers", tuple(len(b) for b in pool.blobs), len(before), broken[-8:]),
            "sample": {"leftovers": len(before), "then uploads and broken uploads of": [len(b) for b in pool.blobs]}}


def case(ctx, rng, n):
    if rng.random() < 0.2:
        return leftover_case(ctx, rng)
    if rng.random() < 0.1:
        return seq.live_case(ctx, rng, W, modes=("upload",), hands=0.4)
    r = seq.seq_case(ctx, rng, W, modes=("upload", "upload", "upload", "download"), big=0.25, huge=0.01,
                     store_tags=("C01",), shape=shape)
    if not r.pop("uploads"):
        r["key"] = None
    return r
