"""C07: a truncated stream takes effect only up to its last complete request."""
from lib import core, fuzz, gen, model, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = 'stream truncation at every byte, compared with the reference model'
NOTE = 'Every prefix of the sampled streams is executed on the real server.'
LEVEL = "fault_enumeration"
QUICK_S = 30
THOROUGH_S = 600
RULE = ("streams of valid and invalid requests are cut at every byte (short streams) or at every packet boundary and around it "
        "(long ones) and each prefix is run on a fresh copy of the store; responses must be those of the complete requests plus at "
        "most one error, and afterwards objects, locks and residue must be what the complete requests imply. One evaluation is one "
        "prefix; prefixes are the same if the request kinds, the statuses and the kind of the cut packet and its place are.")
ASSUMPTIONS = ["the end of the stream is seen as end-of-file, as when the SSH connection closes"]
WU = {"put": 6, "badput": 2, "lock": 4, "unlock": 4, "list": 1, "batch": 1, "verify": 1, "junk": 1, "version": 1}


def locks_now(ctx, m, tags):
    """All locks, by walking the pages."""
    got, cursor = [], None
    for _ in range(50):
        p = model.session(ctx, m.gitdir, "download", proto.list_lock(cursor=cursor).raw)
        try:
            adv, resps, rest = proto.parse_stream(p.out)
            if len(resps) != 1 or resps[0].status != 200:
                raise Bad(tags, "listing locks afterwards fails", out=p.out[-500:], err=p.err[-500:])
            got += proto.parse_lock_list(resps[0].data)
            cursor = resps[0].argmap().get(b"next-cursor")
        except proto.Malformed as e:
            raise Bad(tags, "listing locks afterwards fails: %s" % e, out=p.out[-500:])
        if cursor is None:
            return got
    raise Bad(tags, "listing locks afterwards does not end")


def compare_locks(ctx, m, tags):
    got = {x["path"]: {k: x[k] for k in ("id", "path", "locked-at", "ownername")} for x in locks_now(ctx, m, tags)}
    if got != m.locks:
        raise Bad(tags, "locks held afterwards are %r instead of %r" % (sorted(got), sorted(m.locks)), got=got, want=m.locks)


def cuts_for(rng, data, ctx):
    if len(data) <= (700 if not ctx.thorough else 3000):
        return list(range(len(data) + 1))
    out = set()
    for o in fuzz.offsets(data) + [len(data)]:
        out |= {o + d for d in (-5, -2, -1, 0, 1, 3, 4, 5)}
    out |= {rng.randrange(len(data)) for _ in range(30)}
    out = sorted(x for x in out if 0 <= x <= len(data))
    if len(out) > 400:
        out = sorted(rng.sample(out, 400))
    return out


def case(ctx, rng, n):
    pool = gen.Pool(rng, 3, 3, big=0.05 if rng.random() < 0.3 else 0)
    if rng.random() < 0.7:
        pool.blobs = [b[:rng.randrange(1, 40)] for b in pool.blobs]
        pool.oids = [model.sha(b) for b in pool.blobs]
        pool.paths = [p[:30] for p in pool.paths]
    probe = model.Model(model.new_repo(ctx))
    try:
        seq.learn_ids(ctx, probe, pool)
        setup = [proto.lock(pool.paths[0])]
        if rng.random() < 0.5:
            setup.append(gen.put_req(rng, pool))
        probe.locks = {p: {"id": i} for p, i in probe.ids.items()}
        reqs = [gen.mixed(rng, pool, probe, WU) for _ in range(rng.randrange(1, 4))]
    except Bad as b:
        model.raise_for(ctx, b)
    if rng.random() < 0.15:
        reqs.append(proto.quit_())
    data = b"".join(r.raw for r in reqs)
    ends, pos = [], 0
    for r in reqs:
        pos += len(r.raw)
        ends.append(pos)
    cuts = cuts_for(rng, data, ctx)
    if not ctx.thorough and len(cuts) > 150:
        cuts = sorted(rng.sample(cuts, 150))
    keys = []
    cut = None
    tags = {"C07"}
    try:
        for cut in cuts:
            m = model.Model(model.new_repo(ctx))
            model.run_reqs(ctx, m, "upload", setup)
            whole = [r for r, e in zip(reqs, ends) if e <= cut]
            between = cut in ends or cut == 0
            p = model.session(ctx, m.gitdir, "upload", data[:cut])
            c = model.crashed(p.rc, p.err)
            if c:
                raise Bad(tags, "the server %s" % c, end=model.describe_exit(p.rc, p.err))
            try:
                adv, resps, rest = proto.parse_stream(p.out)
            except proto.Malformed as e:
                raise Bad(tags, "malformed output: %s" % e, out=p.out)
            if rest:
                raise Bad(tags, "an incomplete response was sent", out=p.out)
            extra = resps[len(whole):]
            partial = fuzz.segment(data[:cut])[2]
            if len(resps) < len(whole) or len(extra) > (0 if between else 1):
                raise Bad(tags, "%d responses to %d complete requests" % (len(resps), len(whole)),
                          responses=[x.brief() for x in resps])
            if extra and extra[0].ok() and not fuzz.is_quit(partial):
                raise Bad(tags, "an incomplete request was answered with %d" % extra[0].status,
                          response=extra[0].brief(), cut_request=partial[:4])
            for r, x in zip(whole, resps):
                try:
                    m.check(r, x, "upload")
                except Bad as b:
                    b.tags |= tags
                    raise
            if between and p.rc != 0:
                raise Bad(tags, "the session ended between requests with status %d" % p.rc, err=p.err)
            m.check_store(tags)
            compare_locks(ctx, m, tags)
            cutreq = reqs[len(whole)].kind if len(whole) < len(reqs) else "none"
            kind = "between" if between else (partial[-1][0] if partial else "header")
            ctx.stats["cut_in_" + (cutreq if not between else "none")] += 1
            keys.append((tuple((r.kind, x.status) for r, x in zip(whole, resps)), cutreq, kind, len(partial),
                         tuple(x.status for x in extra)))
            core.rmtree(m.gitdir, ctx.scratch)
    except Bad as b:
        model.raise_for(ctx, b, cut_at=cut, of=len(data), sent=data[:cut], requests=[r.brief() for r in reqs])
    return {"evaluations": len(cuts), "keys": keys,
            "sample": {"requests": [r.brief() for r in reqs], "stream_bytes": len(data), "prefixes_run": len(cuts)}}
