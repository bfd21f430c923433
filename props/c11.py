"""C11: lock semantics and attributes are stable across sessions."""
import struct

from lib import gen, model, proto, seq

TECHNIQUE = 'reference-model monitor under a stepping clock (LD_PRELOAD)'
NOTE = 'Explored histories only; time is controlled through clock_gettime.'
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random histories of sessions locking, unlocking and listing a few paths of arbitrary bytes, with a clock that jumps between "
        "any two readings (LD_PRELOAD) and time zones and locales that differ between sessions, compared request by request with a reference model of locks that remembers every attribute "
        "first reported. Some histories have up to four live sessions at once. Histories are the same if they have the same kinds and statuses.")
ASSUMPTIONS = ["the server reads the time through the C library (as it does today), or the real clock"]
W = {"lock": 6, "unlock": 5, "list": 5, "junk": 1, "version": 1}
STEPS = [1, 1, 7, 60, 86400, 31557600]


def case(ctx, rng, n):
    if rng.random() < 0.15:
        return seq.live_case(ctx, rng, {"upload": W, "download": {"list": 5, "lock": 1, "unlock": 1}}, modes=("upload", "upload", "download"),
                             locks=True, store_tags=("C11",), hands=0)
    start, step = rng.choice([0, 1, 59, 951782399, 1000684800, 1 << 31, 4102444799]), rng.choice(STEPS)
    if rng.random() < 0.1:
        start = rng.randrange(-10 ** 9, 0)
    clock = ctx.dir("clock") + "/clock"
    with open(clock, "wb") as f:
        f.write(struct.pack("qq", start, step))
    g = model.new_repo(ctx, bare=rng.random() < 0.7)
    m = model.Model(g)
    pool = gen.Pool(rng, 2, rng.randrange(1, 6), big=0)
    if rng.random() < 0.3:
        # Paths which differ only slightly must not be confused.
        pool.paths += [gen.similar(rng, pool.paths[0]) for _ in range(rng.randrange(1, 6))]
    env = ctx.env(LD_PRELOAD=ctx.clockshim, CLOCKSHIM_FILE=clock)

    def settings():
        # Sessions come from machines with other time zones and languages.
        return dict(env, TZ=rng.choice(["UTC", "Asia/Tokyo", "America/St_Johns", "XXX-14:00", "YYY+11:30", "", ":/etc/localtime"]),
                    LC_ALL=rng.choice(["C", "C.UTF-8", "de_DE.UTF-8", "POSIX"]), LANG=rng.choice(["", "ja_JP.UTF-8"]))

    def reading():
        with open(clock, "rb") as f:
            return struct.unpack("qq", f.read())[0]

    done, reqs, mode = [], [], None
    try:
        lo = start
        m.time_range = lambda: (lo, reading())
        reqs = [proto.lock(p) for p in dict.fromkeys(pool.paths)]
        model.run_reqs(ctx, m, "upload", reqs, env=settings())
        reqs = [proto.list_lock()] + [proto.unlock(m.ids[r.f["path"]]) for r in reqs]
        rng.shuffle(reqs)
        model.run_reqs(ctx, m, "upload", reqs, env=settings())
        for _ in range(rng.randrange(1, 6)):
            mode = rng.choice(["upload", "upload", "upload", "download"])
            lo = reading()
            if mode == "download":
                reqs = [gen.mixed(rng, pool, m, {"list": 5, "lock": 1, "unlock": 1}) for _ in range(rng.randrange(1, 6))]
            else:
                reqs = [gen.mixed(rng, pool, m, W) for _ in range(rng.randrange(1, 12))]
                if rng.random() < 0.3:
                    # Every attribute through every kind of response.
                    p = rng.choice(pool.paths)
                    reqs += [proto.lock(p), proto.lock(p), proto.list_lock(path=p), proto.list_lock(), proto.unlock(m.ids[p]),
                             proto.unlock(m.ids[p]), proto.list_lock(path=p), proto.lock(p)]
            p, resps = model.run_reqs(ctx, m, mode, reqs, env=settings())
            done.append((mode, reqs, resps))
    except model.Bad as b:
        model.raise_for(ctx, b, clock=(start, step), last_session=[mode] + [r.brief() for r in reqs][-20:],
                        last_input=b"".join(r.raw for r in reqs),
                        earlier=[(a, [(r.brief(), x.status) for r, x in zip(q, c)]) for a, q, c in done][-4:])
    ctx.stats["sessions"] += len(done) + 2
    ctx.stats["requests"] += sum(len(r) for _, r, _ in done)
    ctx.stats["locks_created"] += sum(1 for _, r, x in done for q in x if q.status == 201)
    return {"key": seq.history_key(done),
            "sample": [[a, [{"request": r.brief(), "status": x.status} for r, x in zip(b, c)]] for a, b, c in done][:2]}
