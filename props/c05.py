"""C05: exactly one response per request, in order, before the next is read."""
import os

from lib import core, gen, live, model, proto, seq
from lib.core import Violation
from lib.model import Bad

TECHNIQUE = 'online protocol monitor on live pipes with blocked-state observation'
NOTE = 'A live server is driven over pipes; responses are counted whenever it is observed blocked on empty input.'
LEVEL = "exploration"
QUICK_S = 30
THOROUGH_S = 600
RULE = ("random sequences of valid, invalid and refused requests (also with data, delimiters and further lines after the point of "
        "rejection) sent to a live server all at once, one by one, or in random fragments; each time the server is seen blocked on "
        "its empty input (its /proc state), the responses received so far must be exactly those due, and at the end the number, "
        "order and kind of all responses must match the reference model. Sessions are the same if they have the same kinds, "
        "statuses and way of sending.")
ASSUMPTIONS = ["a server blocked in a read of its empty standard input won't send anything until more input arrives"]
WU = {"put": 3, "badput": 3, "verify": 2, "batch": 2, "lock": 2, "unlock": 2, "list": 2, "junk": 8, "get": 1, "version": 1}
WD = {"get": 3, "batch": 2, "list": 2, "junk": 8, "put": 2, "badput": 1, "verify": 1, "lock": 1, "unlock": 1, "version": 1}


def fragments(rng, data, marks):
    """Splits data at random places, often near the marks (ends of requests)."""
    cuts = set()
    for _ in range(rng.randrange(1, 12)):
        if rng.random() < 0.6 and marks:
            cuts.add(max(0, min(len(data), rng.choice(marks) + rng.randrange(-6, 7))))
        else:
            cuts.add(rng.randrange(len(data) + 1))
    cuts = sorted(cuts | {0, len(data)})
    return [data[a:b] for a, b in zip(cuts, cuts[1:]) if b > a]


def case(ctx, rng, n):
    g = model.new_repo(ctx, bare=rng.random() < 0.7)
    m = model.Model(g)
    pool = gen.Pool(rng, 4, 3, big=0.1)
    mode = rng.choice(["upload", "upload", "download"])
    way = rng.choice(["pipelined", "lockstep", "fragments", "fragments"])
    reqs = []
    try:
        seq.learn_ids(ctx, m, pool)
        if mode == "download" or rng.random() < 0.5:
            model.run_reqs(ctx, m, "upload", [gen.put_req(rng, pool) for _ in range(2)] + [proto.lock(pool.paths[0])])
        reqs = [gen.mixed(rng, pool, m, WU if mode == "upload" else WD) for _ in range(rng.randrange(1, 14))]
        if rng.random() < 0.2:
            reqs.append(proto.quit_())
        data = b"".join(r.raw for r in reqs)
        marks, pos = [], 0
        for r in reqs:
            pos += len(r.raw)
            marks.append(pos)
        s = live.Live(ctx, [ctx.bin("git-lfs-transfer"), g, mode])
        try:
            if way == "pipelined":
                s.send(data)
            else:
                if s.settle() and bytes(s.out) != b"000eversion=1\n0000":
                    raise Bad({"C05"}, "the server waits for requests having sent %r" % bytes(s.out[:100]))
                chunks = [r.raw for r in reqs] if way == "lockstep" else fragments(rng, data, marks)
                sent = 0
                for c in chunks:
                    if not s.send(c):
                        break
                    sent += len(c)
                    if not s.settle():
                        break
                    ctx.stats["times_seen_waiting"] += 1
                    due = sum(1 for x in marks if x <= sent)
                    partial = sent not in [0] + marks
                    try:
                        _, resps, rest = proto.parse_stream(bytes(s.out))
                    except proto.Malformed as e:
                        raise Bad({"C05", "C06"}, "the server waits for input having sent a partial response: %s" % e,
                                  sent_requests=due, out=bytes(s.out[-300:]))
                    if rest or not due <= len(resps) <= due + (1 if partial else 0):
                        raise Bad({"C05"}, "the server waits for input having sent %d responses%s to %d requests" % (
                            len(resps), " and part of another" if rest else "", due))
            rc = s.finish()
        except BaseException:
            s.kill()
            raise
        p = core.Proc(rc, bytes(s.out), bytes(s.err))
        c = model.crashed(p.rc, p.err)
        if c:
            raise Bad({"C05", "C06"}, "the server %s" % c, end=model.describe_exit(p.rc, p.err))
        try:
            adv, resps, rest = proto.parse_stream(p.out)
        except proto.Malformed as e:
            raise Bad({"C05", "C06"}, "malformed output: %s" % e, out=p.out)
        model.check_responses(ctx, m, mode, reqs, p, adv, resps, rest)
    except Bad as b:
        model.raise_for(ctx, b, way=way, mode=mode, requests=[r.brief() for r in reqs], input=b"".join(r.raw for r in reqs))
    ctx.stats["way_" + way] += 1
    ctx.stats["requests"] += len(reqs)
    return {"key": (way, seq.history_key([(mode, reqs, resps)])),
            "sample": {"way": way, "mode": mode, "requests": [{"request": r.brief(), "status": x.status}
                                                              for r, x in zip(reqs, resps)]}}
