"""C04: batch and verify answers reflect what the store holds."""
from lib import gen, seq

TECHNIQUE = 'reference-model monitor over random batch and verify histories'
NOTE = 'Each answer line is compared with a model of the store in random histories.'
LEVEL = "exploration"
QUICK_S = 20
THOROUGH_S = 400
RULE = ("random histories of sessions of both operations in which batch and verify requests over a small pool of objects (with "
        "duplicates, absent objects, wrong and extreme sizes, invalid entries) are mixed with uploads; every answer is compared with "
        "the reference model. Some histories have up to four live sessions at once, each request answered before the next is sent to any, with objects removed, stored or linked by hand in between. Histories are the same if they have the same kinds, sizes and statuses.")
W = {"upload": {"batch": 6, "verify": 6, "put": 3, "badput": 1, "junk": 2}, "download": {"batch": 6, "get": 1, "junk": 1, "verify": 1}}


def shape(rng, pool, m, mode, reqs):
    if rng.random() < 0.05:
        # A batch much larger than one packet.
        reqs.append(gen.batch_req(rng, pool, m, maxn=rng.choice([150, 2000, 2000, 2000, 20000])))
    return reqs


def case(ctx, rng, n):
    if rng.random() < 0.2:
        return seq.live_case(ctx, rng, W, big=0.1)
    return seq.seq_case(ctx, rng, W, sessions=(2, 6), requests=(1, 10), big=0.1, store_tags=("C01",), shape=shape,
                        store_every=False)
