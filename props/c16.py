"""C16: malformed packets are rejected alike by every way of reading."""
from lib import pkt

TECHNIQUE = "differential monitor of the real library in a Rust harness over enumerated headers and damaged streams"
NOTE = ("Every header over a 37-character alphabet at all four places (all byte values at single places; thorough: all byte values at the "
        "first two) and random damaged streams are read in each way and compared with an independent description of the format.")
LEVEL = "exploration"
QUICK_S = 30
THOROUGH_S = 900
RULE = ("headers are enumerated over an alphabet of digits and near-digits, and streams of packets are cut, edited and extended at random; "
        "each is read packet-wise, by iteration, streamed with several buffer sizes, and mixed, from a stream returning arbitrary "
        "fragments, and compared with an independent parser, including what was consumed; some streams end with an I/O error of one of eight kinds instead of their end; packets too large are given to the writer. "
        "One evaluation is one header or stream; two streams are the same if their packets' kinds and lengths and their end are.")
ASSUMPTIONS = []
build = pkt.build
PARTS = 16


def jobs(ctx):
    out = [("headers", i, PARTS) for i in range(PARTS)]
    if ctx.thorough:
        out += [("allheaders", i, 256) for i in range(256)]
    return out


def run_job(ctx, rng, job):
    return pkt.run(ctx, *job)


def case(ctx, rng, n):
    return pkt.run(ctx, "damaged", rng.randrange(1, 1 << 60), 2000)
