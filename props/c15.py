"""C15: pkt-line data survives a write and read unchanged."""
from lib import pkt

TECHNIQUE = "differential monitor of the real library in a Rust harness, with fragmenting and interrupting streams"
NOTE = ("Random sequences of writes through the real writer are checked against an independent description of the format and read back "
        "in five ways; built with overflow checks and debug assertions. Only the explored payloads and fragmentations are decided.")
LEVEL = "exploration"
QUICK_S = 25
THOROUGH_S = 600
RULE = ("random sequences of packets and streamed writes (lengths around every packet, header digit and buffer boundary, up to 200000 bytes) "
        "go through the real Writer to a stream that accepts any part of each write and is sometimes interrupted; the bytes are checked "
        "against the format and read back packet-wise, by iteration, streamed with several buffer sizes, and mixed, from a stream that "
        "returns arbitrary fragments; hundreds of thousands of empty or tiny packets in a row are read in each way, too. Each time other writes go to a stream which breaks after some byte or at some flush, in one of nine ways, "
        "and the error and what was written before it are checked. Two cases are the same if the sequence of kinds and lengths of writes is.")
ASSUMPTIONS = ["the payload's values matter only through the patterns tried (random, constant, text that looks like headers)"]
build = pkt.build


def case(ctx, rng, n):
    return pkt.run(ctx, "round", rng.randrange(1, 1 << 60), 60)


def jobs(ctx):
    return [600000] + ([3000000] if ctx.thorough else [])


def run_job(ctx, rng, size):
    return pkt.run(ctx, "many", rng.randrange(1, 1 << 60), size)
