"""From a sysmon record to operations with intervals, and a linearizability search."""
from . import proto
from .core import Inconclusive


class Op:
    __slots__ = ("child", "i", "req", "resp", "start", "end", "what", "arg", "pending")

    def __init__(self, child, i, req, resp, start, end):
        self.child, self.i, self.req, self.resp, self.start, self.end = child, i, req, resp, start, end
        self.what = self.arg = None
        self.pending = resp is None

    def brief(self):
        return {"session": self.child, "request": self.req.brief(), "response": self.resp.brief() if self.resp else None,
                "interval": [self.start, self.end]}


def ops_of(run, child, reqs):
    """The operations of one session: each is placed between its first and last access to the store.

    Raises proto.Malformed if the output isn't a sequence of responses."""
    _, resps, rest = proto.parse_stream(run.out[child], partial_ok=True)
    if len(resps) > len(reqs):
        raise proto.Malformed("%d responses to %d requests" % (len(resps), len(reqs)))
    events = run.of(child)
    writes, cum = [], 0   # (index into events, bytes written up to and including it)
    for k, e in enumerate(events):
        if e.path == "<1>" and e.name.startswith("write") and e.ret and e.ret > 0:
            cum += e.ret
            writes.append((k, cum))
    lastseq = run.endseq.get(child, 1 << 60)
    out = []
    lower, prev_end = -1, None
    for i, r in enumerate(reqs):
        x = resps[i] if i < len(resps) else None
        if x is not None:
            begin = prev_end
            if begin is None:
                # After the advertisement.
                for k, c in writes:
                    if c < x.end:
                        lower = k if c <= _advert_end(run.out[child]) else lower
            w = next((k for k, c in writes if c >= x.end), len(events))
            mine = [e for e in events[lower + 1:w] if not e.path.startswith("<")]
            if mine:
                start, end = mine[0].released, max(e.xseq if e.xseq is not None else lastseq for e in mine)
            else:
                start = events[lower].seq if lower >= 0 else 0
                end = events[w].seq if w < len(events) else lastseq
            out.append(Op(child, i, r, x, start, end))
            if w < len(events) and any(k == w and c == x.end for k, c in writes):
                lower = w
            prev_end = x.end
        elif child in run.killed:
            mine = [e for e in events[lower + 1:] if not e.path.startswith("<")]
            start = mine[0].released if mine else (events[lower].seq if lower >= 0 else 0)
            out.append(Op(child, i, r, None, start, lastseq))
    return out


def _advert_end(buf):
    pos = 0
    for t, d, end in proto.parse_packets(buf, True):
        if t == "flush":
            return end
    return 0


def linearize(ops, init, step, limit=200000):
    """Whether some order of the operations which respects their intervals is allowed by step().

    step(state, op) yields the possible next states. Pending operations may be left out. States are hashable."""
    n = len(ops)
    full = sum(1 << i for i, o in enumerate(ops) if not o.pending)
    seen = set()
    stack = [(0, init)]
    tries = 0
    while stack:
        done, state = stack.pop()
        if done & full == full:
            return True
        if (done, state) in seen:
            continue
        seen.add((done, state))
        tries += 1
        if tries > limit:
            raise Inconclusive("linearizability search too large")
        horizon = min(o.end for i, o in enumerate(ops) if not done >> i & 1 and not o.pending)
        for i, o in enumerate(ops):
            if done >> i & 1 or o.start > horizon:
                continue
            for s in step(state, o):
                stack.append((done | 1 << i, s))
    return False
