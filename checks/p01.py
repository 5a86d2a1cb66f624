"""P01: message framing under any fragmentation (specs/Framing.tla)."""
import json

TECHNIQUE = 'TLA+ model (Framing) explored by TLC; every transition replayed on both buffer implementations'
LEVEL_NOTE = ('Exhaustive within bounds: all interleavings of write/read(n)/next/iter/has/len/getvalue/truncate with all cut positions '
  'over a set of streams (empty and long bodies, impossible sizes, truncated tails); the byte contents are a fixed injective pattern.')

# --- under test
def body(si, j, n):
    return bytes(((si * 31 + j * 7 + i * 3 + i // 251) & 0xff) for i in range(n))

TYPES = [68, 90, 100, 0, 127, 255, 84, 128]
def stream_bytes(streams, si):
    b = b''
    for j, n in enumerate(streams[si - 1], 1):
        t = TYPES[(si + j) % len(TYPES)]
        b += bytes([t]) + (n + 4).to_bytes(4, 'big') + (body(si, j, n) if n > 0 else b'')
    return b
def message(streams, si, j):
    n = streams[si - 1][j - 1]
    return (bytes([TYPES[(si + j) % len(TYPES)]]), body(si, j, n))

def worker(job):
    if job['pure']:
        from postgresql.protocol.pbuffer import pq_message_stream
    else:
        from postgresql.port.optimized import pq_message_stream
    streams = job['streams']
    data = {i: stream_bytes(streams, i) for i in range(1, len(streams) + 1)}
    msgs = {(i, j): message(streams, i, j) for i in range(1, len(streams) + 1) for j in range(1, len(streams[i - 1]) + 1) if streams[i-1][j-1] >= 0}
    def observe(b, act, si, fed):
        op = act['op']
        try:
            if op == 'write':
                return b.write(data[si][fed:fed + act['n']]) and 'junk'
            if op == 'read':
                return list(b.read())
            if op == 'readn':
                return list(b.read(act['n']))
            if op == 'next_message':
                r = b.next_message()
                return 'none' if r is None else [r]
            if op == 'iter':
                try:
                    return [next(b)]
                except StopIteration:
                    return 'none'
            if op == 'has':
                return b.has_message()
            if op == 'len':
                return len(b)
            if op == 'getvalue':
                return b.getvalue()
            if op == 'truncate':
                b.truncate()
                return None
        except ValueError:
            return 'err'
        raise AssertionError(op)
    def run(walk):
        b = pq_message_stream()
        si, fed = walk['init']['si'], walk['init']['fed']
        hist = []
        for act, obs, st in walk['steps']:
            hist.append(act)
            got = observe(b, act, si, fed)
            r = obs['r']
            if r == 'ok':
                # write() may return a byte count
                good = got is None or got == 'junk'
                got = None if good else got
                exp = None
            elif r == 'err':
                exp = 'err'
            elif r == 'none':
                exp = 'none'
            elif r == 'msgs':
                exp = [msgs[(si, obs['from'] + x)] for x in range(obs['n'])]
            elif r in ('bool', 'int'):
                exp = obs['v']
            elif r == 'bytes':
                exp = data[si][obs['from']:obs['to']]
            if got != exp:
                return {'fail': {'key': 'step:%s:%s' % (act['op'], r), 'msg': 'stream %r after %r: expected %r, got %r' % (
                    streams[walk['init']['si'] - 1], hist, exp, got)}, 'steps': len(hist)}
            si, fed = st['si'], st['fed']
        return {'steps': len(hist)}
    return run

def run(ctx):
    from vlib import tlc, walk, pool
    ops = ['write', 'read', 'readn', 'next_message', 'iter', 'has', 'len', 'getvalue', 'truncate']
    inv = ['InOrder', 'Conserved']
    T = ctx.thorough
    configs = [
        # chunk boundaries in the state: every cut combination of short streams
        ('cuts', [[0, 1], [2], [1, -1], [0, 0]] if not T else [[0, 1], [2, 0], [1, -1], [0, 0], [3], [0, -4, 0]], {1, 2, 3}, True, 1),
        # messages of many sizes; cuts at and around all boundaries
        ('sizes', [[0, 3, 0, 7], [5, 0, 0], [0, 0, 0, 0, 0], [1, -1, 2], [9, 4, -4], [-2], [0, 12, 1]], {2} if not T else {1, 4, 5}, False, 1),
        # beyond the block and limit sizes of the implementations
        ('large', [[700, 700, 700, 0, 20], [2100, 0, 511, 512], [3000, 10, -3], [507, 512, 1019, 3]], set() if not T else {512}, False, 1),
        # more messages than any block the implementations work in
        ('many', [[0] * 600, [4] * 250 + [0] * 50 + [300, 1], [2] * 520 + [-1]], set(), False, 130),
    ]
    total_edges = 0
    for name, streams, steps, cuts, every in configs:
        _, _, edges = tlc.run(ctx, 'Framing', {'Streams': streams, 'Steps': steps, 'TrackCuts': cuts, 'MarkEvery': every, 'Reads': {0, 1, 2} if every == 1 else {130, 257, 511, 512, 513}}, invariants=inv, coverage_required=[o for o in ops if every == 1 or o not in ('iter', 'next_message')])
        inits = [{'si': i, 'fed': 0, 'k': 1, 'cuts': []} for i in range(1, len(streams) + 1)]
        g = walk.Graph(edges, init=inits)
        ws, n = g.cover(ctx.rng, maxlen=120)
        total_edges += n
        ws += g.random_walks(ctx.rng, 100 if not T else 6000, 80)
        items = [g.expand(w) for w in ws if w]
        if name == 'cuts':
            ctx.sample(items[0])
        for pure in (False, True):
            done, skipped = pool.replay(ctx, 'checks.p01', items, {'pure': pure, 'streams': streams}, key_prefix='%s:' % ('python' if pure else 'C'))
    ctx.cov['edges_covered'] = total_edges
    ctx.cov['exhaustive'] = True
