"""P03: requests and responses stay in step (specs/Session.tla)."""
import itertools
TECHNIQUE = 'TLA+ model (Session) explored by TLC; every transition replayed through protocol.client3.Connection over a scripted socket'
LEVEL_NOTE = ('Exhaustive within bounds over request batches, legal responses, errors at any request, every single illegal response; '
  'groupings of responses into reads are enumerated for short behaviours and sampled for long ones.')
from .session import worker
PLANS = ('one', 'all', 'rand', 'bytes')

def batches(n):
    req = ['P', 'B', 'Ds', 'Dp', 'X', 'C', 'H', 'S', 'Q', 'F']
    r = []
    for k in range(n + 1):
        for pre in itertools.product(req, repeat=k):
            for e in ('S', 'Q', 'F'):
                r.append(list(pre) + [e])
    return r

def replays(ctx, name, bs, consts, job=None, nrandom=0, rlen=30, plans=PLANS, ops=('srv', 'async', 'send', 'done', 'fail'), sample=None, modname='checks.session', pures=(False, True)):
    from vlib import tlc, walk, pool
    c = {'Batches': bs, 'MaxRows': 2, 'MaxAsync': 1, 'MaxHeld': 0, 'MaxBatches': 1, 'WithFaults': True}
    c.update(consts)
    _, _, edges = tlc.run(ctx, 'Session', c, invariants=['TypeOK', 'DoneAtReady', 'NeverStuck', 'ErrSkips'], coverage_required=ops)
    def skip(b):
        i = 1
        while i <= len(b) and b[i - 1] == 'H': i += 1
        return i
    inits = [{'b': i + 1, 'off': skip(b), 'st': 'start', 'mode': 'run', 'err': False, 'rows': 0, 'na': 0, 'held': 0, 'nb': 1} for i, b in enumerate(bs)]
    g = walk.Graph(edges, init=inits)
    ws, n = g.cover(ctx.rng, maxlen=rlen)
    ctx.cov['edges_covered'] = ctx.cov.get('edges_covered', 0) + n
    ws += g.random_walks(ctx.rng, nrandom, rlen)
    items = [[g.expand(w), p, ctx.rng.randrange(1 << 30)] for w in ws if w for p in plans]
    ctx.sample({'behaviour': items[0][0], 'batch': bs[items[0][0]['init']['b'] - 1], 'grouping': items[0][1]})
    for pure in pures:
        j = dict(job or {}, batches=bs, pure=pure)
        pool.replay(ctx, modname, items, j, key_prefix='%s:%s:' % (name, 'python' if pure else 'C'))

def run(ctx):
    T = ctx.thorough
    replays(ctx, 'batches1', batches(1), {'MaxAsync': 2}, nrandom=300, plans=PLANS)
    replays(ctx, 'batches', batches(2), {'WithFaults': T}, nrandom=300, plans=PLANS if T else ('rand', 'bytes'))
    seq = [['P', 'B', 'Ds', 'X', 'S'], ['Q'], ['B', 'X', 'H', 'X', 'C', 'S'], ['F'], ['P', 'H', 'Ds', 'S', 'B', 'X', 'S']]
    replays(ctx, 'sequences', seq, {'MaxBatches': 3, 'MaxHeld': 1, 'MaxRows': 3, 'MaxAsync': 2}, nrandom=2000 if not T else 20000, rlen=60,
        ops=('srv', 'async', 'send', 'done', 'fail', 'held', 'refuse'))
    if T:
        replays(ctx, 'batches3', batches(3), {'MaxAsync': 0, 'MaxRows': 1}, plans=('one', 'all', 'bytes'), ops=('srv', 'done'))
