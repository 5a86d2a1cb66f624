"""P04: asynchronous messages (specs/Session.tla, Inject.tla, Hooks.tla)."""
import gc, random, sys
TECHNIQUE = 'TLA+ models (Session, Inject, Hooks) explored by TLC; every transition replayed through protocol.client3 over a scripted socket and through the driver over a wire that injects messages into a real server\'s traffic'
LEVEL_NOTE = ('Exhaustive within bounds: every asynchronous message kind at every message position of 29 driver operations (up to two per operation) and of all request batches of '
  'up to two requests (three per batch), consumers that raise, all hook chains. Trusts the PostgreSQL 16 server in the sandbox for the undisturbed results.')
from . import live
from .session import wire_async, msg, fields

def worker_inject(job):
    from postgresql.python.element import format_element
    base = job['base']
    st = {}
    log = []; mode = {'raise': 0}; excs = []
    def fresh():
        p = live.Plan(); db = live.connect(job['sock'], 'w%d' % job['worker'], p); live.setup(db)
        for o in live.OPS: o(db)
        def hook(m):
            log.append(('N', m.message))
            # consumers render the message, as the default one does
            try: format_element(m)
            except Exception as x: log.append(('N', 'not renderable: %r' % (x,)))
            if mode['raise'] > 0 and len(log) and log[-1][1] in mode['bad']: raise ZeroDivisionError('consumer')
            return True
        db.msghook = hook
        def sub(d, k, v):
            log.append(('S', v))
            if v in mode['bad']: raise ZeroDivisionError('consumer')
        db.settings.subscribe('application_name', sub)
        mode['bad'] = set()
        st['db'], st['p'] = db, p
    def run(walk):
        if not st: fresh()
        rng = random.Random(len(walk['steps']))
        seq = 0; inj = {}; exp = []; held = []; hist = []; steps = 0
        p, db = st['p'], st['db']
        p.rng = None
        del log[:]; excs.clear(); mode['raise'] = 1; mode['bad'] = set()
        old = sys.excepthook
        sys.excepthook = lambda *a: excs.append(a)
        def bad(key, m):
            st.clear()
            return {'fail': {'key': key, 'msg': m + '\nhistory: %r' % (hist[-12:],)}, 'steps': steps}
        notif = []
        try:
            init = True
            o = walk['init']['o']
            nexc = 0
            last = None
            for act, obs, s2 in walk['steps']:
                steps += 1
                if act['op'] == 'async':
                    seq += 1
                    k = seq // 2 if act['m'] == 'A' else seq
                    val = {'N': 'notice %d' % k, 'A': str(k), 'S': str(k)}[act['m']]
                    inj.setdefault(act['pos'], []).append(wire_async(act['m'], k) if act['m'] != 'S' else msg('S', b'application_name\0%d\0' % k))
                    exp.append((act['m'], val))
                    if act['h'] == 'raise' and act['m'] != 'A':
                        mode['bad'].add(val); nexc += 1
                    if act['m'] == 'S': last = val
                elif act['op'] == 'finish':
                    b = base[act['o'] - 1]
                    hist.append((b['op'], {k: len(v) for k, v in inj.items()}, exp[-2:]))
                    p.inject = inj; p.count = 0
                    if rng.random() < .3: p.rng = rng
                    f = getattr(live, b['op'])
                    try:
                        r = f(db)
                    except Exception as e:
                        return bad('%s:raised' % b['op'], '%s with injected messages raised %r' % (b['op'], e))
                    p.rng = None
                    db.execute('')
                    # the operation may have taken fewer messages than it did undisturbed
                    left = [x for k in sorted(p.inject) for x in p.inject[k]]
                    p.inject = {p.count: left} if left else {}
                    db.execute('')
                    if r != b['result']:
                        return bad('%s:result' % b['op'], '%s: expected %r, got %r' % (b['op'], b['result'], r))
                    notif = [('A', y[1]) for y in db.iternotifies(0)]
                    ns = [x for x in exp if x[0] != 'A']
                    if sorted(log) != sorted(ns):
                        return bad('%s:delivery' % b['op'], '%s: expected delivery of %r, got %r' % (b['op'], ns, log))
                    if log != ns:
                        return bad('%s:order' % b['op'], '%s: expected delivery of %r, got %r' % (b['op'], ns, log))
                    if notif != [x for x in exp if x[0] == 'A']:
                        return bad('%s:notifies' % b['op'], '%s: expected %r, got %r' % (b['op'], [x for x in exp if x[0] == 'A'], notif))
                    if len(excs) != nexc:
                        return bad('%s:excepthook' % b['op'], '%d consumer exceptions, %d reported' % (nexc, len(excs)))
                    if last is not None and db.settings.cache.get('application_name') != last:
                        return bad('%s:setting' % b['op'], 'reported %r, known %r' % (last, db.settings.cache.get('application_name')))
                    if db.closed or db.pq.xact is not None or db.pq.state != b'I':
                        return bad('%s:state' % b['op'], 'connection %s %r' % (db.state, db.pq.state))
                    inj = {}; exp = []; del log[:]; excs.clear(); nexc = 0; mode['bad'] = set(); last = None
        finally:
            sys.excepthook = old
        return {'steps': steps}
    return run

def worker_hooks(job):
    "message hooks of the objects an operation involves, outward"
    import postgresql.sys as pg_sys, postgresql.message as pg_message
    st = {}
    def setup():
        p = live.Plan(); db = live.connect(job['sock'], 'w%d' % job['worker'], p); live.setup(db)
        s = db.prepare("SELECT g FROM generate_series(1,3) g")
        st.update(p=p, db=db, s=s)
    def attempt(make, chain, severity):
        p, db = st['p'], st['db']
        objs, act = make()
        calls = []; sysc = []; excs = []
        for i, k in enumerate(chain):
            ob = objs[i]
            if k == 'none': continue
            def hook(m, i=i + 1, k=k):
                calls.append((i, m.message))
                if k == 'raise': raise ZeroDivisionError
                return {'true': True, 'false': False}[k] if (i % 2) else {'true': 'yes', 'false': None}[k]
            ob.msghook = hook
        old, oe = pg_sys.msghook, sys.excepthook
        pg_sys.msghook = lambda m, *a, **k: sysc.append(m.message)
        sys.excepthook = lambda *a: excs.append(a)
        try:
            p.count = 0
            p.inject = {1: [msg('N', fields(('S', severity), ('C', '00000' if severity == 'NOTICE' else '01000'), ('M', 'm')))]}
            act()
        finally:
            pg_sys.msghook, sys.excepthook = old, oe
            for ob in objs:
                if 'msghook' in getattr(ob, '__dict__', {}): del ob.msghook
        return calls, sysc, len(excs)
    class O: pass
    def run(item):
        if not st: setup()
        kind, chain, called, end = item
        db, s = st['db'], st['s']
        if kind == 'plain':
            # factor chains of any depth, without a connection
            from postgresql.python.element import Element
            objs = []
            parent = None
            for i in range(len(chain)):
                class P:
                    _e_factors = ('up',) if i else ()
                o = P(); o.up = parent; objs.insert(0, o); parent = o
            calls = []; sysc = []; res = None
            for i, k in enumerate(chain):
                if k == 'none': continue
                def hook(m, i=i + 1, k=k):
                    calls.append((i, 'm'))
                    if k == 'raise': raise ZeroDivisionError
                    return k == 'true'
                objs[i].msghook = hook
            m = pg_message.Message('m', creator=objs[0])
            old = pg_sys.msghook
            pg_sys.msghook = lambda m, *a, **k: sysc.append('m')
            nex = 0
            try:
                m.emit()
            except ZeroDivisionError:
                nex = 1
            finally:
                pg_sys.msghook = old
        else:
            # ends of the chains: connection, connector, driver
            c = db.connector
            tail = [db, c, c.driver]
            def make():
                if kind == 'connection': return tail, lambda: db.execute('SELECT 1')
                if kind == 'statement':
                    return [s] + tail, lambda: s.first()
                if kind == 'cursor':
                    cur = s.declare()
                    return [cur, s] + tail, lambda: cur.read(1)
            calls, sysc, nex = attempt(make, chain, 'NOTICE' if len(called) % 2 else 'WARNING')
        exp = [(i, 'm') for i in called]
        if calls != exp or len(sysc) != (end == 'system') or nex != (end == 'raise'):
            return {'fail': {'key': 'hooks:%s:%s' % (kind, end), 'msg': 'chain %r: expected calls %r then %s, got %r, system %r, exceptions %r' % (
                chain, called, end, [x[0] for x in calls], sysc, nex)}}
        return {'steps': 1}
    return run

def worker_startup(job):
    "notices, reports during connection establishment"
    import postgresql.sys as pg_sys
    def run(item):
        kinds, pos = item
        p = live.Plan()
        got = []
        p.inject = {pos: [msg('N', fields(('S', 'NOTICE'), ('V', 'NOTICE'), ('C', '00000'), ('M', 'notice \u00e9%d' % i))) if m == 'N' else wire_async(m, i) if m != 'S' else msg('S', b'application_name\0%d\0' % i) for i, m in enumerate(kinds)]}
        c = live.connector(job['sock'], 'w%d' % job['worker'], p, sslmode='disable')
        c.msghook = lambda m: got.append(m.message) or True
        db = c()
        subs = []
        db.settings.subscribe('application_name', lambda d, k, v: subs.append(v))
        db.connect()
        db.execute('')
        exp = ['notice \u00e9%d' % i for i, m in enumerate(kinds) if m == 'N']
        exps = [str(i) for i, m in enumerate(kinds) if m == 'S']
        nt = [y[1] for y in db.iternotifies(0)]
        expn = [str(i) for i, m in enumerate(kinds) if m == 'A']
        subs = [x for x in subs if x]
        db.close()
        if got != exp or subs != exps or nt != expn:
            return {'fail': {'key': 'startup', 'msg': '%r at message %d: expected %r, got %r' % (kinds, pos, (exp, exps, expn), (got, subs, nt))}}
        return {'steps': 1}
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    from . import p03
    T = ctx.thorough
    for name, job in (('raise', {'raises': True}), ('equal', {'dup': True})):
        p03.replays(ctx, 'async-' + name, p03.batches(1), {'MaxAsync': 3, 'MaxRows': 1, 'WithFaults': False, 'MaxHeld': 1, 'MaxBatches': 2}, job=job, nrandom=300 if not T else 5000,
            plans=('one', 'rand', 'bytes') if T else ('rand', 'bytes'), ops=('srv', 'async', 'held', 'push'), pures=(False, True) if T or name == 'equal' else (True,))
    pgserver.Server(ctx); ctx.pg.databases(8)
    base = live.get_baseline(ctx)
    if base is None: return
    for stride in (1,) if not T else (1, 7):
        _, _, edges = tlc.run(ctx, 'Inject', {'Ops': [b['msgs'] for b in base], 'MaxInj': 2, 'Stride': stride}, invariants=['Bounded'], coverage_required=['msg', 'async', 'finish'])
        g = walk.Graph(edges, init=[{'o': i + 1, 'pos': 0, 'n': 0} for i in range(len(base))])
        ws, n = g.cover(ctx.rng, maxlen=60)
        ws += g.random_walks(ctx.rng, 50 if not T else 2000, 200)
        # end each walk with the end of an operation
        fin = {}
        items = []
        for w in ws:
            w = list(w)
            while w and g.edges[w[-1]][1]['op'] != 'finish':
                s = g.edges[w[-1]][3]
                e = next((e for e in g.out[s] if g.edges[e][1]['op'] == 'finish'), None)
                if e is None: e = next(e for e in g.out[s] if g.edges[e][1]['op'] == 'msg')
                w.append(e)
            items.append(g.expand(w))
        ctx.sample({'injection walk': [a for a, _, _ in items[0]['steps']][:20]})
        ctx.cov['injection_edges_covered'] = n
        pool.replay(ctx, 'checks.p04', items, {'sock': ctx.pg.sock, 'base': base}, func='worker_inject', key_prefix='driver:', limit=60)
    _, _, edges = tlc.run(ctx, 'Hooks', {'MaxDepth': 5, 'Kinds': {'none', 'false', 'true', 'raise'}}, invariants=['Ordered'], coverage_required=['visit', 'system'])
    ends = {}
    for s, a, o, t in edges:
        if t['done'] != 'no':
            ends[tuple(o['chain'])] = (o['called'], t['done'])
    items = []
    for ch, (called, end) in sorted(ends.items()):
        items.append(['plain', list(ch), called, end])
        for kind, depth in (('connection', 3), ('statement', 4), ('cursor', 5)):
            if len(ch) == depth and (T or depth < 5 or hash_(ch) % 3 == 0): items.append([kind, list(ch), called, end])
    pool.replay(ctx, 'checks.p04', items, {'sock': ctx.pg.sock}, func='worker_hooks', key_prefix='')
    items = [[k, pos] for k in (['N'], ['S'], ['A'], ['N', 'S'], ['S', 'N', 'A', 'N'], ['A', 'A']) for pos in range(1, 18)]
    pool.replay(ctx, 'checks.p04', items, {'sock': ctx.pg.sock}, func='worker_startup', key_prefix='')

def hash_(ch):
    return sum((i + 1) * len(x) for i, x in enumerate(ch))
