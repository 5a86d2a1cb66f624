"""P07: transaction objects (specs/Xact.tla)."""
TECHNIQUE = 'TLA+ model (Xact): TLC checks that data survives exactly when every enclosing scope was committed, that exits resolve failures and states are final, and enumerates the histories, which are replayed on real transaction objects against PostgreSQL; outcome, object state, transaction state and the committed data (read by a second session) are compared after every step'
LEVEL_NOTE = 'Three transaction objects (plain, serializable or read only), well nested or not, up to 2 written rows (thorough: 3), failing statements, deferred constraints, failures still being received, lost connections; all transitions covered, plus random walks. The with statement is driven through __enter__ and __exit__.'

CODE = {'operr': '--OPE', 'infailed': '25P02', 'pending': '22012', 'failed': '22012', 'noxact': '25P01', 'nosavepoint': '3B001',
    'constraint': '23505', 'readonly': '25006', 'closed': ('08003', '57P01', '08006')}
DBSTATE = {'I': 'idle', 'T': 'idle in block', 'E': 'failed block'}

def worker(job):
    import random
    import postgresql.exceptions as px
    from . import live
    st = {}
    KW = {'plain': {}, 'serial': {'isolation': 'SERIALIZABLE'}, 'readonly': {'mode': 'READ ONLY'}}
    def connect(): return live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
    def run(walk):
        if 'b' not in st:
            b = st['b'] = connect()
            b.execute('DROP TABLE IF EXISTS xt; CREATE TABLE xt(id int, k int, CONSTRAINT u UNIQUE (k) DEFERRABLE INITIALLY DEFERRED)')
            st['sel'] = b.prepare('SELECT id FROM xt WHERE id <> 0 ORDER BY id')
            b.execute('INSERT INTO xt VALUES (0, 0)')
        b = st['b']
        if 'a' not in st or st['a'].closed:
            st['a'] = connect()
            st['ins'] = st['a'].prepare('INSERT INTO xt VALUES ($1::int, $2::int)')
            st['lazy'] = st['a'].prepare('SELECT 1/(5000-g) FROM generate_series(1,6000) g')
        a = st['a']
        rng = random.Random(str(len(walk['steps'])) + repr(walk['steps'][-1]))
        cfg = job['cfg']
        kw = [dict(KW[c]) for c in cfg]
        xs = [a.xact(**k) for k in kw]
        hold = []; done = []
        def fail(key, msg): return {'fail': {'key': key, 'msg': '%s after %s: %s' % (cfg, done, msg)}}
        failed = True
        try:
            prev = walk['init']
            for act, obs, s2 in walk['steps']:
                op = act['op']; o = act.get('o'); x = xs[o - 1] if o else None
                done.append(op + (str(o) if o else str(act.get('row', ''))))
                want = obs['r']; got = 'ok'; ret = None; exc = None
                try:
                    if op == 'start': r = rng.randrange(3); ret = x.start() if r == 0 else x.begin() if r == 1 else x.__enter__()
                    elif op == 'commit': x.commit()
                    elif op == 'rollback': x.rollback() if rng.random() < .5 else x.abort()
                    elif op == 'exit':
                        ret = x.__exit__(None, None, None)
                        if ret: return fail('exit:value', '__exit__ returned %r' % (ret,))
                    elif op == 'exitexc':
                        E = rng.choice([ValueError, KeyboardInterrupt, GeneratorExit, px.UniqueError, SystemExit])
                        e = E('leaving')
                        done[-1] += ' ' + E.__name__
                        ret = x.__exit__(E, e, None)
                        if ret: return fail('exitexc:swallowed', '__exit__ returned %r for %s' % (ret, E.__name__))
                    elif op == 'write':
                        row = act['row']; k = row if row > 0 else 0
                        if rng.random() < .5: st['ins'](abs(row), k)
                        else: a.execute('INSERT INTO xt VALUES (%d, %d)' % (abs(row), k))
                    elif op == 'fail':
                        if rng.random() < .5: a.execute('SELECT 1/0')
                        else: a.query('SELECT 1/0')
                    elif op == 'lazy':
                        c = st['lazy'].chunks(); hold.append(c); next(c)
                    elif op == 'lose':
                        pid = a.backend_id
                        b.query('SELECT pg_terminate_backend($1::int, 5000)', pid)
                        try: a.execute('SELECT 1')
                        except px.Error: pass
                        if not a.closed: return fail('lose', 'the connection is not closed')
                except px.Error as e:
                    got = e.code; exc = e
                except Exception as e:
                    return fail(op + ':unrelated', repr(e)[:300])
                exp = CODE.get(want, want)
                if (got != exp) if isinstance(exp, str) else (got not in exp):
                    return fail('%s:outcome:%s' % (op, want), 'expected %s, got %s %r' % (want, got, str(exc)[:200]))
                for i, y in enumerate(xs):
                    s = {'init': 'initialized'}.get(s2['ost'][i], s2['ost'][i])
                    if y.state != s: return fail('state:' + op, 'object %d is %r, expected %r' % (i + 1, y.state, s))
                    if y.state == 'open' and y.type != s2['oty'][i]: return fail('type:' + op, 'object %d is a %r' % (i + 1, y.type))
                if s2['lost']: s = 'closed'
                elif s2['pend']: s = 'busy'
                else: s = DBSTATE['I' if not s2['stack'] else 'E' if s2['failed'] else 'T']
                if a.state != s: return fail('connection:' + op, 'connection is %r, expected %r' % (a.state, s))
                if prev['saved'] != s2['saved'] or prev['stack'] != s2['stack'] or op == 'lose':
                    rows = sorted(r[0] for r in st['sel']())
                    if rows != sorted(s2['saved']): return fail('data:' + op, 'surviving rows are %r, expected %r' % (rows, sorted(s2['saved'])))
                prev = s2
            if not (prev['lost'] or prev['pend'] or prev['failed']):
                rows = sorted(r[0] for r in a.query('SELECT id FROM xt WHERE id <> 0'))
                exp = sorted([abs(r) for r in prev['saved']] + [abs(r) for f in prev['stack'] for r in f['rows']])
                if rows != exp: return fail('view', 'the transaction sees %r, expected %r' % (rows, exp))
            failed = False
            return {'steps': len(done)}
        finally:
            del hold[:]
            if not a.closed:
                if failed: a.close()
                else:
                    try: a.execute('ABORT')
                    except px.Error: a.execute('ABORT')
            b.execute('DELETE FROM xt WHERE id <> 0')
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    base = ['start', 'commit', 'rollback', 'exit', 'exitexc', 'write', 'fail']
    for cfg, rows, extras, nrand in (
            (['plain', 'plain'], 3 if T else 2, {'lazy', 'lost', 'bad'}, 200),
            (['plain', 'plain', 'plain'], 2 if T else 1, {'lazy', 'bad'} if T else {'lazy'}, 300),
            (['plain', 'serial', 'readonly'], 2 if T else 1, {'bad'}, 150)):
        _, _, edges = tlc.run(ctx, 'Xact', {'Cfg': cfg, 'MaxRow': rows, 'Extras': extras},
            invariants=['NoGhosts', 'NoLoss'], properties=['Durable', 'ExitCommits', 'ExitResolves', 'Final'],
            coverage_required=base + [{'lost': 'lose', 'lazy': 'lazy', 'bad': 'write'}[e] for e in extras])
        g = walk.Graph(edges, init=[e[0] for e in edges if e[0]['nrow'] == 0 and all(x == 'init' for x in e[0]['ost']) and not e[0]['stack'] and not e[0]['lost'] and not e[0]['failed'] and all(x == 'none' for x in e[0]['oty'])])
        ws, k = g.cover(ctx.rng, maxlen=25)
        cap = 15000 if T else 1200
        if len(ws) > cap: ctx.rng.shuffle(ws); ws = ws[:cap]
        ws += g.random_walks(ctx.rng, nrand * (10 if T else 1), 16)
        items = [g.expand(w) for w in ws if w]
        ctx.log('%d walks' % len(items))
        pool.replay(ctx, 'checks.p07', items, {'sock': ctx.pg.sock, 'cfg': cfg}, key_prefix='', limit=60)
