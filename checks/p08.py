"""P08: statements and cursors on the server (specs/Handles.tla)."""
TECHNIQUE = 'TLA+ model (Handles): TLC checks that what exists on the server is exactly what is referenced and not closed, and enumerates histories of preparing, cloning, declaring, streaming, closing and dropping in and out of transactions with errors and lost connections; they are replayed on real objects and the server is asked for its prepared statements and cursors'
LEVEL_NOTE = 'Two or three statement objects and two or three cursors or streams; references are dropped by reference counting, sometimes through a cycle and the collector. Reading streams whose transaction has ended is left to P09. Whether a refused use of a closed object fails an open transaction is left open.'

def worker(job):
    import gc, itertools, random
    import postgresql.driver.pq3 as pq3
    import postgresql.exceptions as px
    from . import live
    st = {}
    pq3.MultiXactStream.chunksize = 2
    CODE = {'infailed': ('25P02',), 'failed': ('42601', '22012', '42P01', '42703'), 'closed': ('08003', '57P01', '08006')}
    class Rows(object):
        'an iterator of rows: it can only be abandoned'
        closed = False
        def __init__(self, it, stm): self.it = it; self.stm = stm # a finished iterator drops its own
        def __iter__(self): return self
        def __next__(self):
            r = list(itertools.islice(self.it, 2))
            if not r: raise StopIteration
            return r
        def close(self): self.it = iter(()); self.closed = True
    def connect():
        db = st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        st['stm'] = db.prepare("SELECT statement, name FROM pg_prepared_statements WHERE statement LIKE '%/*P8' || ' %' AND name <> ''")
        st['cur'] = db.prepare("SELECT statement, name FROM pg_cursors WHERE statement LIKE '%/*P8' || ' %' AND name <> ''")
        return db
    def run(walk):
        if 'b' not in st: st['b'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        db = st['db'] if 'db' in st and not st['db'].closed else connect()
        rng = random.Random(str(len(walk['steps'])) + repr(walk['steps'][-2:]))
        S = {}; D = {}; lab = {}; done = []; pos = {}; prev = s2 = walk['init']
        def fail(k, m): return {'fail': {'key': k, 'msg': 'after %s: %s' % (done, m)}}
        def release(d, k):
            o = d.pop(k)
            if rng.random() < .2:
                c = [o]; c.append(c); del o, c; gc.collect()
        ok = err = False
        try:
            for act, obs, nxt in walk['steps']:
                prev = s2; s2 = nxt
                op = act['op']; i = act.get('i'); j = act.get('j')
                done.append(op + ''.join(str(act[x]) for x in ('i', 'k', 'j') if x in act) + (act.get('kind') or ''))
                want = obs['r']; got = 'ok'; exc = s = o = r = None # no reference is kept from the step before
                try:
                    if op == 'prepare': lab[i] = 's%d' % i; S[i] = db.prepare('SELECT g /*P8 s%d */ FROM generate_series(1, 9) g' % i)
                    elif op == 'clone': S[act['k']] = S[i].clone(); lab[act['k']] = lab[i]
                    elif op == 'fromid':
                        if i not in st.setdefault('named', set()) and not db.closed and s2['blk'] != 'E':
                            db.execute('PREPARE "n %d" AS SELECT g /*P8 n%d */ FROM generate_series(1, 9) g' % (i, i)); st['named'].add(i)
                        S[i] = db.statement_from_id('n %d' % i)
                    elif op == 'use':
                        s = S[i]; how = rng.randrange(6)
                        closed = want != 'ok'
                        r = s() if how == 0 else [(s.first(),)] if how == 1 else list(s.rows()) if how == 2 else [(v,) for v in s.column()] if how == 3 else [x for c in s.chunks() for x in c] if how == 4 or want != 'refused' or prev['stm'][i - 1]['kind'] == 'id' else s.declare()
                        if closed: return fail('closed-statement-used:' + ['call', 'first', 'rows', 'column', 'chunks', 'declare'][how], 'a closed statement gives %r' % (r,))
                        if [x[0] for x in r] != list(range(1, 10 if how != 1 else 2)): return fail('use', 'rows %r' % (r,))
                    elif op == 'closestm':
                        S[i].close()
                        if rng.random() < .3: S[i].close()
                        if act.get('i') in st.get('named', ()) and i not in s2['named']: st['named'].discard(i)
                        if not S[i].closed: return fail('closed', 'not closed')
                    elif op == 'dropstm': release(S, i)
                    elif op == 'open':
                        D[j] = S[i].declare() if act['kind'] == 'cursor' else S[i].chunks() if rng.random() < .6 else Rows(S[i].rows(), S[i]); pos[j] = 0
                    elif op == 'opencur':
                        n = 'c %d' % j
                        db.execute('DECLARE "%s" CURSOR WITH HOLD FOR SELECT g /*P8 c%d */ FROM generate_series(1, 9) g' % (n, j))
                        D[j] = db.cursor_from_id(n); pos[j] = 0
                    elif op == 'reopen': D[j] = db.cursor_from_id('c %d' % j)
                    elif op in ('read', 'finish'):
                        o = D[j]; cur = hasattr(o, 'read'); r = []
                        try:
                            if op == 'finish':
                                for x in o: r.extend(x if not cur else [x])
                            else: r = [next(o)] if cur else list(next(o))
                        except StopIteration: r = []
                        r = [x[0] for x in r]
                        if want == 'ok':
                            p = pos[j]
                            exp = list(range(p + 1, 10)) if op == 'finish' else list(range(p + 1, min(p + (1 if cur else 2), 9) + 1))
                            if prev['dep'][j - 1]['closed']: exp = []
                            if r != exp: return fail(op, 'rows %r, expected %r' % (r, exp))
                            pos[j] = p + len(r)
                        else:
                            if r: return fail('closed-stream-read', 'rows %r from a closed stream' % (r,))
                            got = want
                    elif op == 'closedep':
                        D[j].close()
                        if rng.random() < .3: D[j].close()
                        if not D[j].closed: return fail('closed', 'not closed')
                    elif op == 'dropdep': release(D, j)
                    elif op == 'query': 
                        r = rng.randrange(4)
                        if r == 0: db.query('SELECT 1 /*P8 q*/')
                        elif r == 1: db.query.first('SELECT 1 /*P8 q*/')
                        elif r == 2: db.execute('SELECT 1')
                        else: list(db.query.rows('SELECT g /*P8 q*/ FROM generate_series(1, 5) g'))
                    elif op == 'fail':
                        r = rng.randrange(4)
                        if r == 0: db.prepare('SELEC /*P8 q*/')
                        elif r == 1: db.query('SELECT 1/0 /*P8 q*/')
                        elif r == 2: db.prepare('SELECT * FROM nothing /*P8 q*/').declare()
                        else: list(db.prepare('SELECT 1/(4-g) /*P8 q*/ FROM generate_series(1,9) g').rows())
                    elif op == 'begin': db.execute('BEGIN')
                    elif op == 'commit': db.execute('COMMIT')
                    elif op == 'rollback': db.execute('ROLLBACK')
                    elif op == 'savepoint': db.execute('SAVEPOINT s')
                    elif op == 'rollto': db.execute('ROLLBACK TO s')
                    elif op == 'lose':
                        st['b'].query('SELECT pg_terminate_backend($1::int, 5000)', db.backend_id)
                        try: db.execute('SELECT 1')
                        except px.Error: pass
                        st['named'] = set()
                    elif op == 'look':
                        if err: gc.collect(); err = False # the exception holds its creator
                        r = look(st)
                        exp = expected(obs, lab)
                        if r != exp: return fail('look', 'the server has %r, expected %r' % (r, exp))
                except px.Error as e:
                    got = e.code; exc = e; err = True; s = o = None
                    if want == 'refused': got = want
                if want == 'infailed' and (op == 'fail' and got == '42601' or op == 'fromid' and got == '26000'): got = want
                if want in CODE and got in CODE[want]: got = want
                if got != want: return fail('%s:outcome' % op, 'expected %s, got %s %r' % (want, got, str(exc)[:200]))
            last = walk['steps'][-1][2]
            if not db.closed:
                # everything that is left is released when it is dropped
                if last['blk'] != 'I': db.execute('ROLLBACK')
                S.clear(); D.clear(); o = s = exc = None
                gc.collect()
                r = look(st)
                r[0] = [x for x in r[0] if not x.startswith('n')]; r[1] = [x for x in r[1] if not x.startswith('c')]
                if r != [[], []]: return fail('left', 'the server still has %r after everything was dropped' % (r,))
            ok = True
            return {'steps': len(done)}
        finally:
            o = s = r = exc = None
            S.clear(); D.clear()
            if ok and not db.closed:
                db.execute('SELECT 1')
                for n in st.get('named', ()): db.execute('DEALLOCATE "n %d"' % n)
                for x, n in st['cur'](): db.execute('CLOSE "%s"' % n)
            elif not db.closed: db.close()
            st['named'] = set()
    def look(st):
        mark = lambda t: t.split('/*P8 ')[1].split(' ')[0]
        return [sorted(mark(x[0]) for x in st['stm']()), sorted(mark(x[0]) for x in st['cur']())]
    def expected(obs, lab):
        return [sorted([lab[i] for i in obs['st']] + ['n%d' % i for i in obs['named']]),
            sorted([lab[i + 1] for i, n in enumerate(obs['cu']) for _ in range(n)] + ['c%d' % j for j in obs['idcu']])]
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    base = ['prepare', 'fromid', 'use', 'closestm', 'dropstm', 'open', 'read', 'finish', 'closedep', 'dropdep', 'query', 'fail', 'begin', 'commit', 'rollback', 'savepoint', 'rollto', 'look']
    for ns, nd, extras, nwalk, nrand, length in (
            (1, 1, {'idcursor', 'lose'}, 1200, 300, 30), (1, 2, set(), 0, 700, 30), (2, 1, {'clone'}, 800, 500, 30)) + (((2, 2, {'clone', 'idcursor'}, 0, 6000, 60),) if T else ()):
        _, _, edges = tlc.run(ctx, 'Handles', {'NS': ns, 'ND': nd, 'Extras': extras}, invariants=['Exact', 'NoLeak'], properties=['NamedStay', 'Others'],
            coverage_required=base + [x for x in ('clone', 'lose') if x in extras] + (['opencur', 'reopen'] if 'idcursor' in extras else []))
        g = walk.Graph(edges, init=[e[0] for e in edges if e[0]['blk'] == 'I' and not e[0]['lost'] and not e[0]['named'] and all(x['kind'] == 'none' for x in e[0]['stm'] + e[0]['dep'])])
        ws = []
        if nwalk:
            ws, k = g.cover(ctx.rng, maxlen=length)
            ctx.log('%d covering walks' % len(ws))
            ctx.rng.shuffle(ws); ws = ws[:nwalk * (10 if T else 1)]
        ws += g.random_walks(ctx.rng, nrand * (4 if T else 1), length)
        items = [g.expand(w) for w in ws if w]
        pool.replay(ctx, 'checks.p08', items, {'sock': ctx.pg.sock}, key_prefix='', limit=60)
