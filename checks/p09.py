"""P09: complete results, however they are consumed (specs/Streams.tla)."""
TECHNIQUE = 'TLA+ model (Streams): TLC enumerates schedules of opening, reading, closing and dropping result streams of every kind between transaction control, commands and bulk loads; they are run on real connections against PostgreSQL and TLC judges every recorded behaviour: rows in order and once, ends only at the end, errors only with a cause and never hidden, writes exactly once or not at all'
LEVEL_NOTE = 'Two or three streams at once, nine kinds of consumption; chunk size patched to 3 for covering walks, and the original 4096 with results around its multiples in random walks. When several causes of an error are possible any is accepted. Statements that cannot be declared as a cursor are only run inside blocks or at once (a known finding).'

KINDS = ['rows', 'chunks', 'column', 'iter', 'cursor', 'idrows', 'idchunks', 'idcolumn', 'qrows']
SQL = ("SELECT CASE WHEN g %% 3 = 0 THEN NULL ELSE g END AS a, 'v' || (g + 0/(g - %s)) || repeat('-', %s) AS b, "
    "CASE WHEN g = %s THEN '0004-01-01 BC'::date ELSE '2000-01-01'::date + g END AS c FROM generate_series(1, %s) g")
COL = "SELECT CASE WHEN g %% 3 = 0 THEN NULL WHEN g = %s THEN '0004-01-01 BC'::date ELSE '2000-01-01'::date + g + 0/(g - %s) END AS c FROM generate_series(1, %s) g"
WCOL = COL.replace(' AS c FROM', " AS c, g AS d, 'junk' AS e FROM")
WIDTHS = (0, 8100, 8170, 8192, 9000, 33000)

def worker(job):
    import datetime, random
    import postgresql.driver.pq3 as pq3
    import postgresql.exceptions as px
    from . import live
    st = {}
    real = pq3.MultiXactStream.chunksize
    D0 = datetime.date(2000, 1, 1).toordinal()
    def setup():
        db = st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        st['b'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        st['b'].execute('DROP TABLE IF EXISTS lt; CREATE TABLE lt(n serial, id int, CHECK (id <> -999))')
        st['tab'] = st['b'].prepare('SELECT id FROM lt ORDER BY n')
        st['del'] = st['b'].prepare('DELETE FROM lt')
        T = '$1::int', '$2::int', '$3::int'
        st['full'] = db.prepare(SQL % ('$2::int', '$4::int', '$3::int', '$1::int')); st['col'] = db.prepare(COL % ('$3::int', '$2::int', '$1::int'))
        db.execute('PREPARE idf(int, int, int, int) AS ' + SQL % ('$2', '$4', '$3', '$1')); db.execute('PREPARE idc(int, int, int) AS ' + COL % ('$3', '$2', '$1'))
        st['idfull'] = db.statement_from_id('idf'); st['idcol'] = db.statement_from_id('idc')
        st['wcol'] = db.prepare(WCOL % ('$3::int', '$2::int', '$1::int')); db.execute('PREPARE idw(int, int, int) AS ' + WCOL % ('$3', '$2', '$1')); st['idwcol'] = db.statement_from_id('idw')
        st['ins'] = db.prepare('INSERT INTO lt(id) VALUES ($1::int)')
        st['insret'] = db.prepare('INSERT INTO lt(id) SELECT g FROM generate_series($1::int, $2::int) g RETURNING id')
    def rowid(t, last):
        # the number of a row; -1 if it is not a row of the result as it should be
        try:
            i = t[1].rstrip('-'); pad = len(t[1]) - len(i); i = int(i[1:])
            if pad not in WIDTHS: return -i
            if t[0] != (None if i % 3 == 0 else i) or t[2].toordinal() != D0 + i or len(t) != 3: return -i
            return i
        except Exception: return -1
    def colid(v, last):
        if v is None: return last + 1 if (last + 1) % 3 == 0 else -1
        try: i = v.toordinal() - D0
        except Exception: return -1
        return i if i % 3 else -1
    def run(walk):
        if 'db' not in st or st['db'].closed: setup()
        db = st['db']
        rng = random.Random(str(len(walk['steps'])) + repr(walk['steps'][-3:]))
        ch = 3 if not job.get('real') else real
        pq3.MultiXactStream.chunksize = ch
        sizes = [0, 1, 2, 3, 4, 5, 6, 7, 9] if not job.get('real') else [0, 1, ch - 1, ch, ch + 1, 2 * ch - 1, 2 * ch, 2 * ch + 1]
        ev = []; slots = {}; wid = [0]
        def args(bad, allow0=True):
            n = rng.choice([s for s in sizes if s or bad == 'no'])
            k = 0
            if bad != 'no':
                k = rng.choice([x for x in (1, 2, ch, ch + 1, 2 * ch, n - 1, n, rng.randint(1, n)) if 1 <= x <= n])
                if k % 3 == 0: k = max(1, k - 1)
            return n, (k if bad == 'srv' else 0), (k if bad == 'dec' else 0), k
        def width(n): return rng.choice(WIDTHS[1:]) if n <= 9 and rng.random() < .2 else 0
        def rec(op, f, **kw):
            try: r = f()
            except px.Error as e: ev.append(dict(kw, op=op, r='error', code=e.code)); return None
            ev.append(dict(kw, op=op, r='ok'))
            return r
        def pull(o, amt):
            "read from a stream: the rows, and how it ended"
            want = {'one': 1, 'some': rng.choice([2, 3, ch, ch + 1]), 'all': 10 ** 9}[amt]
            got = []; how = None
            def flush():
                if got: ev.append({'op': 'next', 'slot': o['slot'], 'r': 'rows', 'ids': list(got)}); del got[:]
            f = o['id']
            try:
                while want > 0:
                    if o['kind'] in ('chunks', 'idchunks'):
                        c = next(o['it'])
                        pass
                        for t in c: o['last'] = f(t, o['last']); got.append(o['last'])
                        want -= 1 if amt != 'some' else ch
                    elif o['kind'] == 'cursor' and rng.random() < .7:
                        q = rng.choice([None, 1, 2, ch]) if amt == 'all' else rng.choice([1, 2]) if amt == 'one' else min(want, ch)
                        c = o['it'].read(q)
                        if not c or (q is not None and len(c) > q):
                            if c: got.append(-8)
                            flush(); ev.append({'op': 'next', 'slot': o['slot'], 'r': 'end'}); return
                        for t in c: o['last'] = f(t, o['last']); got.append(o['last'])
                        want -= len(c)
                    else:
                        o['last'] = f(next(o['it']), o['last']); got.append(o['last']); want -= 1
                flush()
            except StopIteration: flush(); ev.append({'op': 'next', 'slot': o['slot'], 'r': 'end'})
            except px.Error as e: flush(); ev.append({'op': 'next', 'slot': o['slot'], 'r': 'error', 'code': e.code})
        try:
            for act, _, s2 in walk['steps']:
                op = act['op']
                if op == 'open':
                    kind = rng.choice(KINDS) if act['kind'] == 'any' else act['kind']; n, srv, dec, k = args(act['bad'])
                    col = 'column' in kind
                    if col and srv and srv % 3 == 0: srv = 1
                    w = rng.choice(['', 'w']) if col else ''  # a column is the first of those that the statement gives
                    src = st['id%scol' % w if col else 'idfull'] if kind.startswith('id') else st[w + 'col' if col else 'full']
                    w = width(n); p = (n, srv, dec) if col else (n, srv, dec, w)
                    fs = {'rows': lambda: src.rows(*p), 'chunks': lambda: src.chunks(*p), 'column': lambda: src.column(*p), 'idrows': lambda: src.rows(*p),
                        'idchunks': lambda: src.chunks(*p), 'idcolumn': lambda: src.column(*p), 'cursor': lambda: src.declare(*p), 'iter': lambda: iter(db.prepare(SQL % (srv, w, dec, n))),
                        'qrows': lambda: db.query.rows(SQL % (srv, w, dec, n)) if rng.random() < .7 else db.query.rows(SQL % ('$2::int', '$4::int', '$3::int', '$1::int'), *p)}
                    it = rec('open', fs[kind], slot=act['slot'], kind=kind, n=n, bad=k, cls=act['bad'])
                    if it is not None: slots[act['slot']] = {'it': it, 'kind': kind, 'id': colid if col else rowid, 'last': 0, 'slot': act['slot']}
                elif op == 'next':
                    if act['slot'] in slots: pull(slots[act['slot']], act['amt'])
                elif op == 'close':
                    o = slots.get(act['slot'])
                    if o and hasattr(o['it'], 'close'): o['it'].close(); ev.append({'op': 'close', 'r': 'ok', 'slot': act['slot']})
                elif op == 'drop':
                    if slots.pop(act['slot'], None): ev.append({'op': 'drop', 'r': 'ok', 'slot': act['slot']})
                elif op == 'begin': rec('begin', lambda: db.execute('BEGIN'))
                elif op == 'commit': rec('commit', lambda: db.execute('COMMIT'))
                elif op == 'rollback': rec('rollback', lambda: db.execute('ROLLBACK'))
                elif op == 'savepoint': rec('savepoint', lambda: db.execute('SAVEPOINT s'))
                elif op == 'rollto': rec('rollto', lambda: db.execute('ROLLBACK TO s'))
                elif op == 'cmd':
                    c = act['cmd']
                    if c == 'write':
                        how = rng.randrange(4); m = rng.choice([1, 3, 5]) if how else 1
                        ids = [wid[0] + i for i in range(1, m + 1)]; wid[0] += m
                        if how == 0: rec('write', lambda: st['ins'](ids[0]), ids=ids[:1])
                        elif how == 1: rec('write', lambda: db.execute('INSERT INTO lt(id) SELECT * FROM generate_series(%d, %d)' % (ids[0], ids[-1])), ids=ids)
                        elif how == 2:
                            r = rec('write', lambda: st['insret'](ids[0], ids[-1]), ids=ids)
                            if r is not None and [x[0] for x in r] != ids: ev[-1]['r'] = 'wrong rows returned'
                        else:
                            r = rec('write', lambda: st['insret'].first(ids[0], ids[-1]), ids=ids)
                            if r is not None and r != ids[0]: ev[-1]['r'] = 'wrong first value'
                    elif c == 'fail': rec('fail', rng.choice([lambda: db.execute('SELECT 1/0'), lambda: db.query('SELECT 1/0'), lambda: db.prepare('SELECT nothing_of_it')]))
                    elif c in ('call', 'first'):
                        bad = rng.choice(['no', 'no', 'no', 'srv', 'dec']); n, srv, dec, k = args(bad)
                        if c == 'first' and bad == 'dec': dec = k = 1
                        src = rng.choice([st['full'], st['idfull'], st['col'], st['idcol']])
                        w = (width(n),) if src in (st['full'], st['idfull']) else ()
                        col = src in (st['col'], st['idcol']); f = colid if col else rowid
                        if col and c == 'call': col = False; f = lambda t, last: colid(t[0], last)
                        r = rec('call', (lambda: [src.first(n, srv, dec, *w)]) if c == 'first' else lambda: src(n, srv, dec, *w), n=n, bad=k, cls=bad, first=c == 'first')
                        if r is not None:
                            ids = []; last = 0
                            for t in r:
                                if c == 'first' and t is None: continue
                                last = f(t, last); ids.append(last)
                            ev[-1]['ids'] = ids
                    elif c.startswith('load'):
                        m = rng.choice([0, 1, 2, 5, 255, 256, 257, 513] if job.get('real') else [1, 2, 3, 4, 7]); size = rng.choice([1, 2, 3, 256])
                        ids = [wid[0] + i for i in range(1, m + 1)]; wid[0] += m
                        data = [(i,) for i in ids]; at = 0; cls = 'no'
                        chunks = [ids[i:i + size] for i in range(0, m, size)]
                        exc = None
                        if c != 'load' and m:
                            k = rng.choice([0, m - 1, m // 2, size, size - 1]); k = min(k, m - 1); at = k // size + 1; cls = c[5:]
                            if cls == 'srv': data[k] = (-999,)
                            else: data[k] = rng.choice([('x',), (), (1, 2), (2 ** 40,), None])
                        if cls == 'py' and data[k] is None:
                            def gen():
                                for i, d in enumerate(data):
                                    if i == k: raise px.Error('stop')
                                    yield d
                        else: gen = lambda: iter(data)
                        def do():
                            try:
                                if rng.random() < .5 or size == 256: st['ins'].load_rows(gen(), size) if size != 256 else st['ins'].load_rows(gen())
                                else:
                                    def chs():
                                        it = gen()
                                        for x in chunks:
                                            yield [next(it) for _ in x]
                                    st['ins'].load_chunks(chs())
                            except (TypeError, RuntimeError) as e:
                                if cls != 'py': raise
                                raise px.Error(str(e))
                        rec('load', do, chunks=chunks, at=at, cls=cls)
                if db.closed: break
            slots.clear()
            # the end of the transaction
            for _ in range(12):
                if db.pq.state == b'I' and db.pq.xact is None: break
                if db.pq.state == b'I':
                    rec('write', lambda: db.execute('SELECT 1'), ids=[])
                else: rec('rollback', lambda: db.execute('ROLLBACK'))
            ev.append({'op': 'table', 'r': 'ok', 'ids': [r[0] for r in st['tab']()]})
        finally:
            slots.clear()
            if db.state != 'idle':
                db.close(); db = None
            st['del']()
        return {'steps': len(ev), 'data': {'events': ev}}
    return run

def worker_undeclarable(job):
    "what cannot be declared as a cursor"
    import postgresql.exceptions as px
    from . import live
    def run(item):
        db = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        sql, want, how, block = item
        try:
            db.execute('CREATE TEMP TABLE u(a int); INSERT INTO u VALUES (1), (2)')
            if block: db.execute('BEGIN')
            s = db.prepare(sql)
            try:
                if how == 'rows': got = [tuple(r) for r in s.rows()]
                elif how == 'chunks': got = [tuple(r) for c in s.chunks() for r in c]
                elif how == 'column': got = [(v,) for v in s.column()]
                elif how == 'call': got = [tuple(r) for r in s()]
                else: got = [(s.first(),)] + [tuple(x) for x in want[1:]]
            except px.Error as e: return {'fail': {'key': 'undeclarable:%s:%s:%s:%s' % ('block' if block else 'auto', how, 'WITH DML' if 'DELETE' in sql else sql.split()[0], e.code), 'msg': '%s of %r %s a block raises %r' % (how, sql, 'in' if block else 'outside', e)}}
            if got != [tuple(w) for w in want]: return {'fail': {'key': 'undeclarable-rows:' + how, 'msg': '%s of %r gives %r' % (how, sql, got)}}
            return {}
        finally: db.close()
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    base = ['open', 'next', 'close', 'drop', 'cmd', 'begin', 'commit', 'rollback', 'savepoint', 'rollto']
    tot = 0
    for slots, kinds, bads, real, nwalk, nrand, length in (
            ({1}, KINDS, ['no', 'srv', 'dec'], False, 1500, 300, 25),
            ({1, 2}, ['any'], ['no', 'srv'], False, 900, 600, 30),
            ({1}, KINDS, ['no', 'srv'], True, 0, 120, 20),
            ({1, 2}, ['any'], ['no', 'srv'], True, 0, 120, 20),
            ) + ((({1, 2, 3}, ['any'], ['no'], False, 0, 1000, 50),) if T else ()):
        _, _, edges = tlc.run(ctx, 'Streams', {'Slots': slots, 'Kinds': set(kinds), 'Bads': set(bads)}, invariants=['TypeOK'], coverage_required=base)
        g = walk.Graph(edges, init=[e[0] for e in edges if e[0]['blk'] == 'I' and all(x['kind'] == 'none' for x in e[0]['slots'])])
        ws = []
        if nwalk:
            ws, k = g.cover(ctx.rng, maxlen=length)
            ctx.rng.shuffle(ws); ws = ws[:nwalk * (12 if T else 1)]
        ws += g.random_walks(ctx.rng, nrand * (12 if T else 1), length)
        items = [g.expand(w) for w in ws if w]
        ctx.log('%d walks' % len(items))
        pool.replay(ctx, 'checks.p09', items, {'sock': ctx.pg.sock, 'real': real}, key_prefix='', limit=60)
        data = dict(ctx.data); idx = sorted(data)
        if idx and not tot: ctx.sample({'recorded': data[idx[0]]})
        tot += len(idx)
        bad = tlc.evaluate(ctx, 'Streams', [data[i] for i in idx], {'Slots': slots, 'Kinds': set(), 'Bads': set()})
        for b, v in sorted(bad.items())[:6]:
            e = data[idx[b]]['events']; n = int(v.split()[1]) - 1
            k = '%s:%s:%s' % (e[n]['op'], e[n].get('r'), next((x['kind'] for x in e[:n][::-1] if x['op'] == 'open' and x['slot'] == e[n].get('slot')), ''))
            ctx.violation('stream:' + k, v[:900], {'module': 'checks.p09', 'events': e, 'walk': items[idx[b]], 'verdict': v})
    items = []
    for sql, want in (('INSERT INTO u VALUES (3), (4) RETURNING a', [(3,), (4,)]), ('UPDATE u SET a = a + 10 RETURNING a', [(11,), (12,)]), ('WITH d AS (DELETE FROM u RETURNING a) SELECT a FROM d', [(1,), (2,)]),
            ('VALUES (5), (6)', [(5,), (6,)]), ('SHOW server_version_num', None), ('TABLE u', [(1,), (2,)]), ('WITH q AS (SELECT a FROM u) SELECT a FROM q ORDER BY a DESC', [(2,), (1,)]), ('(SELECT 1) UNION ALL (SELECT 2)', [(1,), (2,)])):
        if want is None: want = [(ctx.pg.psql('SHOW server_version_num').strip(),)]
        for how in ('rows', 'chunks', 'column', 'call', 'first'):
            for block in (False, True): items.append([sql, want, how, block])
    pool.replay(ctx, 'checks.p09', items, {'sock': ctx.pg.sock}, func='worker_undeclarable', key_prefix='', maxfail=1000)
