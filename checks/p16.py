"""P16: the DB-API layer (specs/Dbapi.tla, specs/DbParams.tla)."""
TECHNIQUE = 'TLA+ models: Dbapi (implicit transaction, auto-commit, cursors and their results) checked by TLC for partitioned fetches and durability exactly at commit, its histories replayed on the real DB-API layer against PostgreSQL with a second session reading what is durable; DbParams enumerates query texts of parameters, literals and percent signs with the values they must deliver, executed on the server'
LEVEL_NOTE = 'One connection with up to two cursors, results of 0 to 4099 rows, up to 3 inserted rows, refused commits, failing statements and late failures, auto-commit switches, closed cursors and connections, re-entered contexts. All transitions where feasible, plus random walks. Query texts of up to 3 (thorough: 4) pieces in both parameter styles. commit() of a failed transaction keeps nothing and raises nothing, as COMMIT does.'

CODE = {'infailed': '25P02', 'error': '22012', 'pending': '22012', 'constraint': '23505'}

def worker(job):
    import random
    import postgresql.exceptions as px
    from postgresql.driver import dbapi20 as D
    from . import live
    st = {}
    def connect():
        k = live.connector(job['sock'], 'w%d' % job['worker'], live.Plan())
        c = D.Connection(type(k)(unix=job['sock'], user='test', database='w%d' % job['worker'], driver=D.driver, sslmode='disable'))
        c.connect()
        return c
    def run(walk):
        if 'b' not in st:
            b = st['b'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
            b.execute('DROP TABLE IF EXISTS dt; CREATE TABLE dt(id int, k int, CONSTRAINT u UNIQUE (k) DEFERRABLE INITIALLY DEFERRED); INSERT INTO dt VALUES (0, 0); CREATE OR REPLACE FUNCTION dseries(int, int) RETURNS SETOF int LANGUAGE sql AS $$ SELECT generate_series($1, $2) $$')
            st['sel'] = b.prepare('SELECT id FROM dt WHERE id <> 0')
        b = st['b']
        rng = random.Random(repr(walk['steps'][-1]) + str(len(walk['steps'])) + str(job['seed']))
        if rng.random() < .2 and 'a' in st: # not always a fresh one
            try: st.pop('a').close()
            except px.Error: pass
        if 'a' not in st or st['a'].closed: st['a'] = connect()
        a = st['a']
        cur = [a.cursor() for _ in range(job['cursors'])]
        for c in cur:
            if rng.random() < .5: c.arraysize = rng.choice([1, 2, 7])
        res = [None] * len(cur)   # the rows of the last query of each
        desc = [()] * len(cur)
        done = []; tag = [0]
        def fail(key, msg): return {'fail': {'key': key, 'msg': 'after %s: %s' % (done, msg)}}
        def ins(c, row, sfx=''):
            k = row if row > 0 else 0
            r = rng.randrange(5)
            if r == 0: c.execute('INSERT INTO dt VALUES (%d, %d)%s' % (abs(row), k, sfx))
            elif r == 1: c.execute('INSERT INTO dt VALUES (%s, %s)' + sfx, (abs(row), k))
            elif r == 2: c.execute("INSERT INTO dt SELECT %(a)s::int, %(b)s::int WHERE '%s' LIKE '%%' AND 6 %% 4 = 2" + sfx, {'a': abs(row), 'b': k})
            elif r == 3: c.execute('INSERT INTO dt VALUES (%s::int + 10 %% 5, %s)' + sfx, [abs(row), k])
            else: c.execute('INSERT INTO dt(k, id) VALUES (%(k)s, %(id)s)' + sfx, {'id': abs(row), 'k': k})
        clean = False
        try:
            for act, obs, s2 in walk['steps']:
                op = act['op']; ci = act.get('c', 0) - 1; c = cur[ci] if ci >= 0 else None
                done.append(op + ''.join(str(act[k]) for k in ('c', 'n', 'k', 'row', 'v') if k in act))
                want = obs['r']; got = 'ok'; ret = None; exc = None
                try:
                    if op == 'insert': ret = ins(c, act['row'])
                    elif op == 'insertret': ins(c, act['row'], ' RETURNING id')
                    elif op == 'many':
                        r = act['row']; two = [(r, r), (r + 1, r + 1)]; k = rng.randrange(3)
                        if k == 0: c.executemany('INSERT INTO dt VALUES (%s, %s)', two)
                        elif k == 1: c.executemany('INSERT INTO dt VALUES (%(i)s, %(j)s)', [{'i': x, 'j': y} for x, y in two])
                        else: c.executemany('INSERT INTO dt VALUES (%s::int + 4 %% 2, %s)', iter(two))
                    elif op == 'manybad': c.executemany('INSERT INTO dt VALUES (%s::int, 1/(%s::int))', [(9, 1), (8, 0)])
                    elif op == 'delete': c.execute('DELETE FROM dt WHERE id <> 0')
                    elif op == 'series':
                        tag[0] += 1; n = act['n']; k = rng.randrange(4)
                        if k == 0: c.execute('SELECT %d * 10000 + g AS g FROM generate_series(1, %d) g' % (tag[0], n)); name = 'g'
                        elif k == 1: c.execute('SELECT %s::int * 10000 + g AS "a %% b%s" FROM generate_series(1, %s::int) g', (tag[0], n)); name = 'a %% b%s'
                        elif k == 2: c.execute('SELECT %(t)s::int * 10000 + g FROM generate_series(1, %(n)s::int) g', {'t': tag[0], 'n': n}); name = '?column?'
                        else: c.callproc('dseries', (tag[0] * 10000 + 1, tag[0] * 10000 + n)); name = 'dseries'
                        mine = [tag[0] * 10000 + i for i in range(1, n + 1)]
                    elif op == 'table': c.execute('SELECT id FROM dt WHERE id <> 0 ORDER BY sign(k), abs(id) * CASE WHEN k > 0 THEN 1 ELSE -1 END') ; name = 'id'
                    elif op == 'failexec': c.execute('INSERT INTO dt VALUES (1/0, 0)') if rng.random() < .7 else c.execute('INSERT INTO dt VALUES (1/%s::int, 0)', (0,))
                    elif op == 'late': c.execute('SELECT 1/(3-g) FROM generate_series(1, 5) g'); name = '?column?'
                    elif op == 'one':
                        k = rng.randrange(3)
                        if k == 0: ret = c.fetchone(); ret = [] if ret is None else [ret]
                        else:
                            try: ret = [next(c) if k == 1 else c.next()]
                            except StopIteration: ret = []
                    elif op == 'fetchmany':
                        if rng.random() < .3: c.arraysize, old = act['k'], c.arraysize; ret = c.fetchmany(); c.arraysize = old
                        else: ret = c.fetchmany(act['k'])
                    elif op == 'all': ret = c.fetchall() if rng.random() < .6 else list(c)
                    elif op == 'commit': a.commit()
                    elif op == 'rollback': a.rollback()
                    elif op == 'recover':
                        for k in range(3):
                            try:
                                if s2['auto']: a.query('SELECT 1')
                                else: a.rollback()
                                break
                            except px.Error: pass
                    elif op == 'auto':
                        if not act['v'] and rng.random() < .3: del a.autocommit
                        else: a.autocommit = act['v']
                    elif op == 'closecursor': c.close()
                    elif op == 'cursor': cur[ci] = a.cursor()
                    elif op == 'close': a.close()
                    elif op == 'with':
                        r = a.__enter__() if rng.random() < .7 else a.connect()
                        if r not in (a, None): return fail('with:value', repr(r))
                except px.Error as e: got = e.code; exc = e
                except Exception as e: return fail(op + ':unrelated', repr(e)[:300])
                ok = {'closed': exc is not None, 'cursorclosed': exc is not None, 'noresult': exc is not None, 'autocommit': exc is not None, 'may': True}.get(want)
                if ok is None: ok = got == CODE.get(want, want)
                if not ok: return fail('%s:outcome:%s' % (op, want), 'expected %s, got %s %s' % (want, got, str(exc)[:200]))
                if op in ('one', 'fetchmany', 'all') and got == 'ok':
                    rows = res[ci][obs['v']['from']:obs['v']['to']]
                    if [tuple(x) for x in ret] != [(x,) for x in rows]: return fail('rows:' + op, 'got %r, expected %r of %d' % (ret[:5], rows[:5], len(rows)))
                    if want == 'may' and len(rows) != len(ret): return fail('rows:cut', '')
                if op in ('series', 'table', 'insertret', 'late') and want == 'ok':
                    res[ci] = mine if op == 'series' else None if op == 'late' else s2['cs'][ci]['tab']
                    if op == 'insertret': name = 'id'
                    d = c.description
                    if d is None or len(d) != 1 or d[0][0] != name or d[0][1] is not D.NUMBER or len(d[0]) != 7: return fail('description:' + op, 'description is %r' % (d,))
                    res[ci] = res[ci] if res[ci] is None else [abs(x) for x in res[ci]]
                    if c.rowcount not in (-1, len(res[ci] or ())): return fail('rowcount:' + op, 'rowcount is %r' % (c.rowcount,))
                if op in ('insert', 'many', 'delete') and want == 'ok':
                    if c.description is not None: return fail('description:' + op, 'description is %r' % (c.description,))
                    if c.rowcount != obs['v'] and not (op == 'many' and c.rowcount == 2): return fail('rowcount:' + op, 'rowcount is %r, expected %d' % (c.rowcount, obs['v']))
                if not s2['shut'] and a.autocommit is not s2['auto']: return fail('autocommit', 'is %r' % a.autocommit)
                if a.closed is not s2['shut']: return fail('closed', 'is %r' % a.closed)
                rows = sorted(r[0] for r in st['sel']())
                if rows != sorted(s2['saved']): return fail('durable:' + op, 'other sessions see %r, expected %r' % (rows, sorted(s2['saved'])))
            if not (s2['shut'] or s2['pend'] or s2['failed'] or s2['murky']):
                rows = sorted(r[0] for r in a.query('SELECT id FROM dt WHERE id <> 0'))
                exp = sorted(abs(x) for x in (s2['saved'] if s2['auto'] else s2['mine']))
                if rows != exp: return fail('view', 'the connection sees %r, expected %r' % (rows, exp))
            clean = True
            return {'steps': len(done)}
        finally:
            if not clean or a.closed or s2['pend'] or s2['murky']:
                if not a.closed: a.close()
                st.pop('a', None)
            else:
                a.autocommit = False
                a.rollback()
            b.execute('DELETE FROM dt WHERE id <> 0')
    return run

PIECES = {  # text, whether it has its own percent sign rules
    'pos': '%s::text', 'named_a': '%(a)s::text', 'named_b': '%(b 1)s::text',
    'mod': '(17 %% 5)::text', 'lit': "'%s %% %(a)s'::text", 'quoted': "'it''s %'::text", 'dollar': '$q$ %s %% \'$q$::text',
    'ident': '(SELECT "%s %%" FROM (SELECT \'i\'::text AS "%s %%") x)', 'esc': "E'\\\\\\'%s'::text", 'like': "('a%s' LIKE '%%s')::text", 'plain': "'x'::text",
}

def worker_params(job):
    import random
    import postgresql.exceptions as px
    from postgresql.driver import dbapi20 as D
    from . import live
    st = {}
    VALUES = ['%s', 'it\'s "q" $q$ \\', '%(a)s %%', '', None, 'ünï', '$1', 'a\nb']
    def run(case):
        if 'a' not in st:
            k = live.connector(job['sock'], 'w%d' % job['worker'], live.Plan())
            a = st['a'] = D.Connection(type(k)(unix=job['sock'], user='test', database='w%d' % job['worker'], driver=D.driver, sslmode='disable'))
            a.connect(); a.autocommit = True
        toks, exp = case
        rng = random.Random(repr(case))
        named = any(t.startswith('named') for t in toks); anyp = named or 'pos' in toks
        sep = rng.choice([', ', ',\n ', '/**/,', ','])
        text = 'SELECT ' + sep.join(PIECES[t] if t != 'mod' or anyp else '(17 % 5)::text' for t in toks)
        vals = rng.sample(VALUES, 5)
        if named: params = {'a': vals[0], 'b 1': vals[1]}; params = {k: v for k, v in params.items() if 'named_' + k[0] in toks}
        else: params = [vals[i] for i in range(toks.count('pos'))]; params = rng.choice([tuple, list])(params)
        want = [vals[e['arg'] - 1] if e['arg'] else e['lit'] for e in exp]
        c = st['a'].cursor()
        def fail(key, msg): return {'fail': {'key': key, 'msg': '%r with %r: %s' % (text, params, msg)}}
        try:
            c.execute(text, params) if anyp or rng.random() < .5 else c.execute(text)
            got = c.fetchall()
        except Exception as e:
            return fail('params:%s:raised' % ('named' if named else 'pos' if anyp else 'none'), repr(e)[:300])
        if [list(r) for r in got] != [want]: return fail('params:%s:values' % ('named' if named else 'pos' if anyp else 'none'), 'got %r, expected %r' % (got, want))
        # the wrong number of parameters is refused
        if anyp:
            for p in (dict(params, more=1), {}) if named else (list(params) + [1], list(params)[1:]):
                try: c.execute(text, p)
                except (TypeError, px.Error, KeyError): continue
                return fail('params:count', '%r were accepted' % (p,))
        return {'steps': 1}
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    base = ['insert', 'table', 'series', 'failexec', 'one', 'all', 'commit', 'rollback']
    NEED = {'auto': ['auto'], 'bad': [], 'late': ['late'], 'many': ['many', 'manybad'], 'ret': ['insertret'], 'delete': ['delete'], 'close': ['closecursor', 'close', 'cursor'], 'with': ['with']}
    for ncur, rows, sizes, amounts, extras, cap, nrand in [
            (1, 2, {0, 3}, {2}, {'auto', 'bad', 'with', 'delete', 'many'}, 700, 200),
            (2, 1, {2}, {1, 3}, {'auto', 'late'}, 400, 200),
            (1, 1, {4099}, {4095}, {'close', 'auto', 'ret', 'with'}, 300, 100),
            (2, 1, {2}, {2}, {'close', 'ret', 'bad'}, 400, 200)] + ([
            (1, 3, {0, 2, 4097}, {2, 4096}, {'auto', 'bad', 'with', 'delete', 'many', 'ret'}, 1000, 400),
            (2, 2, {3}, {2}, {'auto', 'bad', 'late', 'ret'}, 1000, 500)] if T else []):
        _, _, edges = tlc.run(ctx, 'Dbapi', {'Cursors': ncur, 'MaxRow': rows, 'Sizes': sizes, 'Amounts': amounts, 'Extras': extras},
            invariants=['NotBad'], properties=['Partition', 'Durable', 'AutoIsDurable', 'RollbackDiscards', 'ClosedRefuses'],
            coverage_required=base + ['fetchmany'] + [x for e in extras for x in NEED[e]])
        g = walk.Graph(edges)
        ws, k = g.cover(ctx.rng, maxlen=25)
        n = len(ws); cap *= 12 if T else 1
        if len(ws) > cap: ctx.rng.shuffle(ws); ws = ws[:cap]
        ws += g.random_walks(ctx.rng, nrand * (10 if T else 1), 18)
        items = [g.expand(w) for w in ws if w]
        ctx.log('%d transitions, %d of %d walks' % (len(edges), len(items), n))
        pool.replay(ctx, 'checks.p16', items, {'sock': ctx.pg.sock, 'cursors': ncur}, key_prefix='', limit=60)
    _, _, edges = tlc.run(ctx, 'DbParams', {'MaxLen': 4 if T else 3, 'Pieces': set(PIECES)}, invariants=['Delivered'])
    items = [[o['toks'], o['exp']] for _, a, o, _ in edges]
    ctx.rng.shuffle(items)
    pool.replay(ctx, 'checks.p16', items, {'sock': ctx.pg.sock}, func='worker_params', key_prefix='', limit=60)
