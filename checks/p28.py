"""P28: statements and results describe themselves as the server does (specs/Describe.tla)."""
TECHNIQUE = 'TLA+ model (Describe): TLC enumerates histories of preparing, executing, reading and closing statements inside, outside and after blocks; they are run against PostgreSQL with random statements over many types, every description is recorded, and TLC judges it against what the server says of the same statement to another client (names of columns, types, names of types resolved by the server, Python types, parameters, completion)'
LEVEL_NOTE = 'Two statements at once; 34 types in columns and parameters, up to nine columns with repeated, quoted and non-ASCII names, in two client encodings; row-returning, data-modifying and utility statements. Types which are altered after they were first described are not covered.'

# key of the model, name for the server, an expression of the type
TYPES = [('int2', 'int2', '1::int2'), ('int4', 'int4', '2::int4'), ('int8', 'int8', '3::int8'), ('oid', 'oid', '4::oid'), ('text', 'text', "'t'::text"), ('varchar', 'varchar', "'v'::varchar(5)"),
    ('bpchar', 'bpchar', "'c'::char(3)"), ('name', 'name', "'n'::name"), ('numeric', 'numeric', '1.5::numeric(4,2)'), ('float4', 'float4', '1.5::float4'), ('float8', 'float8', '2.5::float8'), ('bool', 'bool', 'true'),
    ('bytea', 'bytea', "'x'::bytea"), ('date', 'date', "'2000-01-01'::date"), ('timestamp', 'timestamp', "'2000-01-01'::timestamp"), ('timestamptz', 'timestamptz', 'now()'), ('time', 'time', "'10:00'::time"),
    ('timetz', 'timetz', "'10:00+01'::timetz"), ('interval', 'interval', "'1 day'::interval"), ('bit', 'bit', "B'10'::bit(2)"), ('varbit', 'varbit', "B'1'::varbit"),
    ('uuid', 'uuid', "'00000000-0000-0000-0000-000000000000'::uuid"), ('point', 'point', "'(1,2)'::point"), ('box', 'box', "'(1,2),(0,0)'::box"), ('lseg', 'lseg', "'(1,2),(0,0)'::lseg"), ('circle', 'circle', "'<(1,2),3>'::circle"),
    ('array', 'int4[]', 'ARRAY[1]'), ('array', 'varchar[]', "ARRAY['x'::varchar]"), ('row', 'pub_comp', "ROW(1,'x')::pub_comp"), ('array', 'pub_comp[]', "ARRAY[ROW(1,'x')::pub_comp]"), ('row', '"My S"."q ""Q"', "ROW(1)::\"My S\".\"q \"\"Q\""),
    ('enum', '"My S".en', "'a'::\"My S\".en"), ('array', '"My S".en[]', "ARRAY['a'::\"My S\".en]"), ('json', 'json', "'{}'::json"), ('inet', 'inet', "'1.1.1.1'::inet"), ('char', '"char"', "'c'::\"char\""), ('numeric', 'dom', '1.25::dom'), ('int4', 'ANY', '7')]
DDL = 'CREATE SCHEMA "My S"; CREATE TYPE pub_comp AS (a int, b text); CREATE TYPE "My S"."q ""Q" AS (z int); CREATE TYPE "My S".en AS ENUM (\'a\', \'b\'); CREATE DOMAIN dom AS numeric(5,2); CREATE TABLE dt (a int, b text)'
NAMES = ['a', 'a', 'b', 'A', 'B b', '"', 'a"b', '?column?', 'é', 'naïve col', 'x' * 63, '%s', '$1', 'select', "it's", '1', ' ', 'a.b', 'ÿ']
KINDS = ['chunks', 'declare', 'cid']
HOWS = ['prepare', 'query', 'id']

def worker(job):
    import random
    import postgresql.exceptions as px
    from . import live
    st = {'n': 0}; oids = job['alloids'][str(job['worker'])]; aux = {}
    def resolve(names):
        # the types that the server finds by these names
        got = []
        for n in names:
            if n not in aux: aux[n] = st['b'].query.first('SELECT coalesce(to_regtype($1::text)::oid, 0::oid)', n) if isinstance(n, str) else -1
            got.append(aux[n])
        return got
    def shape(rng):
        k = rng.choice(['rows'] * 7 + ['dml', 'dml', 'util', 'empty'])
        nm = lambda: '"%s"' % rng.choice(NAMES).replace('"', '""')
        if k == 'rows':
            cols = [rng.choice(TYPES) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 9]))]; ps = []; ex = []; names = []
            for c in cols:
                n = nm(); names.append(n[1:-1].replace('""', '"'))
                if c[1] not in ('ANY', 'dom') and rng.random() < .3: ps.append(c); ex.append('$%d::%s AS %s' % (len(ps), c[1], n))
                else: ex.append('%s AS %s' % (c[2], n))
            for c in rng.sample(TYPES[:36], rng.choice([0, 0, 1, 3])): ps.append(c); 
            where = ' AND '.join('$%d::%s IS NULL' % (i + 1, c[1]) for i, c in enumerate(ps)) or rng.choice(['true', 'false'])
            return {'sql': 'SELECT %s FROM generate_series(1, %d) WHERE %s' % (', '.join(ex), rng.choice([0, 1, 5]), where), 'rows': True, 'names': names, 'keys': [c[0] for c in cols],
                'oids': [oids['int4' if c[1] == 'ANY' else 'numeric' if c[1] == 'dom' else c[1]] for c in cols], 'pkeys': [c[0] for c in ps], 'poids': [oids[c[1]] for c in ps], 'result': ['', -1]}
        if k == 'dml':
            n = rng.choice([0, 1, 3]); w, tag = rng.choice([("INSERT INTO dt SELECT g, $1::text FROM generate_series(1, $2::int8) g WHERE g <= %d" % n, 'INSERT'),
                ('UPDATE dt SET b = $1::text WHERE a > $2::int8 AND a <= %d' % n, 'UPDATE'), ('DELETE FROM dt WHERE b = $1::text AND a > $2::int8 AND a <= %d' % n, 'DELETE')])
            # no parameter is given a value but NULL: nothing matches
            return {'sql': w, 'rows': False, 'names': [], 'keys': [], 'oids': [], 'pkeys': ['text', 'int8'], 'poids': [oids['text'], oids['int8']], 'result': [tag, 0]}
        if k == 'util':
            w, tag = rng.choice([("SET application_name TO 'p28'", 'SET'), ('CREATE TEMP TABLE IF NOT EXISTS util (i int)', 'CREATE TABLE'), ('RESET search_path', 'RESET')])
            return {'sql': w, 'rows': False, 'names': [], 'keys': [], 'oids': [], 'pkeys': [], 'poids': [], 'result': [tag, -1]}
        n = rng.choice([1, 2, 300])
        return {'sql': 'INSERT INTO dt SELECT g FROM generate_series(1, %d) g' % n, 'rows': False, 'names': [], 'keys': [], 'oids': [], 'pkeys': [], 'poids': [], 'result': ['INSERT', n]}
    def cols(o, params):
        g = {}
        names = o.column_names
        g['rows'] = names is not None
        if names is not None:
            g['names'] = list(names); g['oids'] = [int(x) for x in o.pg_column_types]; g['sqls'] = resolve(o.sql_column_types); g['pys'] = [getattr(t, '__name__', repr(t)) for t in o.column_types]
        else:
            if o.column_types is not None or o.pg_column_types is not None or o.sql_column_types is not None: g['rows'] = True; g['names'] = ['types but no names']
        if params:
            g['poids'] = [int(x) for x in o.pg_parameter_types]; g['psqls'] = resolve(o.sql_parameter_types); g['ppys'] = [getattr(t, '__name__', repr(t)) for t in o.parameter_types]
        return g
    def run(walk):
        rng = random.Random(repr(walk['steps'][-3:]) + str(len(walk['steps'])) + str(job.get('seed')))
        enc = rng.choice(['utf-8', 'utf-8', 'latin1'])
        if enc not in st or st[enc].closed or rng.random() < .2:
            if enc in st: st[enc].close()
            st[enc] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan(), settings={'client_encoding': enc})
        if 'b' not in st: st['b'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        db = st[enc]; ev = []; S = {}
        try:
            for act, obs, s2 in walk['steps']:
                op = act['op']; o = S.get(act.get('slot'))
                e = {'op': op, 'r': 'ok', 'st': obs['st'], 'blk': obs['blk']}; given = None
                try:
                    if op == 'prepare':
                        sh = shape(rng); o = S[act['slot']] = {'sh': sh, 'out': None}; st['n'] += 1
                        o['byid'] = act['how'] == 'id' and sh['result'][0] not in ('SET', 'RESET', 'CREATE TABLE')
                        if o['byid']:
                            db.execute('PREPARE "p28 %d" AS %s' % (st['n'], sh['sql'])); o['s'] = db.statement_from_id('p28 %d' % st['n']); o['id'] = st['n']
                        elif act['how'] == 'query' and not sh['rows']: o['s'] = db.prepare(sh['sql']).clone() if rng.random() < .5 else db.prepare(sh['sql'])
                        else: o['s'] = db.prepare(sh['sql']); o['s'] = o['s'].clone() if act['how'] == 'query' and rng.random() < .5 else o['s']
                    elif op == 'describe': given = e; e['got'] = cols(o['s'], True)
                    elif op == 'exec':
                        r = o['s'](*([None] * len(o['sh']['pkeys'])))
                        e['got'] = ['', -1] if o['sh']['rows'] else [r[0], -1 if r[1] is None else r[1]]; given = e
                    elif op == 'open':
                        a = [None] * len(o['sh']['pkeys']); kind = act['kind']
                        if not o['sh']['rows'] or (o['byid'] and kind == 'declare'): kind = 'chunks'
                        if kind == 'chunks': o['out'] = o['s'].chunks(*a)
                        elif kind == 'declare' or (a and not o['byid']): o['out'] = o['s'].declare(*a)
                        elif a: o['out'] = o['s'].chunks(*a)
                        else:
                            st['n'] += 1; db.execute('DECLARE "p28 c%d" CURSOR FOR %s' % (st['n'], o['sh']['sql']))
                            o['out'] = db.cursor_from_id('p28 c%d' % st['n'])
                    elif op == 'descout': given = e; e['got'] = cols(o['out'], False)
                    elif op == 'read':
                        if hasattr(o['out'], 'read'): o['out'].read()
                        else: list(o['out'])
                    elif op == 'close': o['s'].close()
                    elif op == 'begin': db.execute('BEGIN')
                    elif op == 'end': db.execute(rng.choice(['ROLLBACK', 'COMMIT']))
                    elif op == 'fail':
                        try: db.execute('SELECT 1/0')
                        except px.ZeroDivisionError: pass
                except px.Error as x: e['r'] = x.code; given = e
                except Exception as x: e['r'] = type(x).__name__; e['msg'] = str(x)[:200]; given = e
                if given is not None:
                    if o is not None: e['is'] = {k: v for k, v in o['sh'].items() if k != 'sql'}; e['sql'] = o['sh']['sql']
                    ev.append(e)
                if e['r'] != 'ok' and not (op == 'describe' and e['r'] == '25P02'): break
        finally:
            S.clear(); o = None
            try:
                if db.pq.state != b'I': db.execute('ROLLBACK')
                db.execute('DEALLOCATE ALL') if rng.random() < 0 else None
                if rng.random() < .3: db.execute('DELETE FROM dt')
            except Exception: db.close()
        return {'steps': len(ev), 'data': {'events': ev}}
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    names = [t[1] for t in TYPES if t[1] != 'ANY']
    oids = {}
    for i in range(8):
        ctx.pg.psql(DDL, 'w%d' % i)
        oids[i] = dict(zip(names, [int(x) for x in ctx.pg.psql(';'.join("SELECT '%s'::regtype::oid" % n.replace("'", "''") for n in names), 'w%d' % i).split()]))
    _, _, edges = tlc.run(ctx, 'Describe', {'Slots': {1, 2}, 'Kinds': set(KINDS), 'Hows': set(HOWS)}, invariants=['TypeOK'], properties=['Stays'],
        coverage_required=['prepare', 'describe', 'exec', 'open', 'descout', 'read', 'close', 'begin', 'end', 'fail'])
    g = walk.Graph(edges, init=[e[0] for e in edges if e[1]['op'] == 'prepare' and e[0]['blk'] == 'I' and all(x == 'none' for x in e[0]['st'])])
    ws, k = g.cover(ctx.rng, maxlen=30)
    ctx.rng.shuffle(ws); ws = ws[:2000 if T else 500]
    ws += g.random_walks(ctx.rng, 4000 if T else 500, 25)
    items = [g.expand(w) for w in ws if w]
    ctx.log('%d walks' % len(items))
    pool.replay(ctx, 'checks.p28', items, {'sock': ctx.pg.sock, 'alloids': {str(k): v for k, v in oids.items()}, 'seed': ctx.seed if hasattr(ctx, 'seed') else 1}, key_prefix='', limit=60)
    data = dict(ctx.data); idx = sorted(data)
    if idx: ctx.sample({'recorded': data[idx[0]]})
    bad = tlc.evaluate(ctx, 'Describe', [data[i] for i in idx], {'Slots': {1}, 'Kinds': set(), 'Hows': set()})
    seen = set()
    for b, v in sorted(bad.items()):
        e = data[idx[b]]['events'][int(v.split()[1]) - 1]
        k = 'describe:%s:%s:%s' % (e['op'], e['r'], ' '.join(v.split()[2:]).split(':')[0])
        if k in seen or len(seen) > 12: continue
        seen.add(k); ctx.violation(k, ('%s: got %r %s; %r' % (v, e.get('got'), e.get('msg', ''), e.get('sql')))[:1200], {'module': 'checks.p28', 'event': e, 'verdict': v, 'walk': items[idx[b]]})
