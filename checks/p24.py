"""P24: SQL libraries (specs/Ilf.tla, specs/Library.tla, specs/Proc.tla, specs/Category.tla)."""
TECHNIQUE = 'TLA+ specifications of library texts (Ilf), of symbols bound to connections (Library), of procedure signatures and calls (Proc), and of categories (Category); TLC enumerates all texts of a few lines, all histories of bindings, all signatures with their calls and all categories, checking that constants stay what they were, that bindings are isolated, that transient symbols are not retained and that every argument is used once; all of them are replayed on the real code, with evaluations counted by sequences and statements observed on a real server'
LEVEL_NOTE = 'Texts up to 4 lines (thorough: 5) from 21; up to 3 bindings on 2 connections with up to 3 symbols of 12 kinds at a time, 2 evaluations each, 2 versions of the text references give; signatures of up to 3 parameters with all modes, 13 return types, all keyword subsets; 2 libraries under up to 3 names. What whitespace surrounds sources is left open, as is where statements of procedures come from.'
import json

HEADS = frozenset([('', False, 'a', ()), ('', False, 'b', ('', '')), (' ', False, 'a', ('const', 'first')), ('', True, 'b', ('preload', 'rows')), ('', False, 'p', ('proc',)), ('', False, 'a', ('', 'all')),
    ('', True, 'a', ('transient', 'column')), ('', False, 'b', ('nope',)), ('', False, 'b', ('', 'nope')), ('', False, 'c', ('static', 'load_rows', 'more'))])
PLAIN = frozenset([('doc', '', 'about it'), ('ref', 'a', ' WHERE 1'), ('ref', 'b', ''), ('ref', 'p', ' -- x'), ('ref', 'zz', ' x'), ('text', '', '  SELECT 1 -- [a]'), ('text', '', '--x'), ('text', '', ''), ('text', '', ' *[a]'), ('text', '', '[a] x'), ('text', '', '*[a x'), ('text', '', 'x[1]')])
FEWH = frozenset(h for h in HEADS if h[3] in ((), ('const', 'first'), ('proc',)) and h[0] == '' or h[1])
FEWP = frozenset(p for p in PLAIN if p[:2] in (('doc', ''), ('ref', 'a'), ('ref', 'p'), ('ref', 'b')) or p[2] in ('', '--x'))

def texts(job):
    import io, os, tempfile
    from postgresql import lib as L, sys as S, exceptions as E
    def norm(s): return [l.strip() for l in s.splitlines() if l.strip()]
    def source(ps): return ''.join(source(p['whole']).strip() if p['whole'] else p['text'] for p in ps)
    d = tempfile.mkdtemp(dir=os.environ.get('TMPDIR')); n = [0]
    S.libpath.append(d)
    def run(item):
        for o in item:
            text = [l + '\n' for l in o['text']]
            n[0] += 1
            def bad(key, m): return {'fail': {'key': key, 'msg': '%r: %s' % (''.join(text), m)}}
            how = n[0] % 5
            try:
                if how == 0:
                    f = os.path.join(d, 'libx%d.sql' % n[0])
                    with open(f, 'w') as fp: fp.writelines(text)
                    lib = L.load(f) if n[0] % 2 else L.load('x%d' % n[0]); os.unlink(f)
                    if lib.name != 'x%d' % n[0] or lib.address != f: return bad('name', 'is named %r at %r' % (lib.name, lib.address))
                else: lib = L.ILF.from_lines(iter(text) if how % 2 else text)
            except (SystemError, MemoryError): raise
            except Exception as e:
                if o['ok']: return bad('refused', 'refused with %r' % e)
                continue
            if not o['ok']: return bad('accepted', 'gave %r' % {k: str(s) for k, s in lib.symbolsd.items()})
            if norm(lib.preface) != norm('\n'.join(o['preface'])): return bad('preface', 'the preface is %r' % lib.preface)
            want = {s['name']: s for s in o['syms']}
            if set(lib.symbols()) != set(want) or len(list(lib.symbols())) != len(want): return bad('symbols', 'has the symbols %r' % list(lib.symbols()))
            if lib.get_symbol('no such') is not None: return bad('symbols', 'has a symbol which was not declared')
            for k, s in want.items():
                g = lib.get_symbol(k)
                if g.name != k or bool(g.reference) != s['ref']: return bad('reference', '%s is %r, reference %r' % (k, g.name, g.reference))
                if (g.method or '') != s['method']: return bad('method', 'the method of %s is %r' % (k, g.method))
                t = s['type'] if s['type'] != 'static' else ''
                if t != 'preload' and (g.type or '').replace('static', '') != t: return bad('type', 'the type of %s is %r' % (k, g.type))
                if t == 'preload' and k not in lib.preload: return bad('preload', '%s is not preloaded' % k)
                if t in ('', 'transient') and k in lib.preload and sum('%s:' % k in l or '%s]' % k in l for l in o['text']) == 1: return bad('preload', '%s is preloaded' % k)
                if norm(str(g)) != norm(source(s['src'])): return bad('source', 'the source of %s is %r, expected %r' % (k, str(g), source(s['src'])))
            if not set(lib.preload) <= set(want): return bad('preload', 'preloads %r' % lib.preload)
        return {'steps': len(item)}
    return run

KIND = {'plain': '', 'plain2': 'static', 'pre': 'preload', 'con': 'const', 'conull': 'const', 'once': 'transient', 'proc': 'proc', 'ref': '', 'refcon': 'const', 'reftrans': 'transient', 'refproc': 'proc', 'refpre': 'preload'}
REFS = {'ref', 'refcon', 'reftrans', 'refproc', 'refpre'}
def source(s):
    if s == 'con': return "SELECT (nextval('c_con') / (SELECT ok FROM ver))::int"
    if s == 'conull': return "SELECT CASE WHEN nextval('c_conull') / (SELECT ok FROM ver) < 0 THEN 1 END"
    if s == 'proc': return 'f_proc(int)'
    if s == 'refproc': return "SELECT 'f_ref' || 'proc' || v || '(int)' FROM ver /*q refproc*/"
    if s in REFS: return "SELECT a, b FROM (SELECT 1, 'SELECT nextval(''c_%s'')::int, --', 'the evaluations' UNION ALL SELECT 2, v::text, '/*ma' || 'de %s*/' FROM ver ORDER BY 1) x(n, a, b) /*q %s*/" % (s, s, s)
    return "SELECT nextval('c_%s')::int /*q %s*/" % (s, s)

def histories(job):
    "histories of bindings"
    import random, gc
    from itertools import chain
    from postgresql import lib as L, exceptions as E
    from . import live
    st = {}
    syms = job['syms']; conn = job['conn']
    def setup():
        st['c'] = [live.connect(job['sock'], 'w%d' % job['worker'], live.Plan()) for _ in range(3)]
        a = st['c'][0]
        a.execute('DROP TABLE IF EXISTS ver; CREATE TABLE ver(v int, ok int)')
        for s in KIND: a.execute('DROP SEQUENCE IF EXISTS c_%s CASCADE; CREATE SEQUENCE c_%s' % (s, s))
        a.execute("CREATE OR REPLACE FUNCTION f_proc(int) RETURNS int LANGUAGE sql AS 'SELECT nextval(''c_proc'')::int'")
        for v in (1, 2): a.execute("CREATE OR REPLACE FUNCTION f_refproc%d(int, OUT c int, OUT v int) LANGUAGE sql AS 'SELECT nextval(''c_refproc'')::int, %d'" % (v, v))
        st['set'] = a.prepare('SELECT setval($1::text::regclass, greatest($2::int, 1), $2::int > 0)')
        st['get'] = a.prepare(' UNION ALL '.join("SELECT '%s', CASE WHEN is_called THEN last_value ELSE 0 END FROM c_%s" % (s, s) for s in syms))
        st['ver'] = a.prepare('INSERT INTO ver VALUES ($1, $2)'); st['clear'] = a.prepare('DELETE FROM ver')
        st['ps'] = [c.prepare('SELECT statement FROM pg_prepared_statements') for c in st['c'][1:]]
    def decode(m, r, two, bad):
        if m in ('rows', 'column', 'chunks'):
            if not hasattr(r, '__next__'): bad('not an iterator: %r' % (r,))
            r = list(r)
        if m == 'declare':
            c = r; r = c.read(); c.close()
        if m == 'chunks': r = list(chain.from_iterable(r))
        elif m == 'first': r = [r if two else (r,)]
        elif m == 'column': r = [(x,) for x in r]
        if len(r) != 1 or len(r[0]) != (2 if two else 1): bad('gave %r' % (r,))
        return tuple(r[0])
    class Bad(Exception): pass
    def run(walk):
        if 'c' not in st or any(c.closed for c in st['c']): setup()
        rng = random.Random(repr(walk['steps'][-1]) + str(len(walk['steps'])) + str(job['seed']))
        meth = {}
        for s in syms:
            k = KIND[s]
            if s in ('proc', 'refproc'): meth[s] = ''
            elif s == 'conull': meth[s] = 'first'
            elif s in REFS: meth[s] = rng.choice(['', 'first', 'rows', 'chunks', 'declare'])
            elif k == 'const': meth[s] = rng.choice(['', 'first', 'rows', 'chunks', 'column'])
            else: meth[s] = rng.choice(['', 'all', 'first', 'rows', 'chunks', 'column', 'declare'])
        order = list(syms); rng.shuffle(order)
        text = ['preface\n']
        for s in order: text += ['[%s%s:%s:%s]\n' % ('&' if s in REFS else '', s, KIND[s], meth[s])] + ['-- %s\n' % s] * rng.randrange(2) + [source(s) + '\n', '\n']
        lib = L.ILF.from_lines(text)
        for s in syms: st['set'].first('c_' + s, 0)
        version, ok = 1, 1
        def put(): st['clear'](); st['ver'](version, ok)
        put()
        B = {}; held = None; heldof = None; done = []
        def fail(key, m): return {'fail': {'key': key, 'msg': 'library %r: after %s: %s' % (''.join(text), done, m)}}
        def count():
            out = []
            for i, p in enumerate(st['ps']):
                p(); t = [r[0] for r in p()]; q = {}; md = {}
                for s in syms:
                    if s in REFS:
                        md[s] = sum(('FROM f_refproc' in x) if s == 'refproc' else ('/*made %s*/' % s in x) for x in t)
                        q[s] = sum('/*q %s*/' % s in x for x in t)
                    elif KIND[s] != 'const' or s in REFS: q[s] = sum(('f_proc(' in x) if s == 'proc' else ('/*q %s*/' % s in x) for x in t)
                    else: q['const:' + s] = sum('c_' + s in x for x in t)
                out.append((q, md))
            return out
        try:
            for act, obs, s2 in walk['steps']:
                op, b, s = act['op'], act['b'], act['s']
                done.append('%s %s %s' % (op, b or '', s))
                got = None; val = None
                def bad(m): raise Bad(m)
                try:
                    if op == 'bind': B[b] = L.Binding(st['c'][conn[str(b)]], lib)
                    elif op == 'unbind': del B[b]
                    elif op == 'value':
                        val = getattr(B[b], s)
                        if s == 'conull': got = ['null', None] if val is None else ['value', val]
                        else:
                            if meth[s] == 'first': val = [(val,)]
                            elif meth[s] == 'column': val = [(x,) for x in val]
                            elif meth[s] == 'chunks': val = [tuple(r) for c in val for r in c]
                            got = ['ok', [tuple(r) for r in val]]
                    elif op in ('call', 'callmade', 'callheld'):
                        f = held if op == 'callheld' else getattr(B[b], s)
                        if op == 'callmade': f = f()
                        if s in ('proc', 'refproc'):
                            val = f(5); val = tuple(val) if s == 'refproc' else (val,)
                        else: val = decode(meth[s] if meth[s] != 'all' else '', f(), s in REFS, bad)
                        del f
                    elif op == 'take':
                        held = getattr(B[b], s)
                        if s in REFS and s != 'refcon': held = held()
                    elif op == 'drop': held = None
                    elif op == 'edit': version += 1; put()
                    elif op == 'break': ok = 1 - ok; put()
                except Bad as e: return fail('shape:' + s, str(e))
                except E.Error as e:
                    if obs['r'] == 'error':
                        done[-1] += ' (refused)'
                        for x in syms: st['set'].first('c_' + x, obs['cnt'][x])
                        e.__traceback__ = None; e.creator = None; del e; gc.collect()
                    else: return fail('exception:%s:%s' % (op, s), repr(e))
                else:
                    if obs['r'] == 'error': return fail('accepted:' + op, 'was not refused')
                    if op in ('call', 'callmade', 'callheld'):
                        want = (obs['v'], obs['version']) if s in REFS else (obs['v'],)
                        if val != want: return fail('result:' + s, 'gave %r, expected %r' % (val, want))
                    elif op == 'value':
                        want = ['null', None] if obs['r'] == 'null' else ['ok', [(obs['v'],)]]
                        if got != want: return fail('constant:' + s, 'is %r, expected %r' % (got, want))
                val = None
                c = {r[0]: r[1] for r in st['get']()}
                if c != obs['cnt']: return fail('evaluated:' + op, 'evaluations are %r, expected %r' % (c, obs['cnt']))
                want = []
                for i in ('1', '2'):
                    if isinstance(obs['query'], list): oq, om = (obs['query'] + [None, None])[int(i) - 1], (obs['made'] + [None, None])[int(i) - 1]
                    else: oq, om = obs['query'].get(i), obs['made'].get(i)
                    q = {x: 0 for x in syms if x in REFS or KIND[x] != 'const'}; q.update(oq or {}); q.update({'const:' + x: 0 for x in syms if KIND[x] == 'const' and x not in REFS})
                    m = {x: 0 for x in syms if x in REFS}; m.update(om or {})
                    want.append((q, m))
                if count() != want:
                    gc.collect()
                    if count() != want: return fail('statements:' + op, 'the statements are %r, expected %r' % (count(), want))
        finally:
            B.clear(); held = None
        return {'steps': len(walk['steps'])}
    return run

SOURCES = [('SELECT g, $1::int FROM generate_series(1, 3) g', (7,)), ('SELECT 1', ()), ('SELECT 1 WHERE false', ()), ('SELECT 1, 2', ()), ('INSERT INTO lt VALUES ($1) RETURNING x', (3,)), ('INSERT INTO lt VALUES ($1)', (4,)), ('UPDATE lt SET x = x', ()), ('CREATE TEMP TABLE IF NOT EXISTS lq(i int)', ()), ('SELECT NULL', ()),
    ('SELECT g FROM generate_series(1, 1000) g', ()), ('VALUES (1, 2), (3, 4);', ())]
def methods(job):
    "calling a symbol is executing its source in its way"
    from postgresql import lib as L, exceptions as E
    from . import live
    db = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
    db.execute('CREATE TABLE IF NOT EXISTS lt(x int)')
    def take(f):
        try: r = f()
        except E.Error as e: return ('error', e.code)
        except (TypeError, IndexError, AttributeError) as e: return ('error', type(e).__name__)
        kind = type(r).__name__
        if hasattr(r, 'read'): v = r.read(); r.close(); return (kind, v)
        if hasattr(r, '__next__'):
            try: return (kind, list(r))
            except E.Error as e: return (kind, e.code)
        return (kind, r)
    def run(item):
        typ, m, src, args, isref = item
        name = 'x'
        db.execute('TRUNCATE lt; INSERT INTO lt VALUES (1), (2)')
        def direct():
            ps = db.prepare(src)
            return (getattr(ps, m) if m else ps)(*args)
        want = take(direct)
        db.execute('TRUNCATE lt; INSERT INTO lt VALUES (1), (2)')
        if isref: lib = L.ILF.from_lines(['[&x:%s:%s]\n' % (typ, m), "SELECT '%s'\n" % src.replace("'", "''")])
        else: lib = L.ILF.from_lines(['[x:%s:%s]\n' % (typ, m), src + '\n'])
        b = L.Binding(db, lib); c = L.Binding(db, lib)
        def bad(key, msg): return {'fail': {'key': key, 'msg': '%s:%s of %r: %s' % (typ, m, src, msg)}}
        for i in range(2):
            if typ == 'const' and not isref:
                got = take(lambda: b.x)
                v = want[1] if want[0] in ('list', 'NoneType', 'Row') or not hasattr(want[1], '__iter__') else list(want[1]) if want[0] not in ('tuple', 'str') else want[1]
                if got[1] != v: return bad('constant', 'is %r, expected %r' % (got, want))
            else:
                db.execute('TRUNCATE lt; INSERT INTO lt VALUES (1), (2)')
                got = take((lambda: b.x()(*args)) if isref and typ != 'const' else (lambda: b.x(*args)))
                if got != want: return bad('method', 'gave %r, expected %r' % (got, want))
        # given as parameters
        if m == '' and typ == '' and not isref and args:
            for lm, data in (('load_rows', [(8,), (9,)]), ('load_chunks', [[(8,)], [(9,), (10,)]])):
                if not src.startswith('INSERT') or 'RETURNING' in src: continue
                lb = L.Binding(db, L.ILF.from_lines(['[y::%s]\n' % lm, src + '\n']))
                db.execute('TRUNCATE lt'); r = lb.y(iter(data))
                rows = sorted(x[0] for x in db.prepare('SELECT x FROM lt'))
                if rows != ([8, 9] if lm == 'load_rows' else [8, 9, 10]): return bad('load', '%s gave %r' % (lm, rows))
        return {'steps': 3}
    return run

def procedures(job):
    import random
    from postgresql import exceptions as E
    from . import live
    db = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
    db.execute('DO $$ BEGIN CREATE SCHEMA "p q"; CREATE TYPE "p q".pair AS (x int, y text); CREATE DOMAIN "p q".dpair AS "p q".pair; CREATE DOMAIN "p q".ddpair AS "p q".dpair; CREATE TYPE "p q".single AS (x int); EXCEPTION WHEN duplicate_schema THEN END $$')
    def qi(s): return '"' + s.replace('"', '""') + '"'
    n = [0]
    def run(item):
        sig, ret, info, calls = item['sig'], item['ret'], item['info'], item['calls']
        rng = random.Random(json.dumps(item) + str(job['seed']))
        n[0] += 1
        schema = rng.choice(['public', 'p q']); name = rng.choice(['pf%d', 'P "f" %d']) % n[0]
        q = ('' if schema == 'public' and rng.random() < .5 else qi(schema) + '.') + qi(name)
        ins = [p for p in sig if p['mode'] != 'out']; outs = [p for p in sig if p['mode'] in ('out', 'inout')]
        types = ['int[]' if p['mode'] == 'variadic' else 'int' for p in ins]
        # what it gives encodes its arguments
        enc = ' + '.join(['0'] + ['%d * %s' % (100 ** i, '$%d[1]' % (i + 1) if t == 'int[]' else '$%d' % (i + 1)) for i, t in enumerate(types)])
        dec = lambda a: sum(100 ** i * x for i, x in enumerate(a))
        base = ret.replace('setof ', '')
        width = len(outs) if base == 'outs' else {'pair': 2, 'dpair': 2, 'ddpair': 2, 'table2': 2}.get(base, 1)
        if base == 'outs': body = ', '.join('%s + %d' % (enc, i) for i in range(width)); row = lambda v, k: tuple(v + i + k for i in range(width))
        elif base in ('pair', 'dpair', 'ddpair', 'table2'): body = "%s, 'é'::text" % enc; row = lambda v, k: (v + k, 'é')
        elif base == 'void': body = None
        else: body = enc; row = lambda v, k: (v + k,)
        cast = {'pair': '"p q".pair', 'dpair': '"p q".dpair', 'ddpair': '"p q".ddpair', 'single': '"p q".single'}.get(base)
        nrows = rng.choice([0, 1, 3, 700]) if info['set'] else 1
        sel = ('SELECT row(%s)::%s' % (body, cast)) if cast else 'SELECT ' + (body or 'NULL::void')
        if info['set']:
            # (the rows are numbered in the first column)
            parts = body.split(', ')
            if base == 'outs': body2 = ', '.join('(%s) + k' % p for p in parts)
            else: body2 = ', '.join(['(%s) + k' % parts[0]] + parts[1:])
            sel = ('SELECT row(%s)::%s' % (body2, cast) if cast else 'SELECT ' + body2) + ' FROM generate_series(0, %d) k' % (nrows - 1)
        decl = ', '.join('%s %s %s' % ({'in': 'IN', 'out': 'OUT', 'inout': 'INOUT', 'variadic': 'VARIADIC'}[p['mode']], qi(p['name']) if p['name'] else '', 'int[]' if p['mode'] == 'variadic' else 'int') for p in sig)
        returns = '' if ret == 'outs' else 'RETURNS ' + ({'setof outs': 'SETOF ' + ('record' if len(outs) > 1 else 'int'), 'int': 'int', 'setof int': 'SETOF int', 'void': 'void', 'table1': 'TABLE(t1 int)', 'table2': 'TABLE(t1 int, t2 text)'}.get(ret) or ('SETOF ' if info['set'] else '') + cast)
        sql = 'CREATE FUNCTION %s(%s) %s LANGUAGE sql AS $b$ %s $b$' % (q, decl, returns, sel)
        def bad(key, m): return {'fail': {'key': key, 'msg': '%s: %s' % (sql, m)}}
        db.execute(sql)
        if types and rng.random() < .5: db.execute('CREATE FUNCTION %s(%s) RETURNS text LANGUAGE sql AS $b$ SELECT \'wrong\'::text $b$' % (q, ', '.join('text' for t in types)))
        ident = '%s(%s)' % (q, ', '.join(types))
        try:
            if rng.random() < .3: p = db.proc(int(db.prepare("SELECT $1::text::regprocedure::oid::int8").first(ident)))
            else: p = db.proc(ident)
        except E.Error as e: return bad('load', repr(e))
        def arg(i, x): return [x, 50] if types[i] == 'int[]' else x
        for c in calls:
            nth = {}
            names = c['names']; kw = {}; args = []
            exp = c['args'] if c['ok'] else None
            for k in c['keys']: kw[k] = arg(names.index(k), 10 + names.index(k) + 1) if k in names else 5
            free = [i for i, m in enumerate(names) if m not in kw]
            args = [arg(free[i], i + 1) if i < len(free) else i + 1 for i in range(c['n'])]
            try:
                r = p(*args, **kw)
                if info['set']:
                    if not hasattr(r, '__next__'): return bad('set', 'call %r %r gave %r' % (args, kw, r))
                    r = list(r)
            except (TypeError, E.Error) as e:
                if c['ok']: return bad('refused', 'call %r %r raised %r' % (args, kw, e))
                continue
            except Exception as e: return bad('exception', 'call %r %r raised %r' % (args, kw, e))
            if not c['ok']: return bad('accepted', 'call %r %r gave %r' % (args, kw, r))
            v = dec(exp)
            if base == 'void': want = r if r in (None, '') else '(nothing)'
            elif info['set']: want = [row(v, k) if info['composite'] else row(v, k)[0] for k in range(nrows)]
            else: want = row(v, 0) if info['composite'] else row(v, 0)[0]
            if info['composite']: r = [tuple(x) for x in r] if info['set'] and all(isinstance(x, tuple) for x in r) else tuple(r) if isinstance(r, tuple) else r
            if r != want: return bad('result', 'call %r %r gave %.200r, expected %.200r' % (args, kw, r, want))
        db.execute('DROP FUNCTION %s' % ident)
        return {'steps': 1 + len(calls)}
    return run

def categories(job):
    from postgresql import lib as L
    from postgresql.driver.pq3 import Connection
    from . import live
    lib = {}
    for k, n in job['own'].items(): lib[k] = L.ILF.from_lines(['[which::first]\n', "SELECT '%s'::text || current_database()\n" % k]); lib[k]._name = n
    db0 = live.connector(job['sock'], 'w%d' % job['worker'], live.Plan())
    def run(item):
        st, o = item
        def bad(key, m): return {'fail': {'key': key, 'msg': '%r: %s' % (st, m)}}
        named = {k: lib[v] for k, v in st['named'].items() if v != 'none'}
        cat = L.Category(*[lib[d] for d in st['direct']], **named)
        seen = []
        for w in range(2): # the same for several connections
            k = type(db0)(unix=job['sock'], user='test', database='w%d' % ((job['worker'] + w) % 8), driver=db0.driver, sslmode='disable', category=cat)
            c = k()
            try: c.connect()
            except Exception as e:
                if o['ok'] and not o['either'] or not isinstance(e, (AttributeError, TypeError)): return bad('refused', 'raised %r' % e)
                c.close()
                if w: break
                continue
            if not o['ok']: c.close(); return bad('accepted', 'was accepted')
            for n, ls in (o['bound'] or {}).items():
                got = getattr(c, n).which()
                if got != ls[0] + k.database: c.close(); return bad('bound', '%s is %r' % (n, got))
            extra = [n for n in list(job['own'].values()) + list(st['named']) if n not in (o['bound'] or {}) and not hasattr(Connection, n) and hasattr(c, n)]
            if extra: c.close(); return bad('extra', 'has %r' % extra)
            seen.append(c)
        for i, c in enumerate(seen):
            for n, ls in (o['bound'] or {}).items():
                if getattr(c, n).which() != ls[0] + c.connector.database: return bad('isolation', '%s of the other connection' % n)
        for c in seen: c.close()
        return {'steps': 3}
    return run

GROUPS = [(('plain', 'con'), (1, 3)), (('con', 'conull'), (1, 2)), (('pre', 'once'), (1, 2, 3)), (('ref', 'refcon'), (1, 3)), (('reftrans', 'refproc'), (1, 3)), (('proc', 'plain2', 'refpre'), (1, 3)), (('proc', 'con', 'once'), (1,)), (('con', 'refcon'), (1,))]
def run(ctx):
    import concurrent.futures
    from vlib import tlc, pool, pgserver, walk
    conn = {'1': 1, '2': 1, '3': 2}
    jobs = [('Ilf', {'MaxLines': 4 if ctx.thorough else 3, 'Heads': HEADS if ctx.thorough else frozenset(h for h in HEADS if h[3] != ('', '')), 'Plain': PLAIN}, ['Declared', 'NoLoss'], ['Stable'])]
    jobs.append(('Ilf', {'MaxLines': 5 if ctx.thorough else 4, 'Heads': FEWH, 'Plain': FEWP}, ['Declared', 'NoLoss'], ['Stable']))
    for syms, binds in GROUPS:
        if ctx.thorough and len(syms) < 3: binds = (1, 2, 3)
        jobs.append(('Library', {'Syms': frozenset(syms), 'Binds': frozenset(binds), 'Conn': [1, 1, 2], 'MaxCount': 2, 'MaxVersion': 2}, ['Retained'], ['ConstantsConstant', 'Isolated']))
    jobs.append(('Proc', {'MaxParams': 3}, ['Once'], []))
    own = {'l1': 'one', 'l2': 'two'}
    jobs.append(('Category', {'Libs': frozenset(own), 'Own': own, 'Names': frozenset(['one', 'alt', 'prepare']), 'Taken': frozenset(['prepare'])}, ['Unique'], []))
    def explore(j): return tlc.run(ctx, j[0], j[1], invariants=j[2], properties=j[3])
    with concurrent.futures.ThreadPoolExecutor(8) as ex: res = list(ex.map(explore, jobs))
    for j, (n, t, e) in zip(jobs, res): ctx.log('%s: %d states, %d transitions' % (j[0], n, t))
    def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]
    ctx.pg = pgserver.Server(ctx); ctx.pg.databases(8)
    seen = {}
    for j, r in zip(jobs, res):
        if j[0] == 'Ilf':
            for s, a, o, s2 in r[2]: seen[json.dumps(o['text'])] = o
    tx = list(seen.values()); ctx.rng.shuffle(tx); ctx.sample(tx[0])
    if not ctx.thorough: tx = tx[:40000]
    pool.replay(ctx, 'checks.p24', chunks(tx, 200), {}, func='texts', key_prefix='text:', limit=120)
    ctx.log('%d texts' % len(tx))
    i = 0
    for j, (n, t, edges) in zip(jobs, res):
        if j[0] != 'Library': continue
        syms, binds = GROUPS[i]; i += 1
        g = walk.Graph(edges, [e[0] for e in edges if e[0]['bound'] == [] and e[0]['version'] == 1 and not e[0]['broken'] and not any(e[0]['cnt'].values()) and not e[0]['held']][:1])
        if len(edges) < (400000 if ctx.thorough else 6000): ws, k = g.cover(ctx.rng, 60)
        else: ws = g.random_walks(ctx.rng, 4000 if ctx.thorough else 150, 50)
        ws = [g.expand(w) for w in ws]
        pool.replay(ctx, 'checks.p24', ws, {'sock': ctx.pg.sock, 'syms': syms, 'conn': conn}, func='histories', key_prefix='symbols:', limit=120, user='pgtest')
        ctx.log('%s: %d histories' % (syms, len(ws)))
    items = [[t, m, s, a, r] for t in ('', 'static', 'preload', 'transient', 'const') for m in ('', 'first', 'rows', 'column', 'chunks', 'declare') for s, a in SOURCES for r in (False, True) if (ctx.thorough or t in ('', 'const') or len(s) < 20) and not (t == 'const' and not r and (a or m == 'declare' or 'lt' in s.split() or 'lq' in s))]
    pool.replay(ctx, 'checks.p24', items, {'sock': ctx.pg.sock}, func='methods', key_prefix='call:', limit=60, user='pgtest')
    by = {}
    for j, (n, t, edges) in zip(jobs, res):
        if j[0] != 'Proc': continue
        for s, a, o, s2 in edges:
            d = by.setdefault(json.dumps(s2), {'sig': s2['sig'], 'ret': s2['ret'], 'calls': []})
            if a['op'] == 'declare': d['info'] = o
            else: d['calls'].append({'n': a['n'], 'keys': a['keys'], 'ok': o['ok'], 'args': o['args'], 'names': o['names']})
    items = list(by.values()); ctx.rng.shuffle(items)
    if not ctx.thorough: items = items[:600]
    pool.replay(ctx, 'checks.p24', items, {'sock': ctx.pg.sock}, func='procedures', key_prefix='procedure:', limit=60, user='pgtest')
    ctx.log('%d of %d procedures' % (len(items), len(by)))
    for j, (n, t, edges) in zip(jobs, res):
        if j[0] == 'Category': pool.replay(ctx, 'checks.p24', [[s, o] for s, a, o, s2 in edges], {'sock': ctx.pg.sock, 'own': own}, func='categories', key_prefix='category:', limit=60, user='pgtest')
