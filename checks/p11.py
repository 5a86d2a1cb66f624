"""P11: COPY in both directions (specs/Copy.tla)."""
TECHNIQUE = 'TLA+ model (Copy): TLC enumerates schedules of reading, closing and dropping copies out of the server between other operations, and copies into it whose source fails, contains rejected rows, performs operations on the connection, cancels, closes or kills it; they are run against PostgreSQL over a fragmenting wire and TLC judges every recorded behaviour: complete rows in order, all rows of a copy in or none, an error that tells, and the next operation unaffected'
LEVEL_NOTE = 'One or two copies out at once; text and binary format, rows from empty to 100 kB, results up to some thousand rows. An operation completing a copy out that fails on the server raises its error and is not performed (documented behaviour); the copy itself must raise it too.'

VALUES = [('', "''"), ('x' * 13, "repeat('x', 13)"), ('tab\there', "E'tab\\there'"), (None, 'NULL'), ('é\nü', "E'é\\nü'"), ('back\\slash', "E'back\\\\slash'"), ('y' * 900, "repeat('y', 900)")]
PAY = '(ARRAY[' + ', '.join(v for _, v in VALUES) + "])[%s %% 7 + 1]"

def worker(job):
    import random, struct
    import postgresql.exceptions as px
    from . import live
    st = {}
    class Stop(Exception): pass
    class Abort(BaseException): pass
    def setup():
        p = st['plan'] = live.Plan(); w = 'w%d' % job['worker']
        st['db'] = live.connect(job['sock'], w, p)
        if 'b' not in st:
            b = st['b'] = live.connect(job['sock'], w, live.Plan())
            b.execute('DROP TABLE IF EXISTS ct; CREATE TABLE ct(n serial, id int CHECK (id > 0), pay text);'
                'DROP TABLE IF EXISTS ctx CASCADE; CREATE TABLE ctx(id int, pay text); DROP VIEW IF EXISTS ctv; CREATE VIEW ctv AS SELECT * FROM ctx;'
                "CREATE OR REPLACE FUNCTION refuse() RETURNS trigger LANGUAGE plpgsql AS $$BEGIN RAISE EXCEPTION 'refused'; END$$; CREATE TRIGGER refuse BEFORE INSERT ON ctx FOR EACH STATEMENT EXECUTE FUNCTION refuse()")
            st['tab'] = b.prepare("SELECT CASE WHEN pay IS NOT DISTINCT FROM %s THEN id ELSE -id END FROM ct ORDER BY n" % (PAY % 'id'))
            st['del'] = b.prepare('DELETE FROM ct')
            st['other'] = live.connect(job['sock'], w, live.Plan())
        st['in'] = st['db'].prepare('COPY ct(id, pay) FROM STDIN'); st['inb'] = st['db'].prepare('COPY ct(id, pay) FROM STDIN WITH (FORMAT binary)')
        st['refusing'] = [st['db'].prepare('COPY ctx FROM STDIN'), st['db'].prepare('COPY ctv FROM STDIN')]
    def esc(v): return b'\\N' if v is None else v.replace('\\', '\\\\').replace('\n', '\\n').replace('\t', '\\t').encode('utf-8')
    def text(i): return b'%d\t%s\n' % (i, esc(VALUES[i % 7][0]))
    SIG = b'PGCOPY\n\xff\r\n\0' + struct.pack('!LL', 0, 0)
    def binary(i):
        v = VALUES[i % 7][0]; v = None if v is None else v.encode('utf-8')
        return struct.pack('!hll', 2, 4, i) + (struct.pack('!l', -1) if v is None else struct.pack('!L', len(v)) + v)
    def out(bad, n, bin): return 'COPY (SELECT g + 0/(g - %d), %s FROM generate_series(1, %d) g) TO STDOUT' % (bad, PAY % 'g', n) + (' WITH (FORMAT binary)' if bin else '')
    def rowid(o, item):
        "the number of the row that an item of a copy out is; None: not a row (of the binary format)"
        if not isinstance(item, bytes): return -1
        k = o['last'] + 1
        if not o['bin']: good = item == text(k)
        else:
            if k == 1 and item.startswith(SIG): item = item[len(SIG):]; o['sig'] = True
            if item == b'\xff\xff' and o['sig'] and o['last'] == o['n']: return None
            good = item == binary(k)
        if not good: return -k
        o['last'] = k
        return k
    def run(walk):
        if 'db' not in st or st['db'].closed or st['db'].state != 'idle': setup()
        db = st['db']
        rng = random.Random(str(len(walk['steps'])) + repr(walk['steps'][-3:]))
        big = rng.random() < .12
        st['plan'].rng = random.Random(rng.random()) if not big and rng.random() < .6 else None
        ev = []; slots = {}; wid = [0]
        def rec(op, f, **kw):
            try: r = f()
            except px.Error as e: ev.append(dict(kw, op=op, r='error', code=e.code)); return None
            ev.append(dict(kw, op=op, r='ok'))
            return r
        def size(least=0): return max(least, rng.choice([300, 1000, 3000]) if big else rng.choice([0, 1, 2, 3, 7, 20]))
        def pull(o, amt):
            want = {'one': 1, 'some': rng.choice([2, 3, 5]), 'all': 10 ** 9}[amt]
            got = []
            def flush():
                if got: ev.append({'op': 'next', 'slot': o['slot'], 'r': 'rows', 'ids': list(got)}); del got[:]
            try:
                while want > 0:
                    items = next(o['it'])
                    for t in items if o['kind'] == 'chunks' else [items]:
                        r = rowid(o, t)
                        if r is not None: got.append(r)
                    want -= 1
                flush()
            except StopIteration: flush(); ev.append({'op': 'next', 'slot': o['slot'], 'r': 'end'})
            except px.Error as e: flush(); ev.append({'op': 'next', 'slot': o['slot'], 'r': 'error', 'code': e.code})
        def load(c):
            n = size(1 if c not in ('load', 'load refused') else 0); bin = rng.random() < .3
            ids = list(range(wid[0] + 1, wid[0] + n + 1)); wid[0] += n
            srcfail = rej = at = 0; inner = ''; caught = rng.random() < .5
            if c == 'load src': srcfail = rng.randint(1, n)
            elif c == 'load rej': rej = rng.randint(1, n)
            elif c not in ('load', 'load refused'):
                inner = c.split()[1]; at = rng.randint(1, n)
                if inner == 'op': inner = rng.choice(['query', 'begin', 'load', 'out', 'prepare', 'cursor'])
                if rng.random() < .2: srcfail = rng.randint(at, n)
            exc = rng.choice([Stop('stop'), Abort('abort'), KeyboardInterrupt('kbd'), px.Error('source error'), 'item', 'item', 'chunk'])
            ir = ['']
            def act():
                try:
                    if inner == 'query': db.query('SELECT 1')
                    elif inner == 'begin': db.xact().start()
                    elif inner == 'load': st['in'].load_rows([text(1)])
                    elif inner == 'out': db.prepare(out(0, 3, False))()
                    elif inner == 'prepare': db.prepare('SELECT 2')
                    elif inner == 'cursor': next(db.query.rows('SELECT 3'))
                    elif inner == 'cancel': db.interrupt()
                    elif inner == 'close': db.close()
                    elif inner == 'kill': st['b'].query('SELECT pg_terminate_backend($1::int, 5000)', db.backend_id)
                    ir[0] = 'ok'
                except px.Error as e:
                    ir[0] = 'error'
                    if not caught: raise
            def items():
                if bin: yield SIG, 0
                for k, i in enumerate(ids, 1):
                    if k == at and inner: act()
                    if k == srcfail:
                        if isinstance(exc, BaseException): raise exc
                        yield rng.choice(['x', None, 7, ('x',), object()]), k
                    elif k == rej: yield (binary(i).replace(struct.pack('!l', i), struct.pack('!l', -9), 1) if bin else rng.choice([b'abc\txx\n', b'-9\t\n', b'1\n', b'1\t2\t3\n', b'-9\t\n'])), k
                    else: yield (binary(i) if bin else text(i)), k
                if bin: yield b'\xff\xff', n
            def chunks(m):
                c = []
                for x, k in items():
                    if exc == 'chunk' and srcfail and k == srcfail: yield c; yield rng.choice([5, None, object()])
                    c.append(x)
                    if len(c) == m:
                        yield c
                        c = []
                        if rng.random() < .2: yield []
                if c: yield c
            s = st['inb' if bin else 'in']
            # the server fails before it reads a row
            if c == 'load refused': s = rng.choice(st['refusing']); rej = 1; inner = ''; srcfail = rng.choice([0, 0, 0, n])
            how = rng.randrange(3); m = rng.choice([1, 2, 3, 50])
            e = dict(op='load', ids=ids, srcfail=srcfail, rej=rej, inner=inner, at=at, bin=bin, how=how, m=m, caught=caught)
            try:
                (s.load_rows((x for x, _ in items())) if how == 0 else s.load_rows((x for x, _ in items()), m) if how == 1 else s.load_chunks(chunks(m)))
                e['r'] = 'ok'
            except px.Error as x: e['r'] = 'src' if x is exc else 'error'; e['code'] = x.code; 
            except BaseException as x:
                if x is exc or (isinstance(exc, str) and srcfail and isinstance(x, (TypeError, AttributeError, ValueError))): e['r'] = 'src'
                else: e['r'] = 'unrelated %s: %s' % (type(x).__name__, str(x)[:80])
            e['ir'] = ir[0]
            ev.append(e)
        try:
            for act, _, s2 in walk['steps']:
                op = act['op']
                if op == 'open':
                    kind = rng.choice(['rows', 'chunks', 'iter', 'qrows', 'qchunks']); bin = rng.random() < .3
                    n = size(1 if act['bad'] else 0); bad = rng.choice([1, n, rng.randint(1, n)]) if act['bad'] else 0
                    sql = out(bad, n, bin)
                    o = {'kind': 'chunks' if 'chunks' in kind else 'rows', 'bin': bin, 'last': 0, 'n': n, 'slot': act['slot'], 'sig': False}
                    it = rec('open', {'rows': lambda: db.prepare(sql).rows(), 'chunks': lambda: db.prepare(sql).chunks(), 'iter': lambda: iter(db.prepare(sql)), 'qrows': lambda: db.query.rows(sql), 'qchunks': lambda: db.query.chunks(sql)}[kind], slot=act['slot'], n=n, bad=bad, kind=kind)
                    if it is not None: o['it'] = it; slots[act['slot']] = o
                elif op == 'next':
                    if act['slot'] in slots: pull(slots[act['slot']], act['amt'])
                elif op == 'close':
                    o = slots.get(act['slot'])
                    if o and hasattr(o['it'], 'close'): o['it'].close(); ev.append({'op': 'close', 'r': 'ok', 'slot': act['slot']})
                elif op == 'drop':
                    if slots.pop(act['slot'], None): ev.append({'op': 'drop', 'r': 'ok', 'slot': act['slot']})
                elif op == 'loadown':
                    o = slots.get(act['slot'])
                    if o and not o['bin'] and o['kind'] in ('rows', 'chunks'):
                        rec('loadown', (lambda: st['in'].load_rows(o['it'])) if o['kind'] == 'rows' else lambda: st['in'].load_chunks(o['it']), slot=act['slot'])
                        if ev[-1]['r'] == 'ok': o['last'] = o['n']
                elif op in ('begin', 'commit', 'rollback'): rec(op, lambda: db.execute(op))
                elif op == 'cmd':
                    c = act['cmd']
                    if c.startswith('load'): load(c)
                    elif c == 'peer':
                        # from the copy out of another connection
                        n = size(1); bad = rng.choice([0, 0, 0, rng.randint(1, n)])
                        try: st['other'].execute('SELECT 1')
                        except px.Error: pass
                        how = rng.random() < .5
                        src = st['other'].prepare(out(bad, n, False))
                        try: src = src.chunks() if how else src.rows()
                        except px.Error: continue
                        rec('load', lambda: st['in'].load_chunks(src) if how else st['in'].load_rows(src), ids=list(range(1, n + 1)), srcfail=bad, rej=0, inner='', at=0, ir='')
                        src = None
                        if ev[-1]['r'] == 'error' and bad: ev[-1]['r'] = 'src'
                    elif c == 'query':
                        r = rec('query', lambda: db.query('SELECT g FROM generate_series(1, 3) g'))
                        if r is not None and [x[0] for x in r] != [1, 2, 3]: ev[-1]['r'] = 'wrong rows %r' % (r,)
                    elif c == 'fail': rec('fail', lambda: db.query('SELECT 1/0'))
                    elif c.startswith('whole'):
                        n = size(1); bad = rng.choice([1, n, rng.randint(1, n)]) if c == 'whole srv' else 0; bin = rng.random() < .3
                        o = {'bin': bin, 'last': 0, 'n': n, 'sig': False}
                        r = rec('whole', lambda: db.prepare(out(bad, n, bin))(), n=n, bad=bad)
                        if r is not None: ev[-1]['ids'] = [x for x in [rowid(o, t) for t in r] if x is not None]
                    elif c == 'look':
                        r = rec('look', lambda: db.query("SELECT CASE WHEN pay IS NOT DISTINCT FROM %s THEN id ELSE -id END FROM ct ORDER BY n" % (PAY % 'id')))
                        if r is not None: ev[-1]['ids'] = [x[0] for x in r]
                    elif c == 'misuse':
                        how = rng.choice(['call', 'first', 'rows', 'chunks', 'execute', 'load', 'load'])
                        s = st['in']
                        if how == 'load': s = rec('query', lambda: db.prepare(rng.choice(['SELECT 1', out(0, 3, False)])))
                        if s is not None: rec('misuse', {'call': lambda: s(), 'first': lambda: s.first(), 'rows': lambda: list(s.rows()), 'chunks': lambda: list(s.chunks()), 'execute': lambda: db.execute('COPY ct FROM STDIN'), 'load': lambda: s.load_rows([b'1\n'])}[how], how=how)
                if db.closed: break
            slots.clear()
            if not db.closed:
                for _ in range(5):
                    if db.pq.state == b'I' and db.pq.xact is None: break
                    if db.pq.state == b'I': rec('query', lambda: db.execute('SELECT 1'))
                    else: rec('rollback', lambda: db.execute('ROLLBACK'))
            ev.append({'op': 'table', 'r': 'ok', 'ids': [r[0] for r in st['tab']()]})
        finally:
            slots.clear(); st['plan'].rng = None
            if db.state != 'idle':
                db.close(); db = None
            st['del']()
        return {'steps': len(ev), 'data': {'events': ev}}
    return run

def worker_notices(job):
    "the server sends messages while it is being sent data"
    import signal
    from . import live
    class Stuck(BaseException): pass
    def run(item):
        db = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        n, size, how = item
        seen = [0, 0]; last = [None, 0]
        def hook(m): seen[0] += 1; return True
        def alarm(*a):
            last[1] = last[1] + 1 if last[0] == tuple(seen) else 0
            last[0] = tuple(seen)
            if last[1] >= 4: raise Stuck()
        def rows():
            for i in range(n):
                seen[1] += 1
                yield b'%d\t%s\n' % (i + 1, b'z' * 100) if how == 'copy' else (i + 1, 'z' * 100)
        old = signal.signal(signal.SIGALRM, alarm)
        try:
            db.execute("SET client_min_messages = notice; CREATE TEMP TABLE nt(id int, pay text); CREATE FUNCTION pg_temp.tell() RETURNS trigger LANGUAGE plpgsql AS $$BEGIN RAISE NOTICE 'row %%', repeat('x', %d); RETURN NEW; END$$; CREATE TRIGGER tell BEFORE INSERT ON nt FOR EACH ROW EXECUTE FUNCTION pg_temp.tell()" % size)
            db.msghook = hook
            s = db.prepare('COPY nt FROM STDIN' if how == 'copy' else 'INSERT INTO nt VALUES ($1, $2)')
            signal.setitimer(signal.ITIMER_REAL, 1, 1)
            try: s.load_rows(rows(), 1000)
            except Stuck: return {'fail': {'key': 'stuck:%s-with-notices' % how, 'msg': 'loading %d rows hangs: %d rows were taken, %d of the notices received; both sides wait for the other to read' % (n, seen[1], seen[0])}}
            finally: signal.setitimer(signal.ITIMER_REAL, 0, 0)
            if seen[0] != n: return {'fail': {'key': 'notices-lost', 'msg': '%d of %d notices' % (seen[0], n)}}
            if db.query('SELECT count(*) FROM nt')[0][0] != n: return {'fail': {'key': 'rows', 'msg': 'not all rows'}}
            return {'steps': n}
        finally:
            signal.signal(signal.SIGALRM, old)
            db.pq.socket.close(); db.pq.socket = None
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    cmds = ['query', 'look', 'fail', 'load', 'load src', 'load rej', 'load refused', 'load op', 'load cancel', 'peer', 'whole', 'whole srv', 'misuse']
    for slots, cs, nwalk, nrand, length in (({1}, cmds, 500, 500, 25), ({1}, cmds + ['load close', 'load kill'], 200, 0, 12), ({1, 2}, cmds, 0, 500, 30)):
        _, _, edges = tlc.run(ctx, 'Copy', {'Slots': slots, 'Cmds': set(cs)}, invariants=['TypeOK'], coverage_required=['open', 'next', 'close', 'drop', 'loadown', 'cmd', 'begin', 'commit', 'rollback'])
        g = walk.Graph(edges, init=[e[0] for e in edges if e[0]['blk'] == 'I' and all(x['phase'] == 'none' for x in e[0]['slots'])])
        ws = []
        if nwalk:
            ws, k = g.cover(ctx.rng, maxlen=length)
            ws += g.random_walks(ctx.rng, max(0, nwalk - len(ws)), length)
        ws += g.random_walks(ctx.rng, nrand * (20 if T else 1), length)
        items = [g.expand(w) for w in ws if w]
        ctx.log('%d walks' % len(items))
        pool.replay(ctx, 'checks.p11', items, {'sock': ctx.pg.sock}, key_prefix='', limit=60)
        data = dict(ctx.data); idx = sorted(data)
        if idx: ctx.sample({'recorded': data[idx[0]]})
        bad = tlc.evaluate(ctx, 'Copy', [data[i] for i in idx], {'Slots': slots, 'Cmds': set()})
        for b, v in sorted(bad.items())[:6]:
            e = data[idx[b]]['events']; n = int(v.split()[1]) - 1
            ctx.violation('copy:%s:%s:%s' % (e[n]['op'], str(e[n].get('r'))[:30], e[n].get('inner', '')), v[:900], {'module': 'checks.p11', 'events': e, 'walk': items[idx[b]], 'verdict': v})
    pool.replay(ctx, 'checks.p11', [[200, 20, 'copy'], [20000, 1000, 'copy'], [1000, 20, 'insert'], [20000, 1000, 'insert']], {'sock': ctx.pg.sock}, func='worker_notices', key_prefix='', limit=60)
