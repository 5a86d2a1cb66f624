"""P25: temporary databases (specs/Temporal.tla, specs/TempProcess.tla)."""
TECHNIQUE = 'TLA+ models of nested temporary contexts in a process (Temporal: connections, sandbox schemas, builtins, abrupt ends) and of the temporary clusters of processes and their children (TempProcess); TLC enumerates the histories and checks isolation and that nothing is left; the transitions of the first are all replayed on the real code against a real server whose sessions and schemas are counted, histories of the second are run as real processes whose directories and servers are looked for'
LEVEL_NOTE = 'Contexts up to 2 deep (thorough: 3), 1 (2) extra connections, connections left idle, in open and failed transactions, with unread results, closed and terminated; every entry that fails; ends by return, error and interrupt. What contexts left by an interrupt leave on the server until the process ends is not examined. Process histories: 1 instance, sampled (two in the thorough tier). Threads are not modelled: the builtins are of the process.'
KEYS = ('db', 'prepare', 'xact', 'sqlexec', 'do', 'settings', 'proc', 'connector')
INTERRUPTS = (KeyboardInterrupt, SystemExit, GeneratorExit)

class Bad(Exception): pass

def worker(job):
    import os, sys, time, random, builtins, warnings, gc
    warnings.simplefilter('ignore')
    from postgresql.temporal import Temporal, pg_tmp
    from . import live
    import postgresql.exceptions as E
    dbn = 'w%d' % job['worker']
    mon = live.connect(job['sock'], dbn, live.Plan())
    loc = 'pq://%%s@[unix:%s]/%%s' % job['sock'].replace('/', ':')
    mon.execute('CREATE TABLE IF NOT EXISTS public.pub(i int)')
    count = mon.prepare("SELECT (SELECT count(*) FROM pg_stat_activity WHERE datname = current_database() AND backend_type = 'client backend' AND pid <> pg_backend_pid())::int, (SELECT count(*) FROM pg_namespace WHERE nspname LIKE 'sandbox%')::int")
    def clean():
        mon.prepare("SELECT count(pg_terminate_backend(pid)) FROM pg_stat_activity WHERE datname = current_database() AND backend_type = 'client backend' AND pid <> pg_backend_pid()").first()
        for i in range(500):
            if count.first()[0] == 0: break
            time.sleep(0.01)
        for (n,) in mon.prepare("SELECT nspname::text FROM pg_namespace WHERE nspname LIKE 'sandbox%'"): mon.execute('DROP SCHEMA "%s" CASCADE' % n)
    def dropnames():
        for k in KEYS + ('new', 'newdb'): builtins.__dict__.pop(k, None)
    def run(item):
        rng = random.Random('%s/%s' % (job['seed'], item['seed']))
        tmp = [pg_tmp if rng.random() < 0.5 else Temporal()]
        if rng.random() < 0.3: tmp.append(Temporal())
        os.environ['PGTEST'] = loc % ('test', dbn)
        dropnames(); clean()
        ctxs = []   # [temporal, db, news, schema]
        n = 0; keep = []
        try:
            for act, obs, s2 in item['steps']:
                try: step(act, obs, s2, tmp, ctxs, rng, keep)
                except Bad as e: return {'fail': {'key': '%s:%s' % (act['op'], str(e).split(':')[0]), 'msg': 'step %d %r of %r\nexpected %r\n%s' % (n, act, [x[0] for x in item['steps'][:n]], obs, e)}}
                n += 1
            return {'steps': n}
        finally:
            for t in tmp: t.builtins_stack.clear()
            dropnames(); keep.clear(); ctxs.clear()
    def mine(c, names=KEYS, idle=True):
        "the builtins are those of the context's connection"
        b = builtins.__dict__
        for k in KEYS + ('new',):
            if k not in b: raise Bad('builtins: %s is not defined' % k)
        if 'db' in names and b['db'] is not c[1]: raise Bad('builtins: db is %r' % (b['db'],))
        if idle:
            pid = c[1].backend_id
            if b['prepare']('SELECT pg_backend_pid()').first() != pid: raise Bad('builtins: prepare is of another connection')
            if b['proc']('pg_backend_pid()')() != pid: raise Bad('builtins: proc is of another connection')
            if b['sqlexec']("SET vp.x = 'a'") is not None or c[1].prepare("SELECT current_setting('vp.x')").first() != 'a': raise Bad('builtins: sqlexec is of another connection')
            if b['settings']['search_path'] != c[1].prepare('SHOW search_path').first(): raise Bad('builtins: settings is of another connection')
            b['do']('plpgsql', "BEGIN SET vp.x = 'b'; END")
            if c[1].prepare("SELECT current_setting('vp.x')").first() != 'b': raise Bad('builtins: do is of another connection')
            with b['xact']():
                if c[1].state != 'transaction' and c[1].prepare("SELECT now() = statement_timestamp()").first() is None: raise Bad('builtins: xact')
        if b['connector'] is not c[1].connector: raise Bad('builtins: connector is of another connection')
    def enter(t):
        r = t.__enter__()
        c = [t, builtins.db, []]
        c.append(c[1].prepare('SELECT current_schema()::text').first())
        if not c[3] or not c[3].startswith('sandbox'): raise Bad('schema: %r' % (c[3],))
        return c
    def exc(how, rng):
        if how == 'none': return (None, None, None)
        e = (rng.choice([ValueError, E.Error]) if how == 'error' else rng.choice(INTERRUPTS))('left')
        return (type(e), e, None)
    def step(act, obs, s2, tmp, ctxs, rng, keep):
        op = act['op']
        if op == 'enter':
            t = rng.choice(tmp) if not ctxs else ctxs[-1][0]
            if len(tmp) > 1 and rng.random() < 0.2 and False: t = tmp[1]
            before = [c[1] for c in ctxs]
            try: c = enter(t)
            except E.Error as e: raise Bad('refused: %r' % (e,))
            if any(c[1] is x for x in before): raise Bad('connection: not the context\'s own')
            if any(c[3] == x[3] for x in ctxs): raise Bad('schema: not the context\'s own')
            ctxs.append(c)
        elif op == 'enterfails':
            os.environ['PGTEST'] = (loc % ('test', dbn)).replace('[unix:', '[unix::nowhere') if act['how'] == 'unreachable' else loc % ('powerless', dbn)
            t = rng.choice(tmp) if not ctxs else ctxs[-1][0]
            try: t.__enter__()
            except E.Error as e:
                if act['how'] == 'denied' and not isinstance(e, E.InsufficientPrivilegeError): raise Bad('error: %r' % (e,))
                e.__traceback__ = None; e.creator = None; del e
            else: raise Bad('entered: despite the failure')
            finally: os.environ['PGTEST'] = loc % ('test', dbn)
        elif op == 'call':
            t = rng.choice(tmp) if not ctxs else ctxs[-1][0]
            x = exc({'return': 'none'}.get(act['how'], act['how']), rng)
            seen = []
            def f(*a, **k):
                if not a and not k: return
                c = [t, builtins.db, [], None]
                if any(c[1] is y[1] for y in ctxs): raise Bad('connection: not the call\'s own')
                mine(c); c[1].execute('CREATE TABLE t(i int)'); builtins.new().execute('INSERT INTO t VALUES (1)')
                seen.append((a, k))
                if x[1]: raise x[1]
                return 'result'
            g = t(f)
            if getattr(g, '__name__', None) != 'f': raise Bad('name: %r' % (getattr(g, '__name__', None),))
            try: r = g(1, k=2)
            except BaseException as e:
                if e is not x[1]: raise Bad('raised: %r' % (e,))
                e.__traceback__ = None
            else:
                if x[1]: raise Bad('swallowed: %r' % (x[1],))
                if r != 'result': raise Bad('result: %r' % (r,))
            if seen != [((1,), {'k': 2})]: raise Bad('called: %r' % (seen,))
        elif op == 'exit':
            c = ctxs.pop(); x = exc(act['how'], rng)
            if act['how'] == 'interrupt': keep.append(c)
            try: r = c[0].__exit__(*x)
            except BaseException as e: raise Bad('raised: %s %r' % (type(e).__name__, e))
            if r: raise Bad('swallowed: %r' % (x[1],))
            if act['how'] != 'interrupt':
                for y in [c[1]] + c[2]:
                    if not y.closed: raise Bad('open: a connection of the context')
        elif op == 'new':
            c = ctxs[-1]; d = builtins.new()
            if d is c[1] or d in c[2] or d.closed: raise Bad('new: not a new connection')
            c[2].append(d)
        elif op == 'closenew': c = ctxs[-1]; c[2].pop(rng.randrange(len(c[2]))).close()
        elif op == 'create': ctxs[act['i'] - 1][1].execute('CREATE TABLE %s(i int)' % act['t'])
        elif op == 'drop': ctxs[act['i'] - 1][1].execute('DROP TABLE ' + act['t'])
        elif op == 'leave':
            db = ctxs[-1][1]; k = act['c']
            if k == 'xact': db.xact().start(); db.execute('CREATE TABLE inside(i int)')
            elif k == 'failed':
                db.xact().start()
                try: db.execute('SELECT 1/0')
                except E.Error as e: e.__traceback__ = None
            elif k == 'cursor': i = iter(db.prepare('SELECT repeat(\'x\', 1000) FROM generate_series(1, 200000)')); next(i); keep.append(i)
            elif k == 'copy': i = db.prepare('COPY (SELECT repeat(\'x\', 1000) FROM generate_series(1, 200000)) TO STDOUT').chunks(); next(i); keep.append(i)
            elif k == 'closed': db.close()
            elif k == 'killed': mon.prepare('SELECT pg_terminate_backend($1)').first(db.backend_id)
        elif op == 'assign': builtins.db = 'assigned'
        elif op == 'user':
            for k in KEYS: builtins.__dict__.pop(k, None)
            builtins.__dict__.pop('new', None)
            if 'db' in act['p']:
                for k in KEYS: builtins.__dict__[k] = 'user ' + k
            if 'new' in act['p']: builtins.new = 'user new'
        # what is seen
        if len(ctxs) != obs['depth']: raise RuntimeError('harness')
        b = builtins.__dict__
        if not ctxs:
            for ks, n in ((KEYS, 'db'), (('new',), 'new')):
                for k in ks:
                    if obs['owner'][n] == 'user':
                        if b.get(k) != 'user ' + k: raise Bad('builtins: %s is %r afterwards' % (k, b.get(k, 'missing')))
                    elif k in b: raise Bad('builtins: %s is still defined' % k)
            if 'newdb' in b: raise Bad('builtins: newdb is still defined')
        else:
            c = ctxs[-1]; idle = s2['stack'][-1]['conn'] == 'idle'
            mine(c, KEYS if obs['owner']['db'] == 'context' else (), idle)
            if obs['owner']['db'] == 'assigned' and b['db'] != 'assigned': raise Bad('builtins: db is %r' % (b['db'],))
        for i, c in enumerate(ctxs):
            for j, y in enumerate([c[1]] + c[2]):
                if j == 0 and s2['stack'][i]['conn'] != 'idle': continue
                try: r = {t for (t,) in y.prepare("SELECT t FROM unnest(ARRAY['t','u','inside','pub']) t WHERE to_regclass(t) IS NOT NULL")}
                except E.Error as e: raise Bad('unusable: connection %d of context %d: %r' % (j, i, e))
                want = set(s2['stack'][i]['tables']) | {'pub'}
                if r != want: raise Bad('isolation: connection %d of context %d sees %r, not %r' % (j, i, sorted(r), sorted(want)))
        end = time.time() + 10
        while True:
            se, sc = count.first()
            if obs['sessions'] <= se <= obs['sessions'] + obs['lost'] * 4 and obs['schemas'] <= sc <= obs['schemas'] + obs['lost']: break
            if time.time() > end: raise Bad('left: %d sessions and %d schemas' % (se, sc) if se > obs['sessions'] or sc > obs['schemas'] else 'lost: %d sessions and %d schemas' % (se, sc))
            time.sleep(0.005)
    return run

PROC = r'''
import sys, os, json, time
sys.path.insert(0, sys.argv[1])
from postgresql.temporal import Temporal, pg_tmp
import builtins
T = {1: pg_tmp}; keep = []; child = None; main = os.getpid()
def say(x): sys.stdout.write(json.dumps(x) + '\n'); sys.stdout.flush()
def use(x):
    with T[x]: return db.prepare('SELECT 1').first()
def handle(c):
    global child
    op = c['op']; x = c.get('x')
    if x is not None and x not in T: T[x] = Temporal()
    if op == 'enter': T[x].__enter__(); assert builtins.db.prepare('SELECT 1').first() == 1
    elif op == 'exit':
        e = {'none': None, 'error': ValueError('e'), 'interrupt': KeyboardInterrupt()}[c['how']]
        T[x].__exit__(type(e) if e else None, e, None)
    elif op == 'linger':
        d = T[x].cluster.connection(user='test', database='test'); d.connect()
        if c['how'] == 'xact': d.xact().start(); d.execute('CREATE TABLE k%d(i int)' % len(keep))
        if c['how'] == 'other': d = [T[x].cluster.address(), d]; d[1].close()
        keep.append(d)
        return d[0] if c['how'] == 'other' else None
    elif op == 'fork':
        r, w = os.pipe(); r2, w2 = os.pipe(); pid = os.fork()
        if not pid:
            f = os.fdopen(r); child = None
            os.close(w)
            for l in f:
                c = json.loads(l)
                if c['op'] == 'childend':
                    if c['how'] == 'exit': sys.exit(0)
                    raise ValueError('child')
                use(c['x']); os.write(w2, b'k')
            os._exit(1)
        os.close(r); os.close(w2); child = (pid, os.fdopen(w, 'w'), r2)
    elif op == 'childuse':
        child[1].write(json.dumps(c) + '\n'); child[1].flush(); assert os.read(child[2], 1) == b'k', 'child failed'
    elif op == 'childend':
        child[1].write(json.dumps(c) + '\n'); child[1].flush(); os.waitpid(child[0], 0); child = None
for line in sys.stdin:
    c = json.loads(line)
    if c['op'] == 'end':
        if c['how'] == 'error': raise ValueError('the end')
        if c['how'] == 'exit': sys.exit(3)
        break
    try: say([True, handle(c)])
    except Exception as e:
        if os.getpid() != main: raise
        say([False, '%s: %.300s' % (type(e).__name__, e)])
'''
def processes(job):
    import os, sys, subprocess, json, shutil, glob, time, signal
    def servers(home):
        r = []
        for d in glob.glob(home + '/pg_tmp_*'):
            try: pid = int(open(d + '/postmaster.pid').readline()); os.kill(pid, 0); r.append(pid)
            except (OSError, ValueError): pass
        return r
    def run(item):
        home = job['scratch'] + '/h%d' % item['seed']; os.mkdir(home)
        env = dict(os.environ, HOME=home, PGINSTALLATION=job['pgconfig'])
        for k in list(env):
            if k.startswith('PG') and k != 'PGINSTALLATION': del env[k]
        err = open(home + '.err', 'w+')
        p = subprocess.Popen([sys.executable, '-c', PROC, job['src']], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env, cwd=home, text=True, start_new_session=True)
        others = []; known = set(); n = 0
        def bad(act, k, m):
            err.seek(0)
            return {'fail': {'key': 'process:%s:%s' % (act['op'], k), 'msg': 'step %d %r of %r\n%s\n%s' % (n, act, [x[0] for x in item['steps'][:n]], m, err.read()[-1500:])}}
        try:
            for act, obs, s2 in item['steps']:
                p.stdin.write(json.dumps(act) + '\n'); p.stdin.flush()
                if act['op'] == 'end':
                    p.stdin.close()
                    try: rc = p.wait(60)
                    except subprocess.TimeoutExpired: return bad(act, 'hang', 'the process does not end')
                    want = {'return': 0, 'error': 1, 'exit': 3}[act['how']]
                    if rc != want: return bad(act, 'status', 'exit status %d instead of %d' % (rc, want))
                else:
                    l = p.stdout.readline()
                    if not l: return bad(act, 'died', 'the process ended')
                    ok, r = json.loads(l)
                    if not ok: return bad(act, 'raised', r)
                    if act['op'] == 'linger' and act['how'] == 'other':
                        others.append(subprocess.Popen([job['psql'], '-h', r[0], '-p', str(r[1]), '-U', 'test', '-d', 'test', '-c', 'SELECT pg_sleep(100)'], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=home))
                        time.sleep(0.1)
                s = servers(home); known |= set(s); d = len(glob.glob(home + '/pg_tmp_*'))
                if len(s) != obs['clusters'] or d != obs['clusters']: return bad(act, 'left' if d > obs['clusters'] else 'clusters', '%d servers and %d directories instead of %d' % (len(s), d, obs['clusters']))
                if act['op'] == 'end':
                    if os.listdir(home): return bad(act, 'left', 'files remain: %r' % os.listdir(home))
                    for pid in known:
                        try: os.kill(pid, 0)
                        except OSError: continue
                        st = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()[0] if os.path.exists('/proc/%d/stat' % pid) else 'gone'
                        if st not in ('Z', 'gone'): return bad(act, 'left', 'the server is still running')
                n += 1
            return {'steps': n}
        finally:
            for o in others: o.kill(); o.wait()
            for pid in known | set(servers(home)):
                try: os.kill(pid, signal.SIGQUIT)
                except OSError: pass
            if p.poll() is None: p.kill(); p.wait()
            err.close()
            for i in range(50):
                shutil.rmtree(home, ignore_errors=True)
                if not os.path.exists(home): break
                time.sleep(0.1)
    return run

def run(ctx):
    import os
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    d = ctx.scratch + '/run'; os.mkdir(d); os.chmod(d, 0o777); os.chmod(ctx.scratch, 0o755)
    _, _, edges = tlc.run(ctx, 'TempProcess', {'Insts': frozenset([1, 2]) if T else frozenset([1]), 'MaxDepth': 2, 'MaxLinger': 2}, invariants=['NothingRemains'], properties=['OnlyEndRemoves'],
        coverage_required=['enter', 'exit', 'linger', 'fork', 'childuse', 'childend', 'end'])
    g = walk.Graph(edges)
    ends = {}
    for i, e in enumerate(g.edges): ends.setdefault(e[0], []).append(i) if e[1]['op'] == 'end' else None
    ws = [w for w in g.random_walks(ctx.rng, 4000, 12) if g.edges[w[-1]][1]['op'] == 'end' and len(w) > 2]
    best, seen = [], set()
    ws.sort(key=lambda w: -len({json_key(g.edges[e]) for e in w}))
    for w in ws:    # each kind of step in each order
        k = {(json_key(g.edges[a]), json_key(g.edges[b])) for a, b in zip(w, w[1:])}
        if not k <= seen: best.append(w); seen |= k
        if len(best) >= (120 if T else 28): break
    items = []
    for i, w in enumerate(best):
        it = g.expand(w); it['seed'] = i; items.append(it)
    ctx.log('%d processes, %d pairs of steps' % (len(items), len(seen)))
    pool.replay(ctx, 'checks.p25', items, {'scratch': d, 'pgconfig': '/opt/pgtest/bin/pg_config', 'psql': '/opt/pgtest/bin/psql'}, func='processes', limit=150, user='pgtest')
    conns = ['idle', 'xact', 'failed', 'cursor', 'copy', 'closed', 'killed']
    ctx.pg = pgserver.Server(ctx); ctx.pg.databases(8)
    ctx.pg.psql('CREATE ROLE powerless LOGIN', 'postgres')
    for depth, new, tables, cs in (((2, 1, ['t'], conns), (3, 2, ['t', 'u'], ['idle', 'xact', 'killed'])) if T else ((2, 1, ['t'], conns),)):
        _, _, edges = tlc.run(ctx, 'Temporal', {'MaxDepth': depth, 'MaxNew': new, 'MaxLost': 1, 'Tables': frozenset(tables), 'Conns': frozenset(cs)}, properties=['Isolated', 'NothingLeft', 'Nested', 'UserKept'],
            coverage_required=['enter', 'enterfails', 'call', 'exit', 'new', 'closenew', 'create', 'drop', 'leave', 'assign', 'user'])
        g = walk.Graph(edges)
        ws, k = g.cover(ctx.rng, maxlen=30)
        n = len(ws)
        cap = 20000 if T else 220
        if n > cap: ctx.rng.shuffle(ws); ws = ws[:cap]
        ws += g.random_walks(ctx.rng, 4000 if T else 60, 25)
        items = []
        for i, w in enumerate(ws):
            if w: it = g.expand(w); it['seed'] = i; items.append(it)
        ctx.log('%d transitions, %d of %d walks' % (len(edges), len(items), n))
        pool.replay(ctx, 'checks.p25', items, {'sock': ctx.pg.sock}, limit=90, user='pgtest')

def json_key(e):
    a = e[1]; return (a['op'], a.get('x'), a.get('how'))
