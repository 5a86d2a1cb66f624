"""P14: advisory locks (specs/Locks.tla)."""
TECHNIQUE = 'TLA+ model (Locks) of lock objects of two sessions and the lock table of the server, including who waits for whom; TLC checks that the table holds exactly the locks of the acquired objects, that conflicting locks exclude each other and that a failed attempt leaves nothing; its histories are replayed on real lock objects against PostgreSQL, comparing results, locked() and pg_locks after every step'
LEVEL_NOTE = 'Two sessions, three to four objects over two or three identifiers (pairs and bigints, with equal and extreme values, repeated in an object), share and exclusive, nesting up to 2 (thorough: 3), transactions that end or fail, closed connections, one blocked acquisition at a time and its interruption. All transitions, plus random walks.'

IDS = [(0, 5), 5, (-2**31, 2**31 - 1), -2**63, (7, 0), 7 << 32, (2, 1), (1, 2), -1, (-1, -1), 2**63 - 1]

def oid(x):
    if isinstance(x, tuple): return (x[0] & 0xffffffff, x[1] & 0xffffffff, 2)
    return ((x >> 32) & 0xffffffff, x & 0xffffffff, 1)

def worker(job):
    import random, threading, time
    import postgresql.exceptions as px
    from postgresql import alock
    from . import live
    st = {}
    cfg = job['cfg']; n = job['nids']
    CODE = {'infailed': '25P02', 'closed': ('08003', '08006', '57P01')}
    def connect(): return live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
    def table():
        t = {}
        for pid, c, o, sub, mode, granted in st['locks']():
            t.setdefault(pid, set()).add((int(c), int(o), sub, {'ShareLock': 1, 'ExclusiveLock': 2}.get(mode, mode), granted))
        return t
    def run(walk):
        if 'm' not in st:
            st['m'] = connect()
            st['locks'] = st['m'].prepare("SELECT pid, classid::bigint, objid::bigint, objsubid::int, mode, granted FROM pg_locks WHERE locktype = 'advisory' AND database = (SELECT oid FROM pg_database WHERE datname = current_database())")
            st['s'] = [None, None]
        for i in (0, 1):
            if st['s'][i] is None or st['s'][i].closed:
                st['s'][i] = connect()
        sess = list(st['s']); pids = [s.backend_id for s in sess]
        rng = random.Random(str(len(walk['steps'])) + repr(walk['steps'][-1]) + str(job['seed']))
        names = [(0, 5), 5] + rng.sample(IDS[2:], n) if rng.random() < .5 else rng.sample(IDS, n)
        names = names[:n]; rng.shuffle(names)
        L = [(alock.ShareLock if o['m'] == 1 else alock.ExclusiveLock)(sess[o['s'] - 1], *[names[i - 1] for i in o['ids']]) for o in cfg]
        done = []; thread = None; box = {}
        def fail(key, msg): return {'fail': {'key': key, 'msg': '%s with %s after %s: %s' % (cfg, names, done, msg)}}
        clean = False
        try:
            for act, obs, s2 in walk['steps']:
                op = act['op']; o = act.get('o'); l = L[o - 1] if o else None
                s = sess[act['s'] - 1] if 's' in act else None
                done.append(op + str(o or act.get('s', '')))
                want = obs['r']; got = 'ok'; exc = None; k0 = walk['init']
                nested = o and op == 'rel'
                try:
                    if op == 'acq' and want == 'waits':
                        def blocked(l=l, box=box):
                            try: box['r'] = l.acquire()
                            except BaseException as e: box['r'] = e
                        box.clear(); thread = threading.Thread(target=blocked, daemon=True); thread.start(); got = 'waits'
                    elif op == 'acq':
                        # what should be granted is never waited for
                        def granted(l=l, how=rng.randrange(3), box2={}):
                            try: box2['r'] = (l.acquire() if how == 0 else l.acquire(blocking=True) if how == 1 else (l.__enter__() is l))
                            except BaseException as e: box2['r'] = e
                            return box2
                        b2 = {}
                        t = threading.Thread(target=granted, kwargs={'box2': b2}, daemon=True); t.start(); t.join(10)
                        if t.is_alive(): return fail('acq:blocked', 'the acquisition waits, the locks are %r' % (table(),))
                        r = b2['r']
                        if isinstance(r, BaseException): raise r
                        if r is not True: return fail('acq:value', repr(r))
                    elif op == 'try':
                        r = l.acquire(False) if rng.random() < .5 else l.acquire(blocking=False)
                        got = {True: 'ok', False: 'busy'}.get(r, repr(r))
                    elif op == 'rel':
                        if rng.random() < .5: l.release()
                        else: l.__exit__(None, None, None)
                    elif op == 'begin': s.execute('BEGIN')
                    elif op == 'fail':
                        try: s.execute('SELECT 1/0')
                        except px.Error: pass
                    elif op == 'end': s.execute(rng.choice(['COMMIT', 'ROLLBACK']))
                    elif op == 'close': s.close()
                    elif op == 'interrupt':
                        if rng.random() < .5: l.database.interrupt()
                        else: st['m'].query('SELECT pg_cancel_backend($1::int)', l.database.backend_id)
                        thread.join(10)
                        if thread.is_alive(): return fail('interrupt:blocked', 'the acquisition was interrupted and still waits')
                        thread = None
                        if isinstance(box['r'], px.QueryCanceledError): got = 'interrupted'
                        else: got = repr(box['r'])
                except px.Error as e: got = e.code; exc = e
                except RuntimeError as e: got = 'unheld' if op == 'rel' else repr(e)
                except Exception as e: return fail(op + ':unrelated', repr(e)[:300])
                exp = CODE.get(want, want)
                if (got != exp) if isinstance(exp, str) else (got not in exp):
                    return fail('%s:outcome:%s' % (op, want), 'expected %s, got %s %s' % (want, got, str(exc)[:200]))
                if obs['woke']:
                    thread.join(10)
                    if thread.is_alive(): return fail('woken', 'the waiting acquisition should have succeeded, the locks are %r' % (table(),))
                    thread = None
                    if box['r'] is not True: return fail('woken:value', repr(box['r']))
                exp = {}
                for si in (0, 1):
                    e = set()
                    for i in range(n):
                        for m in (0, 1):
                            if s2['held'][si][i][m]: e.add(oid(names[i]) + (m + 1, True))
                    w = s2['wait']
                    if w and cfg[w - 1]['s'] == si + 1: e.add(oid(names[cfg[w - 1]['ids'][s2['got']] - 1]) + (cfg[w - 1]['m'], False))
                    if e: exp[pids[si]] = e
                end = time.time() + 5
                settled = op in ('begin', 'fail', 'end', 'try') # nothing that takes time
                while True:
                    have = table()
                    if have == exp or settled or time.time() > end: break
                    if op == 'interrupt' and time.time() > end - 4.5: break
                    time.sleep(.002)
                if have != exp:
                    if op == 'interrupt' and set(have) | set(exp) <= set(pids):
                        me = pids[cfg[o - 1]['s'] - 1]; other = [p for p in pids if p != me][0]
                        left = have.get(me, set()) - exp.get(me, set())
                        prefix = set(oid(names[i - 1]) + (cfg[o - 1]['m'], True) for i in cfg[o - 1]['ids'][:walk['steps'][-2][2]['got']])
                        if have.get(other) == exp.get(other) and not exp.get(me, set()) - have.get(me, set()) and left and left <= prefix and not l.locked():
                            return fail('acquire-error-leaves', 'the interrupted acquisition left %r held while the object is unlocked' % (left,))
                    return fail('table:' + op, 'locks are %r, expected %r' % (have, exp))
                for i, x in enumerate(L):
                    if thread is not None and s2['wait'] == i + 1: continue
                    want = s2['cnt'][i] > 0 and s2['tx'][cfg[i]['s'] - 1] != 'closed'
                    if x.locked() is not want: return fail('locked:' + op, 'object %d says locked() is %r' % (i + 1, x.locked()))
                    if x.state != ('locked' if want else 'unlocked'): return fail('state:' + op, 'object %d is %r' % (i + 1, x.state))
                last = s2
            # whatever is released as often as it was acquired leaves nothing
            if not last['wait'] and not last['done']:
                for s in sess:
                    if not s.closed: s.execute('ABORT')
                for i, x in enumerate(L):
                    for _ in range(last['cnt'][i]): x.release()
                    if x.locked(): return fail('locked:end', 'object %d is still locked' % (i + 1,))
                end = time.time() + 5
                while table() and time.time() < end: time.sleep(.002)
                if table(): return fail('table:end', 'after releasing all %r remain' % (table(),))
                clean = True
            return {'steps': len(done)}
        finally:
            if not clean:
                for s in sess:
                    if thread is not None and not s.closed:
                        st['m'].query('SELECT pg_terminate_backend($1::int, 5000)', s.backend_id)
                if thread is not None: thread.join(5)
                for s in sess:
                    try: s.close()
                    except Exception: pass
                end = time.time() + 5
                while table() and time.time() < end: time.sleep(.005)
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error', 'deadlock_timeout=1min', 'max_connections=60']); ctx.pg.databases(8)
    def ob(s, m, *ids): return {'s': s, 'm': m, 'ids': list(ids)}
    S, X = 1, 2
    base = ['acq', 'try', 'rel']
    invs = ['Exact', 'Exclusive', 'ClosedHasNone']; props = ['AllOrNothing', 'NestedOnlyCount', 'Refused', 'NotByTransactions']
    M = 3 if T else 2
    for cfg, nids, cnt, extras, cap, nrand in (
            ([ob(1, X, 1, 2), ob(1, S, 2), ob(2, X, 2, 1)], 2, 2, {'close'}, 900, 150),
            ([ob(1, S, 1, 2), ob(1, X, 2, 2, 1), ob(2, S, 1, 3)], 3, 2, {'tx'}, 500, 150),
            ([ob(1, X, 1), ob(2, S, 1, 2), ob(2, X, 2, 1), ob(1, S, 2, 1)], 2, M, set(), 500, 150),
            ([ob(1, X, 1, 2, 1), ob(2, X, 3, 1, 2), ob(2, S, 2)], 3, 3, {'close', 'tx'}, 500, 200)):
        _, _, edges = tlc.run(ctx, 'Locks', {'Objs': cfg, 'NIds': nids, 'MaxCnt': cnt, 'Extras': extras}, invariants=invs, properties=props,
            coverage_required=base + [x for e in extras for x in {'close': ['close'], 'tx': ['begin', 'fail', 'end']}[e]])
        g = walk.Graph(edges)
        ws, k = g.cover(ctx.rng, maxlen=25)
        cap *= 20 if T else 1
        if len(ws) > cap: ctx.rng.shuffle(ws); ws = ws[:cap]
        ws += g.random_walks(ctx.rng, nrand * (10 if T else 1), 20)
        items = [g.expand(w) for w in ws if w]
        ctx.log('%d transitions, %d walks' % (len(edges), len(items)))
        pool.replay(ctx, 'checks.p14', items, {'sock': ctx.pg.sock, 'cfg': cfg, 'nids': nids}, key_prefix='', limit=60)
    # an acquisition which is interrupted while it waits
    cfg = [ob(1, X, 1, 2), ob(1, S, 1), ob(2, X, 2)]
    _, _, edges = tlc.run(ctx, 'Locks', {'Objs': cfg, 'NIds': 2, 'MaxCnt': 2, 'Extras': {'interrupt', 'tx'}}, invariants=invs, properties=props, coverage_required=['interrupt'])
    g = walk.Graph(edges)
    ws, k = g.cover(ctx.rng, maxlen=25)
    items = [x for x in (g.expand(w) for w in ws if w) if x['steps'][-1][0]['op'] == 'interrupt']
    ctx.rng.shuffle(items)
    pool.replay(ctx, 'checks.p14', items[:400 if T else 48], {'sock': ctx.pg.sock, 'cfg': cfg, 'nids': 2}, key_prefix='', limit=60, maxfail=1000)
