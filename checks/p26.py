"""P26: operations that are cancelled or abandoned (specs/Cancel.tla)."""
TECHNIQUE = 'TLA+ model (Cancel): TLC checks the rules (nothing doubled, nothing kept of a cancelled operation) and enumerates schedules of operations that are cancelled, abandoned at any I/O call or while the server executes them, or spared while another connection is cancelled; they are run on real connections against PostgreSQL and TLC judges every recorded behaviour; the cancel requests themselves are judged byte by byte'
LEVEL_NOTE = 'One connection with one stream, one bystander; operations are held on the server by a lock of the harness, so that cancellation and abandonment hit them at known points; exceptions are raised at each of the first I/O calls of an operation. An exception raised between two instructions of the driver (not in I/O) is not explored.'

SETUP = """
DROP TABLE IF EXISTS lt;
CREATE OR REPLACE FUNCTION gate(hold boolean) RETURNS boolean LANGUAGE plpgsql VOLATILE AS $$
BEGIN
  IF hold THEN
    WHILE EXISTS (SELECT 1 FROM pg_locks l, pg_database d WHERE l.locktype = 'advisory' AND l.objid = 77 AND l.database = d.oid AND d.datname = current_database()) LOOP
      PERFORM pg_sleep(0.002);
    END LOOP;
  END IF;
  RETURN hold;
END $$;
CREATE OR REPLACE FUNCTION gated() RETURNS trigger LANGUAGE plpgsql AS $$ BEGIN PERFORM gate(NEW.id % 3 = 0); RETURN NEW; END $$;
CREATE TABLE lt(n serial, id int);
CREATE TRIGGER now BEFORE INSERT ON lt FOR EACH ROW EXECUTE FUNCTION gated();
CREATE CONSTRAINT TRIGGER later AFTER INSERT ON lt DEFERRABLE INITIALLY DEFERRED FOR EACH ROW EXECUTE FUNCTION gated();
"""
READ = "SELECT g + %s AS id, repeat('x', 60) AS pad, gate(g = %s) AS h FROM generate_series(1, %s) g"

class Left(KeyboardInterrupt): pass

def worker(job):
    import random, select, threading, time
    import postgresql.driver.pq3 as pq3
    import postgresql.exceptions as px
    from . import live
    st = {}; real = pq3.MultiXactStream.chunksize
    name = 'w%d' % job['worker']
    def other(): return live.connect(job['sock'], name, live.Plan())
    def setup():
        st['c'] = c = other(); c.execute("SET client_min_messages TO error"); c.execute(SETUP)
        st['lock'] = c.prepare('SELECT pg_advisory_lock(77)'); st['unlock'] = c.prepare('SELECT pg_advisory_unlock(77)')
        st['waits'] = c.prepare("SELECT count(*) FROM pg_stat_activity WHERE pid = $1::int AND wait_event = 'PgSleep'")
        st['alive'] = c.prepare("SELECT count(*) FROM pg_stat_activity WHERE pid = $1::int")
        st['event'] = c.prepare("SELECT coalesce(wait_event, '') FROM pg_stat_activity WHERE pid = $1::int")
        st['tab'] = c.prepare('SELECT id FROM lt ORDER BY n'); st['clear'] = c.prepare('DELETE FROM lt')
        st['b'] = b = other(); st['bread'] = b.prepare('SELECT gate(true), 7'); st['bpid'] = b.backend_id
        st['plan'] = live.Plan(); st['db'] = live.connect(job['sock'], name, st['plan']); prepared()
    def prepared():
        db = st['db']
        st['pid'] = db.backend_id
        st['ins'] = db.prepare('INSERT INTO lt(id) VALUES ($1::int)')
        st['ret'] = db.prepare('INSERT INTO lt(id) SELECT g FROM generate_series($1::int, $2::int) g RETURNING id')
        st['read'] = db.prepare(READ % ('$1::int', '$2::int', '$3::int'))
        st['copy'] = db.prepare('COPY lt(id) FROM STDIN')
    def blocked(pid, done):
        "wait until the server holds the operation"
        t = time.monotonic() + 20
        while time.monotonic() < t:
            if st['waits'].first(pid): return True
            if done.is_set(): return False
            time.sleep(.001)
        return False
    def settle():
        "wait until the server has read everything and waits for the client"
        import array, fcntl, termios
        t = time.monotonic() + 10
        while time.monotonic() < t:
            n = array.array('i', [0]); sh = st['db'].pq.socket
            if sh.closed: return
            fcntl.ioctl(sh.real.fileno(), termios.TIOCOUTQ, n)
            e = st['event'].first(st['pid'])
            if e is None or e == 'ClientWrite' or (e == 'ClientRead' and n[0] == 0): return
            time.sleep(.001)
        raise RuntimeError('the server does not settle')
    def run(walk):
        if 'db' not in st: setup()
        rng = random.Random(str(len(walk['steps'])) + repr(walk['steps'][-3:]))
        pq3.MultiXactStream.chunksize = rng.choice([real, 3, 3])
        ev = []; cur = {'it': None}; num = [0]; plan = st['plan']
        def disturbed(d, f, op, **kw):
            "run f under the disturbance d and record the outcome"
            db = st['db']; out = {}; hit = {'cut': False, 'held': False}
            done = threading.Event(); leave = threading.Event(); ctl = None
            if d == 'cut':
                left = [rng.choice([0, 1, 2, 3, 4, 5, 7, 10] if op not in ('load', 'read') else [0, 1, 2, 3, 5, 8, 13, 20])]
                def tick(x):
                    if left[0] == 0: left[0] = -1; hit['cut'] = True; raise Left()
                    left[0] -= 1
                    return x
                plan.on_send = plan.on_recv = tick
                if rng.random() < .5:
                    # what it sends is taken in pieces
                    left[0] = rng.randrange(12); plan.on_recv = None
                    plan.on_send = lambda x: tick(x)[:rng.choice((1, 2, 5, 17, 60))]
            elif d != 'no':
                settle(); st['lock']()
                def wait(sh):
                    if sh is not db.pq.socket: return
                    while not select.select([sh.real.fileno()], [], [], .002)[0]:
                        if leave.is_set(): leave.clear(); hit['cut'] = True; raise Left()
                if d in ('leave', 'leaveint'): plan.on_fill = wait
                def control():
                    try:
                        if d == 'bystander':
                            oth = {}
                            def by():
                                try: oth['r'] = st['bread'].first(); 
                                except px.Error as e: oth['r'] = e.code
                                except BaseException as e: oth['r'] = repr(e)
                            th = threading.Thread(target=by); th.start()
                            never = threading.Event()
                            blocked(st['bpid'], never)
                            hit['held'] = blocked(st['pid'], done)
                            if rng.random() < .5: st['b'].interrupt()
                            else: st['b'].interrupt(timeout=5)
                            th.join(10)
                            if th.is_alive(): oth['r'] = 'not interrupted'; st['unlock'](); th.join(); st['lock']()
                            out['other'] = str(oth.get('r'))
                            st['unlock']()
                            return
                        hit['held'] = blocked(st['pid'], done)
                        if not hit['held']: return
                        if d == 'cancel':
                            db.interrupt()
                            if not done.wait(10): out['late'] = True
                        else:
                            leave.set()
                            # it may have to wait for the server
                            if not done.wait(.4):
                                out['waits'] = True
                                if d == 'leaveint': db.interrupt()
                                else: st['unlock'](); out['unlocked'] = True
                    except BaseException as e: out['ctl'] = repr(e)
                    finally:
                        if d == 'cancel' and not done.is_set(): st['unlock'](); out['unlocked'] = True
                ctl = threading.Thread(target=control); ctl.start()
            r = None; code = ''; res = 'broken'
            try:
                try: r = f(); res = 'ok'
                except px.Error as e:
                    res = 'error'; code = e.code
                    if code.startswith('08'): import traceback; st['why'] = str(e.message) + repr(e.__cause__) + ''.join(traceback.format_tb(e.__cause__.__traceback__))[-1500:] if e.__cause__ else ''
                except Left: res = 'abandoned'
                except BaseException as e:
                    if type(e).__name__ != 'Hang': raise
                    import sys, traceback
                    raise RuntimeError('HANG %s %r %r %r\n%s' % (d, hit, out, leave.is_set(), ''.join(''.join(traceback.format_stack(x)[-6:]) + '--\n' for x in sys._current_frames().values())))
            finally:
                plan.on_send = plan.on_recv = plan.on_fill = None
                done.set()
                if ctl:
                    ctl.join(60)
                    if ctl.is_alive(): import faulthandler; faulthandler.dump_traceback(all_threads=True); raise RuntimeError('stuck')
                    if res == 'abandoned' and d == 'leaveint' and 'waits' not in out:
                        db.interrupt()
                        settle()
                    if d != 'bystander' and not out.get('unlocked'): st['unlock']()
            if 'ctl' in out: raise RuntimeError('interrupt raised ' + out['ctl'])
            if d == 'cut': dd = 'cut' if hit['cut'] else 'no'
            elif d in ('cancel', 'leave', 'leaveint'): dd = d if hit['held'] else 'no'
            else: dd = d
            if res == 'ok' and hit['cut']: res = 'swallowed'
            if st.get('why'): print(st.pop('why'), file=__import__('sys').stderr)
            e = dict(kw, op=op, r=res, d=dd, code=code, other=out.get('other', ''), blk='')
            if res in ('ok', 'error') and not db.closed and db.pq.xact is None: e['blk'] = db.pq.state.decode()
            ev.append(e)
            return r if res == 'ok' else None
        def ids(m):
            r = [num[0] + i for i in range(1, m + 1)]; num[0] += m
            return r
        def plainly(op, **kw): ev.append(dict(kw, op=op, r='ok', d='no', code='', other='', blk=''))
        try:
            for act, _, _ in walk['steps']:
                op, kind, d = act['op'], act['kind'], act['d']; db = st['db']
                if op == 'write':
                    m = 1 if kind == 'call' else rng.choice([3, 4, 6]); x = ids(m)
                    if kind == 'call':
                        x += ids(0)
                        while d in ('cancel', 'leave', 'leaveint') and x[0] % 3: x = ids(1)
                        f = lambda: st['ins'](x[0])
                    elif kind == 'exec': f = lambda: db.execute('INSERT INTO lt(id) SELECT g FROM generate_series(%d, %d) g' % (x[0], x[-1]))
                    elif kind == 'ret': f = lambda: [t[0] for t in st['ret'](x[0], x[-1])]
                    elif kind == 'first': f = lambda: st['ret'].first(x[0], x[-1])
                    elif kind == 'copy':
                        lines = [b'%d\n' % i for i in x]
                        f = rng.choice([lambda: st['copy'].load_rows(iter(lines), 2), lambda: st['copy'].load_chunks([[l] for l in lines])])
                    r = disturbed(d, f, 'write', ids=x, kind=kind)
                    if kind == 'ret' and r is not None and r != x: ev[-1]['r'] = 'wrong rows returned'
                    if kind == 'first' and r is not None and r != x[0]: ev[-1]['r'] = 'wrong value returned'
                elif op == 'load':
                    m = rng.choice([3, 4, 5, 7]); x = ids(m); size = rng.choice([1, 2, 3, 256]); ch = [x[i:i + size] for i in range(0, m, size)]
                    at = next(i for i, c in enumerate(ch, 1) if any(v % 3 == 0 for v in c))
                    disturbed(d, rng.choice([lambda: st['ins'].load_rows(((v,) for v in x), size), lambda: st['ins'].load_chunks([(v,) for v in c] for c in ch)]), 'load', chunks=ch, at=at, kind='')
                elif op == 'read':
                    n = rng.choice([1, 3, 7, 700, 3000]); g = rng.choice([1, n, (n + 1) // 2]); x = ids(n); base = x[0] - 1
                    sql = READ % (base, g, n)
                    f = {'call': lambda: [t[0] for t in st['read'](base, g, n)],
                        'first': lambda: [st['read'].first(base, g, n)[0]],
                        'query': lambda: [t[0] for t in db.query(sql)],
                        'prepare': lambda: [t['id'] for t in db.prepare(sql)()],
                        'rows': lambda: [t[0] for t in st['read'].rows(base, g, n)],
                        'chunks': lambda: [t[0] for c in st['read'].chunks(base, g, n) for t in c],
                        'copyout': lambda: [int(bytes(t)) for t in db.prepare('COPY (SELECT id FROM (%s) q OFFSET 0) TO STDOUT' % sql)()],
                        'copyrows': lambda: [int(bytes(t)) for t in db.prepare('COPY (SELECT id FROM (%s) q OFFSET 0) TO STDOUT' % sql).rows()]}[kind]
                    r = disturbed(d, f, 'read', **{'from': base, 'n': n, 'kind': kind, 'ids': []})
                    if r is not None:
                        if kind == 'first': ev[-1]['n'] = 1
                        ev[-1]['ids'] = r
                elif op == 'begin' and rng.random() < .5:
                    x = db.xact()
                    disturbed(d, lambda: x.start(), op, kind='')
                    ev[-1]['kind'] = getattr(x, 'type', None) or ''
                elif op in ('begin', 'commit', 'rollback'): disturbed(d, lambda: db.execute(op.upper()), op, kind='')
                elif op == 'fail': disturbed(d, rng.choice([lambda: db.execute('SELECT 1/0'), lambda: db.query('SELECT 1/0'), lambda: db.prepare('SELECT 1/(g-3) FROM generate_series(1, 9) g')()]), 'fail', kind='')
                elif op == 'open':
                    n = rng.choice([1, 3, 4, 7, 12, 700]); g = rng.choice([1, n, (n + 1) // 2]); x = ids(n); base = x[0] - 1
                    f = {'rows': lambda: st['read'].rows(base, g, n), 'chunks': lambda: st['read'].chunks(base, g, n), 'cursor': lambda: st['read'].declare(base, g, n), 'qrows': lambda: db.query.rows(READ % (base, g, n))}[kind]
                    it = disturbed(d, f, 'open', **{'from': base, 'n': n, 'kind': kind, 'ids': []})
                    cur['it'] = it; cur['kind'] = kind
                elif op == 'next':
                    if cur['it'] is None: continue
                    got = []; want = rng.choice([1, 2, 4, 10 ** 6]); kind = cur['kind']
                    def pull():
                        k = 0
                        while k < want:
                            if kind == 'chunks': c = next(cur['it'])
                            elif kind == 'cursor':
                                c = cur['it'].read(min(want, 5))
                                if not c: raise StopIteration
                            else: c = [next(cur['it'])]
                            got.extend(t[0] for t in c); k += len(c)
                    def f():
                        try: pull()
                        except StopIteration: return 'end'
                        return 'some'
                    r = disturbed(d, f, 'next', kind=kind, ids=[])
                    e = ev.pop()
                    if got: ev.append(dict(e, r='rows', ids=got, d=e['d'] if e['r'] == 'ok' and e['d'] in ('cancel', 'leaveint') else 'no', code='', other='', blk=''))
                    if r == 'end': ev.append(dict(e, r='end', d='no', other=''))
                    elif e['r'] != 'ok': ev.append(e)
                    if d == 'bystander' and e['other'] != '57014': ev.append(dict(e, r='other was not interrupted'))
                elif op == 'drop':
                    if cur['it'] is not None: cur['it'] = None; plainly('drop')
                elif op == 'interrupt':
                    settle(); db.interrupt(); plainly('interrupt')
                elif op == 'reconnect':
                    cur['it'] = None; pid = st['pid']; plan.on_send = plan.on_recv = plan.on_fill = None
                    db.close()
                    if rng.random() < .5:
                        try: db.interrupt()
                        except (px.Error, AttributeError, OSError): pass
                    t = time.monotonic() + 10
                    while st['alive'].first(pid) and time.monotonic() < t: time.sleep(.001)
                    st['db'] = live.connect(job['sock'], name, plan); prepared(); plainly('reconnect')
                if st['db'].closed: break
            cur['it'] = None
            for _ in range(6):
                db = st['db']
                if db.closed or (db.pq.state == b'I' and db.pq.xact is None): break
                disturbed('no', lambda: db.execute('ROLLBACK'), 'rollback', kind='')
            settle()
            plainly('table', ids=[r[0] for r in st['tab']()])
            left = [s for s in plan.socks[1:] if not s.closed and s is not st['db'].pq.socket]
            if left: return {'fail': {'key': 'sockets', 'msg': '%d sockets are left open after %r' % (len(left), ev)}}
        except BaseException:
            st.clear(); raise
        finally:
            cur['it'] = None; plan.on_send = plan.on_recv = plan.on_fill = None
            plan.socks[:] = [s for s in plan.socks if not s.closed]
            db = st.get('db')
            if db and (db.closed or db.pq.state != b'I' or db.pq.xact is not None):
                try: db.close()
                except Exception: pass
                t = time.monotonic() + 10
                while st['alive'].first(st['pid']) and time.monotonic() < t: time.sleep(.001)
                st['plan'] = live.Plan(); st['db'] = live.connect(job['sock'], name, st['plan']); prepared()
            if db: st['clear']()
        return {'steps': len(ev), 'data': {'kind': 'walk', 'events': ev}}
    return run

def wires(job):
    "where the requests go, what they are, and what is left of them"
    import errno, os
    from .p05 import Peer, CONFIGS
    def run(c):
        import postgresql.exceptions as px
        from postgresql.driver import default
        from postgresql.driver.pq3 import Host
        from postgresql.python.socket import SocketFactory
        pid, key = (int.from_bytes(bytes(x), 'big') for x in (c['id'][:4], c['id'][4:]))
        sent = [[] for _ in range(c['hosts'])]; socks = []; timeouts = []; up = []
        class Sock:
            def __init__(self, i):
                self.i = i; self.closed = False; self.data = None; socks.append(self); self.inb = b''; self.peer = None
                if up: self.data = []; sent[i].append(self.data)
                elif i + 1 == c['connected']: self.peer = Peer([('auth', 'ok'), ('params', 'ready'), ('session', 'ok')], dict(CONFIGS[0], pid=pid, key=key))
                else: self.peer = Peer([('auth', 'error')], CONFIGS[0])
            def fileno(self): return 1000 + self.i
            def settimeout(self, t): pass
            def close(self): self.closed = True
            def send(self, d, flags=0):
                if self.closed: raise OSError(errno.EBADF, 'closed')
                d = bytes(d)
                if self.data is None:
                    self.peer.feed(d); self.inb += b''.join(x if isinstance(x, bytes) else b'' for x in self.peer.out); del self.peer.out[:]
                    return len(d)
                if c['how'] == 'broken': raise OSError(errno.EPIPE, 'Broken pipe')
                self.data.extend(d); return len(d)
            def sendall(self, d):
                while d: d = d[self.send(d):]
            def recv(self, n, flags=0):
                if self.data is not None:
                    if c['how'] == 'reset': raise OSError(errno.ECONNRESET, 'reset')
                    if c['how'] == 'left': raise Left()
                    return b'x' if c['how'] == 'talks' else b''
                d, self.inb = self.inb[:n], self.inb[n:]
                return d
        class F(SocketFactory):
            i = 0
            def __call__(self, timeout=None):
                if up:
                    timeouts.append(timeout)
                    if c['how'] == 'refused': raise OSError(errno.ECONNREFUSED, 'refused')
                elif self.i + 1 != c['connected'] and c['dead']: raise OSError(errno.ECONNREFUSED, 'refused')
                return Sock(self.i)
        fs = []
        for i in range(c['hosts']): fs.append(F((), ())); fs[-1].i = i
        class C(Host):
            def socket_factory_sequence(self): return fs
        db = C(host='h', port=1, driver=default, user='joe', sslmode='disable')()
        db.connect(); up.append(1); raised = 0
        for t in c['timeouts']:
            try:
                if t is None: db.interrupt()
                else: db.interrupt(timeout=t)
            except (OSError, px.Error, Left): raised += 1
        works = True
        try: works = db.prepare('SELECT 1').first() == 'on'
        except Exception as e: works = False
        left = len([s for s in socks if not s.closed]) - 1
        return {'steps': 1, 'data': dict(c, kind='wire', sent=sent, left=left, works=works, raised=raised, given=timeouts)}
    return run

def wirecases(T):
    "hosts, the one which is connected, identity of the session, how the requests are received"
    from itertools import product
    cs = []
    for hosts, how, dead in product((1, 2, 3), ('eof', 'reset', 'talks', 'refused', 'broken', 'left'), (False, True)):
        for connected in range(1, hosts + 1):
            for n, i in enumerate(([0, 0, 0, 1, 0, 0, 0, 2], [255] * 8, [0] * 8, [127, 1, 2, 3, 128, 0, 0, 0], [0, 1, 130, 37, 200, 100, 10, 13])):
                cs.append({'hosts': hosts, 'how': how, 'dead': dead, 'connected': connected, 'id': i, 'timeouts': [[None], [5], [None, 3], [None, None, 2]][(n + connected) % 4]})
    return cs

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    W = {'call', 'exec', 'ret', 'first', 'copy'}; R = {'call', 'first', 'query', 'prepare', 'rows', 'chunks', 'copyout', 'copyrows'}; S = {'rows', 'chunks', 'cursor', 'qrows'}
    D = {'no', 'cut', 'cancel', 'leave', 'leaveint', 'bystander'}
    consts = {'Writes': W, 'Reads': R, 'Streams': S, 'Ds': D}
    tlc.run(ctx, 'Cancel', consts, invariants=['Once', 'Safe'], properties=['NothingOf', 'Told', 'Kept'], edges=False, spec='MSpec')
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    _, _, edges = tlc.run(ctx, 'Cancel', consts, invariants=['TypeOK'], coverage_required=['write', 'read', 'load', 'begin', 'commit', 'rollback', 'fail', 'open', 'next', 'drop', 'interrupt', 'reconnect'])
    g = walk.Graph(edges, init=[{'blk': 'I', 'str': 'none', 'loose': False}])
    ws, k = g.cover(ctx.rng, maxlen=25)
    if not T: ctx.rng.shuffle(ws); ws = ws[:250]
    ws += g.random_walks(ctx.rng, 150 if not T else 6000, 20)
    items = [g.expand(w) for w in ws if w]
    ctx.log('%d walks, %d steps' % (len(items), sum(len(i['steps']) for i in items)))
    pool.replay(ctx, 'checks.p26', items, {'sock': ctx.pg.sock}, key_prefix='', limit=90)
    walks = dict(ctx.data); ctx.data.clear()
    wc = wirecases(T)
    pool.replay(ctx, 'checks.p26', wc, {}, func='wires', key_prefix='wire:', limit=30)
    wd = dict(ctx.data); wi = sorted(wd)
    for i in wi:
        for k in ('timeouts', 'given'): wd[i][k] = [-1 if t is None else t for t in wd[i][k]]
    if wi: ctx.sample({'wire': wd[wi[0]]})
    for b, v in sorted(tlc.evaluate(ctx, 'Cancel', [wd[i] for i in wi], consts).items())[:6]:
        e = wd[wi[b]]; ctx.violation('cancel:wire:%s:%s' % (e['how'], v.split(':')[0]), v + ' in ' + repr(e), {'module': 'checks.p26', 'case': e})
    data = walks; idx = sorted(data)
    if idx: ctx.sample({'recorded': data[idx[0]]})
    for i in idx:
        for e in data[i]['events']:
            if e.pop('why', None): ctx.log('%r %s' % (i, 'protocol error'))
    bad = tlc.evaluate(ctx, 'Cancel', [data[i] for i in idx], consts)
    for b, v in sorted(bad.items())[:6]:
        e = data[idx[b]]['events']; n = int(v.split()[1]) - 1
        ctx.violation('cancel:%s:%s:%s:%s:%s' % (e[n]['op'], e[n].get('kind', ''), e[n]['d'], e[n]['r'], e[n]['code']), v[:900], {'module': 'checks.p26', 'events': e, 'walk': items[idx[b]], 'verdict': v})
