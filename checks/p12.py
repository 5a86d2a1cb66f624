"""P12: managed copies (specs/CopyMan.tla)."""
import os, random, socket, struct
TECHNIQUE = 'TLA+ model (CopyMan): TLC generates schedules of fragmentations, receiver and producer faults, reconciliations and ways of leaving; they are run on the real CopyManager between real connections and TLC judges every recorded behaviour against the model'
LEVEL_NOTE = 'Every transition of the schedule model (1 receiver: 4 cycles; 2 receivers: 2, thorough 3) plus random schedules; statement and iterator producers, statement and callable receivers, PostgreSQL 16 on both ends, reads of 1, 4, 7, 60 and any number of bytes.'
ROWS = ['1', '', 'abcdefghijklmnopqrst', 'x' * 300, '22', '']
LINES = [r.encode() + b'\n' for r in ROWS]
WIRE = [b'd' + struct.pack('!L', 4 + len(x)) + x for x in LINES]
SRC = "COPY (SELECT v FROM (VALUES %s) AS t(i, v) ORDER BY i) TO STDOUT" % ', '.join("(%d, '%s')" % x for x in enumerate(ROWS))
BADSRC = "COPY (SELECT CASE WHEN i = %d THEN (i / (i - %d))::text ELSE v END FROM (VALUES %s) AS t(i, v)) TO STDOUT" % (len(ROWS), len(ROWS), ', '.join("(%d, '%s')" % x for x in enumerate(ROWS + ['z'])))
class Broken(Exception): pass

def notice(k):
    from .p05 import msg
    return [msg('N', b'SNOTICE\0C00000\0Mmid %d\0\0' % k), msg('A', struct.pack('!L', 4242) + b'chan\0n%d\0' % k)]

def worker(job):
    import postgresql.copyman as cm
    from . import live
    N = job['n']; conns = {}; whys = []
    def connection(i):
        if i not in conns:
            p = live.Plan(); db = live.connect(job['sock'], 'w%d' % job['worker'], p)
            if i: db.execute("CREATE TEMP TABLE dst (v text); CREATE TEMP TABLE dstbad (v text CHECK (length(v) < 100))")
            conns[i] = (db, p)
        return conns[i]
    def usable(i):
        db, p = conns[i]
        try:
            ok = db.prepare("SELECT 42").first() == 42 and [x for x in db.prepare("SELECT g FROM generate_series(1,3) g").rows()] == [(1,), (2,), (3,)] and db.pq.xact is None
        except Exception as x: ok = False; import traceback; whys.append(traceback.format_exc()[-900:])
        return ok
    def parse(b):
        n = 0; t = b''
        while len(b) >= 5:
            n = 1 + struct.unpack('!L', b[1:5])[0]
            if n < 5 or len(b) < n: break
            t += b[:1]; b = b[n:]
        return not b and not set(t) - set(b'dcfQSHPBEDCX')
    def run(walk):
        cfg = walk['init']['cfg']; kinds = cfg['kinds']
        rng = random.Random(repr(walk['steps']))
        src, sp = connection(0)
        cur = {'k': 60, 'fail': None, 'copying': False}
        prod = None; got = [b''] * N; cuts = [-1] * N; raised = set(); recs = []; sent = [b''] * N
        stop_at = [None] * N
        # --- the producer
        if cfg['prod'] == 'iter':
            class It:
                i = 0
                def __iter__(self): return self
                def __next__(self):
                    if cur['fail']:
                        cur['fail'] = None; cur['broke'] = True; raise Broken()
                    if self.i >= len(LINES): raise StopIteration
                    n = {1: 1, 4: 2, 7: 3, 60: 4, 100000: 9}[cur['k']]
                    r = LINES[self.i:self.i + n]; self.i += n
                    return list(r)
            prod = cm.IteratorProducer(It())
        else:
            st = src.prepare(BADSRC if cfg['prod'] == 'bad' else SRC)
            prod = cm.StatementProducer(st, buffer_size=rng.choice((5, 16, 10240)))
            if cfg['async']:
                c0 = sp.count + rng.choice((2, 3)) # among the answers to Bind and Execute, then between rows
                for k in range(3): sp.inject[c0 + rng.randrange(len(ROWS) + 2)] = notice(k)
        def on_recv(n):
            import sys
            if cur['fail'] == 'dead':
                sp.dead = 'reset'; cur['broke'] = True
                raise live.failure('reset')
            if cur['fail'] == 'blip' and cur['into']:
                cur['fail'] = None; cur['broke'] = True
                raise socket.timeout('timed out')
            return min(n, cur['k'])
        sock0 = src.pq.socket
        cur['into'] = False
        real_into = type(sock0).recv_into
        def recv_into(buf, n=0, flags=0):
            cur['into'] = True
            try: return real_into(sock0, buf, n, flags)
            finally: cur['into'] = False
        if cfg['prod'] != 'iter':
            prod.recv_into = recv_into
            sp.on_recv = on_recv
        # --- the receivers
        def sender(r):
            def on_send(data):
                if not cur['copying']:
                    sent[r] += data; return data
                if cuts[r] != -1:
                    if cuts[r] == 0 and data:
                        cuts[r] = -1; raised.add(r + 1)
                        raise socket.timeout('timed out')
                    data = data[:cuts[r]]; cuts[r] -= len(data)
                elif rng.random() < .3: data = data[:rng.choice((1, 5, 50))]
                got[r] += data; sent[r] += data
                return data
            return on_send
        def caller(r):
            def f(lines):
                if cuts[r] != -1:
                    cuts[r] = -1; raised.add(r + 1)
                    raise Broken()
                got[r] += b''.join(b'd' + struct.pack('!L', 4 + len(x)) + bytes(x) for x in lines)
            return f
        for i, k in enumerate(kinds):
            if k == 'stmt':
                db, p = connection(i + 1)
                recs.append(cm.StatementReceiver(db.prepare("COPY %s FROM STDIN" % ('dstbad' if cfg['bad'] == i + 1 else 'dst'))))
                p.on_send = sender(i)
            else: recs.append(cm.CallReceiver(caller(i)))
        D = b''.join(WIRE)
        m = cm.CopyManager(prod, *recs)
        num = {id(r): i + 1 for i, r in enumerate(recs)}
        ev = []
        def common(e):
            e['lens'] = [len(x) for x in got]; e['pre'] = [D.startswith(x) for x in got]
            e['members'] = sorted(num[id(x)] for x in m.receivers)
            e['total'] = (prod.total_bytes if cfg['prod'] != 'iter' else prod.total_bytes + 5 * prod.total_messages)
            e['raised'] = sorted(raised); raised.clear()
            ev.append(e); return e
        def cycle(k, f=None):
            cur['k'] = k; cur['broke'] = False
            if f: cuts[:] = f
            b0, n0 = prod.total_bytes, prod.total_messages
            e = {'op': 'cycle'}
            try:
                n, b = next(m)
                if cfg['prod'] == 'iter': b += 5 * n
                e.update(r='ok', n=n, b=b)
            except StopIteration: e['r'] = 'stop'
            except cm.ReceiverFault as x:
                e.update(r='fault', faults=sorted(num[id(y)] for y in x.faults), same=x.manager is m and all(isinstance(v, (Broken, socket.timeout)) for v in x.faults.values()))
            except cm.ProducerFault as x:
                e.update(r='prodfault', broken=cur['broke'], why=repr(x.__context__)[:200])
                if x.manager is not m: e['r'] = 'other'
                cur['exc'] = x
            common(e); cuts[:] = [-1] * N
            return e['r']
        class Body(Exception): pass
        dead = False; body = False
        last = walk['steps'][-1][0]['op']
        if last not in ('finish', 'break', 'raise', 'kill', 'run'): walk['steps'].append([{'op': rng.choice(('finish', 'break', 'raise')), 'k': 60}, {}, {}])
        cur['copying'] = False; entered = False; why = []
        try:
            if last == 'run':
                cur['k'] = walk['steps'][-1][0]['k']
                class P2(type(prod)): # data flows from the first read to the end
                    def __next__(self):
                        cur['copying'] = True
                        try: return super().__next__()
                        except BaseException:
                            cur['copying'] = False; raise
                prod.__class__ = P2; entered = cfg['prod'] != 'bad'
                try: m.run()
                finally: cur['copying'] = False
            else:
                with m:
                    entered = True
                    cur['copying'] = True
                    try:
                        for act, obs, s2 in walk['steps']:
                            op = act['op']
                            if op == 'cycle':
                                r = cycle(act['k'], act['f'])
                                if r == 'prodfault': raise cur['exc']
                                if r == 'stop': break
                            elif op == 'reconcile':
                                if recs[act['c'] - 1] in m.receivers or num[id(recs[act['c'] - 1])] not in [x for e in ev[-3:] for x in e.get('faults', ())]: continue
                                if kinds[act['c'] - 1] == 'call' and recs[act['c'] - 1].lines is None: pass
                                cuts[act['c'] - 1] = act['j']; e = {'op': op, 'c': act['c']}
                                try: m.reconcile(recs[act['c'] - 1]); e['r'] = 'ok'
                                except (Broken, socket.timeout): e['r'] = 'again'
                                cuts[:] = [-1] * N
                                common(e)
                            elif op == 'prodfault':
                                cur['fail'] = 'blip'; r = cycle(cur['k'], None); cur['fail'] = None
                                if r == 'prodfault' and not cur['broke']: raise cur['exc']
                                if r == 'stop': break
                            elif op == 'break': break
                            elif op == 'raise': raise Body()
                            else:
                                if op == 'kill': cur['fail'] = 'dead'
                                n = 0
                                while True:
                                    r = cycle(act['k'])
                                    if r == 'prodfault': raise cur['exc']
                                    if r != 'ok': break
                                    n += 1
                                    if n > 2000: return {'fail': {'key': 'endless', 'msg': 'the iteration does not end'}}
                                cur['fail'] = None
                    except BaseException: body = True; raise
                    finally: cur['copying'] = False
            res = 'ok'; rf = []
        except cm.CopyFail as x:
            res = 'copyfail'; rf = sorted(num[id(y)] for y in x.receiver_faults)
            if x.manager is not m: res = 'copyfail with another manager'
        except Exception as x:
            res = type(x).__name__ if entered or cfg['prod'] != 'bad' else 'refused'; rf = []; why.append(repr(x))
        if last == 'run':
            e = {'op': 'cycle', 'r': 'stop'}
            if res == 'ok' or (rf and cfg['prod'] != 'bad'):
                # one big cycle
                common({'op': 'cycle', 'r': 'ok', 'n': len(WIRE), 'b': len(D)}); common(e)
            else: body = True
        mem = {num[id(x)] for x in m.receivers}
        e = {'op': 'exit', 'r': res, 'rf': rf, 'raised': body, 'usable': [], 'aligned': [], 'rows': [], 'async': True}
        for i in range(N):
            if kinds[i] != 'stmt' or i + 1 not in mem:
                e['usable'].append(True); e['aligned'].append(True); e['rows'].append('full' if kinds[i] != 'stmt' and got[i] == D else 'partial')
                if i + 1 in conns and i + 1 not in mem:
                    conns[i + 1][1].on_send = None
                    conns[i + 1][0].pq.socket.close(); del conns[i + 1]
                continue
            db, p = conns[i + 1]; p.on_send = None
            e['aligned'].append(parse(sent[i])); ok = usable(i + 1)
            e['usable'].append(ok)
            if ok:
                t = 'dstbad' if cfg['bad'] == i + 1 else 'dst'
                rows = [x[0] for x in db.prepare('SELECT v FROM %s' % t)()]
                e['rows'].append('full' if rows == ROWS else 'empty' if not rows else 'partial')
                if rows: db.execute('DELETE FROM ' + t)
            else:
                e['rows'].append('?'); db.pq.socket.close(); del conns[i + 1]
        sp.on_recv = None
        if sp.dead: e['usable'].append(True); del conns[0]
        else:
            ok = usable(0); e['usable'].append(ok)
            if cfg['async']:
                inj = 3 - 0
                left = {k: v for k, v in sp.inject.items()}; sp.inject.clear()
                ns = [] if not ok else [x[1] for x in src.iternotifies(0)]
                e['async'] = not ok or len(ns) == len(set(ns))
            if not ok: del conns[0]
        e['why'] = why + whys; del whys[:]
        ev.append(e)
        return {'steps': len(ev), 'data': {'sizes': [len(x) for x in WIRE], 'kinds': kinds, 'bad': [cfg['bad']] if cfg['bad'] else [], 'prod': cfg['prod'], 'events': ev}}
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx); ctx.pg.databases(8)
    for n, cyc, nrand, length in ((1, 4, 600, 8), (2, 2, 1200, 6)) if not T else ((1, 6, 6000, 14), (2, 3, 30000, 10)):
        _, _, edges = tlc.run(ctx, 'CopyMan', {'N': n, 'MaxCyc': cyc}, invariants=['TypeOK'], coverage_required=['cycle', 'reconcile', 'prodfault', 'finish', 'break', 'raise', 'kill', 'run'])
        g = walk.Graph(edges, init=[e[0] for e in edges if e[0]['cyc'] == 0 and e[0]['phase'] == 'run' and e[0]['mem'] == list(range(1, n + 1)) and not e[0]['pend']])
        ws, k = g.cover(ctx.rng, maxlen=length)
        ctx.log('%d walks cover the schedule' % len(ws))
        if not T and len(ws) > 2500: ctx.rng.shuffle(ws); ws = ws[:2500]
        ws += g.random_walks(ctx.rng, nrand, length)
        items = [g.expand(w) for w in ws if w]
        pool.replay(ctx, 'checks.p12', items, {'n': n, 'sock': ctx.pg.sock}, key_prefix='', limit=60)
        data = dict(ctx.data); idx = sorted(data)
        if idx: ctx.sample({'recorded': data[idx[0]]})
        bad = tlc.evaluate(ctx, 'CopyMan', [data[i] for i in idx], {'N': n, 'MaxCyc': 0})
        seen = set()
        for b, v in sorted(bad.items()):
            d = data[idx[b]]; e = d['events'][int(v.split()[1]) - 1]
            key = '%s%d:%s:%s:%s' % (d['prod'], n, '+'.join(d['kinds']), e['op'], e['r'])
            if key in seen or len(seen) > 12: continue
            seen.add(key)
            ctx.violation(key, '%s in %s' % (v[:900], items[idx[b]]['init']['cfg']), {'module': 'checks.p12', 'events': d, 'walk': items[idx[b]]})
