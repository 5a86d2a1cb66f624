"""P13: notification delivery (specs/Notify.tla, Channels.tla)."""
import errno, os, random, socket, struct
TECHNIQUE = 'TLA+ model (Notify): TLC generates schedules of arrivals, operations, failures, set changes and polls, which are run on the real managers; every recorded behaviour is then judged by TLC against the model. Channel names and payloads (enumerated) are checked against a real server'
LEVEL_NOTE = 'All transitions of the schedule model for 1-2 connections (thorough: 3) plus random schedules; real select() over socket pairs; idle intervals of 5-20 ms. The server side of the sockets is the harness; quoting is checked against PostgreSQL 16.'
from .p05 import Peer, CONFIGS, msg

class Pair:
    "a socket whose other end is the scripted server"
    def __init__(self):
        self.c, self.s = socket.socketpair()
        self.c.settimeout(5)
        self.peer = Peer([('auth', 'ok'), ('params', 'ready'), ('session', 'ok')], CONFIGS[0])
        self.before = []; self.after = []; self.broken = self.closed = False; self.eof = False
        self.buf = b''; self.queries = []
    def fileno(self): return self.c.fileno()
    def settimeout(self, t): pass
    def close(self):
        self.closed = True; self.c.close(); self.s.close()
    def recv(self, n, flags=0): return self.c.recv(n)
    def send(self, data, flags=0):
        if self.broken: raise OSError(errno.EPIPE, 'Broken pipe')
        data = bytes(data)
        if self.eof: return len(data) # the kernel takes it, nobody answers
        if self.peer.state != 'session':
            self.peer.feed(data)
        else:
            self.buf += data
            while len(self.buf) >= 5:
                n = 1 + struct.unpack('!L', self.buf[1:5])[0]
                if len(self.buf) < n: break
                m, self.buf = self.buf[:n], self.buf[n:]
                if m[:1] == b'Q':
                    self.queries.append(m[5:-1])
                    b, self.before = self.before, []; a, self.after = self.after, []
                    self.peer.out.append(msg('I') + b''.join(b) + msg('Z', b'I') + b''.join(a))
                else:
                    self.peer.feed(m)
        for x in self.peer.out: self.s.sendall(x)
        del self.peer.out[:]
        return len(data)
    def sendall(self, d):
        while d: d = d[self.send(d):]

def connect():
    from postgresql.driver import default
    from postgresql.driver.pq3 import Host
    from postgresql.python.socket import SocketFactory
    ps = []
    class F(SocketFactory):
        def __call__(self, timeout=None):
            ps.append(Pair()); return ps[-1]
    class C(Host):
        def socket_factory_sequence(self): return [F((), ())]
    db = C(host='h', port=1, driver=default, user='joe', sslmode='disable')()
    db.connect()
    return db, ps[0]

def worker(job):
    from postgresql.notifyman import NotificationManager
    def run(walk):
        N = job['n']; rng = random.Random(repr(walk['steps']))
        cs = [connect() for _ in range(N)]
        num = {id(d): i + 1 for i, (d, p) in enumerate(cs)}
        sent = [0] * (N + 1); out = [0] * (N + 1)
        pids = [0] + [rng.choice((1, 77, 2 ** 31 - 1)) + i for i in range(N)]
        payload = lambda c, k: ('%d/%d' % (c, k), '', '\u00e9 %d' % k)[(0 if job.get('plain') else 0)]
        def wire(c, k):
            r = []
            for _ in range(k):
                sent[c] += 1
                r.append(msg('A', struct.pack('!L', pids[c]) + b'ch%d\0' % c + payload(c, sent[c]).encode() + b'\0'))
            return r
        mem = [c for c in walk['init']['mem']] if not job.get('iter') else [1]
        nm = NotificationManager(*[cs[c - 1][0] for c in mem])
        ev = []; init = sorted(mem)
        def record(r, timeout, x=None):
            e = {'op': 'next', 'timeout': timeout, 'r': r}
            if x is not None:
                db, ns = x
                c = num.get(id(db), 0)
                ids = []
                for ch, pl, pid in ns:
                    a, _, b = pl.partition('/')
                    if a != str(c) or ch != 'ch%d' % c or pid != pids[c]: ids.append(0)
                    else: ids.append(int(b))
                e['c'] = c; e['ids'] = ids
                out[c] += len(ids)
            if not job.get('iter'):
                e['members'] = sorted(num[id(d)] for d in nm.connections); e['garbage'] = sorted(num[id(d)] for d in nm.garbage)
            else:
                dead = cs[0][0].closed
                e['members'] = [] if dead and r == 'stop' else [1]; e['garbage'] = [1] if dead and r == 'stop' else []
            ev.append(e)
            return r
        def next1(t):
            nm.settimeout(t)
            code = 3 if t is None else 0 if t == 0 else 1
            try: x = next(nm)
            except StopIteration: return record('stop', code)
            if x is None: return record('idle', code)
            return record('event', code, x)
        try:
            for act, obs, s2 in walk['steps']:
                op = act['op']
                c = act.get('c'); db, p = cs[c - 1] if c else (None, None)
                if op == 'arrive':
                    for x in wire(c, act['k']): p.s.sendall(x)
                    ev.append({'op': op, 'c': c, 'k': act['k']})
                elif op == 'op':
                    p.before += wire(c, act['before']); p.after += wire(c, act['after'])
                    db.execute('')
                    ev.append({'op': op, 'c': c, 'before': act['before'], 'after': act['after']})
                elif op == 'kill':
                    if act['how'] == 'eof': p.eof = True; p.s.shutdown(socket.SHUT_WR)
                    elif act['how'] == 'pipe': p.broken = True; p.s.shutdown(socket.SHUT_WR)
                    else: db.close()
                    ev.append({'op': op, 'c': c, 'how': act['how']})
                elif op == 'add': nm.connections.add(db); nm.garbage.discard(db); ev.append({'op': op, 'c': c})
                elif op == 'remove': nm.connections.discard(db); ev.append({'op': op, 'c': c})
                elif op == 'next' and not job.get('iter'):
                    t = (0, .005, .02)[act['timeout']]
                    if t == .02 and any(not d.closed and not (q.eof or q.broken) and sent[i + 1] > out[i + 1] and d in nm.connections for i, (d, q) in enumerate(cs)): t = None
                    next1(t)
                elif op in ('drain', 'next'):
                    if job.get('iter'):
                        t = 0 if op == 'drain' else .01
                        it = cs[0][0].iternotifies(t)
                        for x in it:
                            if x is None: record('idle', 1); break
                            record('event', 1 if t else 0, (cs[0][0], [x]))
                        else: record('stop', 1 if t else 0)
                    else:
                        for _ in range(200):
                            if next1(0) == 'stop': break
            return {'steps': len(ev), 'data': {'members': init, 'events': ev}}
        finally:
            for d, p in cs:
                p.c.close(); p.s.close()
    return run

NAMES = ['foo', 'Foo', 'FOO bar', 'a"b', "it's", 'sel;ect', 'select', '\u00e9t\u00e9', '1x', 'a\\b', '$1', '%s', 'x' * 63, '\u00e9' * 31, '--', '/*', 'a"";DROP', '\U0001f600', ' ', 'tab\tnl\n']
LONG = ['x' * 64, '\u00e9' * 32, '\U0001f600' * 16]
PAY = ['', 'x', "it's", "''", '\\', "\\'", '"', '$$', '\u00e9', '%s', ';', 'p' * 4000, 'nl\n\r', '\U0001f600']
def worker_channels(job):
    import postgresql.exceptions as px
    from . import live
    st = {}
    def run(item):
        if not st:
            st['a'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan()); st['b'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        a, b = st['a'], st['b']
        def bad(k, m): return {'fail': {'key': 'channels:' + k, 'msg': '%r: %s' % (item, m)}}
        kind, names, pay = item
        if kind == 'long':
            for n in names:
                before = sorted(a.listening_channels())
                try: a.listen(n)
                except (ValueError, px.Error): pass
                else:
                    if sorted(a.listening_channels()) != sorted(before + [n]): return bad('long', 'listens to %r' % (a.listening_channels(),))
            return {}
        a.execute('UNLISTEN *'); list(a.iternotifies(0))
        a.listen(*names)
        if sorted(a.listening_channels()) != sorted(set(names)): return bad('listen', 'listens to %r' % (sorted(a.listening_channels()),))
        exp = []
        if kind == 'pos':
            b.notify(*names); exp = [(n, '', b.backend_id) for n in dict.fromkeys(names)]
        elif kind == 'tuple':
            b.notify(*[(n, pay) for n in names]); exp = [(n, pay, b.backend_id) for n in dict.fromkeys(names)]
        elif kind == 'kw':
            b.notify(**{n: pay for n in names}); exp = [(n, pay, b.backend_id) for n in dict.fromkeys(names)]
        elif kind == 'mixed':
            b.notify(names[0], (names[-1], pay), **{names[0]: pay + '2'})
            exp = [(names[0], '', b.backend_id), (names[-1], pay, b.backend_id), (names[0], pay + '2', b.backend_id)]
            if names[0] == names[-1] and pay == '': del exp[1]
        got = []
        for x in a.iternotifies(.05):
            if x is None: break
            got.append(tuple(x))
            if len(got) >= len(exp): break
        if got != exp: return bad('notify', 'expected %r, got %r' % (exp, got))
        a.unlisten(names[0])
        if sorted(a.listening_channels()) != sorted(set(names) - {names[0]}): return bad('unlisten', 'listens to %r' % (a.listening_channels(),))
        return {'steps': 3}
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    for n, sent, job, nrand, length in ((1, 3, {'iter': True}, 300, 30), (1, 3, {}, 300, 30), (2, 2, {}, 1200, 40)) + (((3, 2, {}, 20000, 60),) if T else ()):
        _, _, edges = tlc.run(ctx, 'Notify', {'N': n, 'MaxSent': 8 if n == 1 else 4, 'MaxCmd': 0} if n < 3 else {'N': 3, 'MaxSent': 2, 'MaxCmd': 0}, invariants=['TypeOK'], coverage_required=['arrive', 'op', 'kill', 'add', 'remove', 'next', 'drain'])
        if job.get('iter'): edges = [e for e in edges if e[1]['op'] not in ('add', 'remove') and e[0]['mem'] == [1]]
        g = walk.Graph(edges, init=[e[0] for e in edges if all(x == 0 for x in e[0]['sent']) and all(x == 'up' for x in e[0]['life'])])
        ws, k = g.cover(ctx.rng, maxlen=50)
        # time passes in the idle calls: keep the number of walks in bounds
        if len(ws) > 1500 and not T: ws = ws[:1500]
        ws += g.random_walks(ctx.rng, nrand if not T else nrand * 4, length)
        items = [g.expand(w) for w in ws if w]
        pool.replay(ctx, 'checks.p13', items, dict(job, n=n), key_prefix='', limit=60)
        data = dict(ctx.data)
        idx = sorted(data)
        if idx: ctx.sample({'recorded': data[idx[0]]})
        bad = tlc.evaluate(ctx, 'Notify', [data[i] for i in idx], {'N': n, 'MaxSent': 0, 'MaxCmd': 0})
        for b, v in sorted(bad.items())[:6]:
            ctx.violation('manager%d:%s' % (n, v.split(' is not allowed')[0].split(' ', 2)[-1][:60]), v[:600], {'module': 'checks.p13', 'events': data[idx[b]], 'walk': items[idx[b]], 'verdict': v})
    pgserver.Server(ctx); ctx.pg.databases(8)
    items = [['long', [x], ''] for x in LONG]
    for i, a in enumerate(NAMES):
        for j, p in enumerate(PAY):
            if T or (i + j) % 3 == 0: items.append(['tuple', [a], p])
        for b in NAMES[i:i + (len(NAMES) if T else 3)]:
            items.append(['pos', [a, b], '']); items.append(['kw', [a, b], PAY[(i * 5) % len(PAY)]]); items.append(['mixed', [a, b], PAY[i % len(PAY)]])
    pool.replay(ctx, 'checks.p13', items, {'sock': ctx.pg.sock}, func='worker_channels', key_prefix='')
