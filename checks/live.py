"""
The driver against a real server, through a socket which the harness controls:
it sees every server message, can put asynchronous messages between them, deliver bytes in
pieces, and fail at any byte.
"""
import errno, os, random, socket, struct, sys

class Plan:
    "what the wire does to the traffic"
    def __init__(self):
        self.inject = {}     # server message index -> [bytes]: put behind that many messages
        self.count = 0       # server messages seen since reset
        self.rng = None      # deliver in random pieces
        self.rfault = None   # (bytes delivered, kind)
        self.sfault = None   # (bytes accepted, kind)
        self.rbytes = self.sbytes = 0
        self.dead = None     # kind of failure that happened
        self.log = None      # list of (direction, length)
        self.eintr = False
        self.after = 0       # I/O attempts after death
        self.socks = []
        self.on_send = self.on_recv = self.on_fill = None
    @property
    def open(self): return [s for s in self.socks if not s.closed]

def failure(kind):
    if kind == 'noerrno': return OSError('connection broken')
    if kind == 'eof': return None
    e = {'reset': errno.ECONNRESET, 'pipe': errno.EPIPE, 'abort': errno.ECONNABORTED, 'timedout': errno.ETIMEDOUT, 'host': errno.EHOSTUNREACH, 'io': errno.EIO}[kind]
    return OSError(e, os.strerror(e))

class Shim:
    def __init__(self, real, plan):
        self.real, self.plan = real, plan
        plan.socks.append(self)
        self.out = b''; self.raw = b''
        self.blip = False; self.closed = False
    def fileno(self): return self.real.fileno()
    def settimeout(self, t): self.real.settimeout(t)
    def setblocking(self, t): self.real.setblocking(t)
    def close(self):
        self.closed = True
        self.real.close()
    def _io(self):
        p = self.plan
        if p.dead:
            p.after += 1
            if p.after > 60:
                raise AssertionError('the driver keeps using a dead socket')
            if p.dead == 'timedout': return 'eof'
            return p.dead
        if p.eintr and not self.blip and p.rng.random() < .3:
            self.blip = True
            raise InterruptedError(errno.EINTR, 'Interrupted system call') if p.rng.random() < .5 else BlockingIOError(errno.EAGAIN, 'again')
        self.blip = False
    def send(self, data, flags=0):
        p = self.plan
        k = self._io()
        if k: raise failure(k if k != 'eof' else 'pipe')
        data = bytes(data)
        if p.on_send: data = p.on_send(data)
        if p.rng: data = data[:p.rng.choice((1, 2, 5, 17, 100, 5000))]
        if p.sfault:
            room = p.sfault[0] - p.sbytes
            if room <= 0:
                p.dead = p.sfault[1]
                raise failure('pipe' if p.dead == 'eof' else p.dead)
            data = data[:room]
        self.real.sendall(data)
        p.sbytes += len(data)
        if p.log is not None: p.log.append(('s', len(data)))
        return len(data)
    def sendall(self, data):
        while data: data = data[self.send(data):]
    def _fill(self):
        p = self.plan
        if not self.started(): return
        for b in p.inject.pop(p.count, ()):
            self.out += b
        while not self.out:
            if self.plan.on_fill: self.plan.on_fill(self)
            d = self.real.recv(65536)
            if not d: return
            self.raw += d
            while len(self.raw) >= 5:
                n = 1 + struct.unpack('!L', self.raw[1:5])[0]
                if len(self.raw) < n: break
                self.out += self.raw[:n]; self.raw = self.raw[n:]
                p.count += 1
                for b in p.inject.pop(p.count, ()):
                    self.out += b
    def started(self): return True
    def recv(self, n, flags=0):
        p = self.plan
        k = self._io()
        if k:
            if k == 'eof': return b''
            raise failure(k)
        if p.on_recv: n = p.on_recv(n)
        if p.rfault and p.rbytes >= p.rfault[0]:
            p.dead = p.rfault[1]
            e = failure(p.dead)
            if e: raise e
            return b''
        if not self.out: self._fill()
        d = self.out[:n]
        if p.rng: d = d[:p.rng.choice((1, 1, 2, 3, 4, 5, 7, 11, 50, 500))]
        if p.rfault: d = d[:p.rfault[0] - p.rbytes]
        self.out = self.out[len(d):]
        p.rbytes += len(d)
        if p.log is not None: p.log.append(('r', len(d)))
        return d

    def recv_into(self, buf, n=0, flags=0):
        d = self.recv(n or len(buf))
        buf[:len(d)] = d
        return len(d)

def connector(sock, db, plan, **kw):
    from postgresql.driver import default
    from postgresql.driver.pq3 import Unix
    from postgresql.python.socket import SocketFactory
    class ShimFactory(SocketFactory):
        def __call__(self, timeout=None):
            return Shim(super().__call__(timeout), plan)
    class ShimUnix(Unix):
        def create_socket_factory(self, **params):
            return ShimFactory(**params)
    return ShimUnix(unix=sock, user='test', database=db, driver=default, **kw)

def connect(sock, db, plan, **kw):
    c = connector(sock, db, plan, sslmode='disable', **kw)()
    c.connect()
    return c

# --- operations: each leaves the connection as it found it
def err(f, *a):
    import postgresql.exceptions as px
    try:
        f(*a)
    except px.Error as e:
        return 'ERR ' + e.code
    return 'no error'
GS = "SELECT g, 'v' || g AS v FROM generate_series(1, $1::int) AS g ORDER BY 1"
GOT = []
def rl(rows):
    r = []
    for x in rows:
        r.append(list(x)); GOT.append(r[-1])
    return r
def op_execute(db): db.execute("SELECT 1"); return None
def op_multi(db): db.execute("SELECT 1; SELECT * FROM generate_series(1,3); CREATE TEMP TABLE zz(a int); DROP TABLE zz"); return None
def op_execute_err(db): return err(db.execute, "SELECT 1/0")
def op_empty(db): db.execute(''); return None
def op_prepare(db):
    st = db.prepare(GS); return [st.column_names, st.sql_parameter_types, st.sql_column_types]
def op_prepare_err(db): return err(db.prepare, "SELECT nope")
def op_call(db): return rl(db.prepare(GS)(5))
def op_callagain(db):
    st = db.prepare(GS); return [rl(st(2)), rl(st(0)), rl(st(3))]
def op_first(db): return [db.prepare("SELECT 7").first(), list(db.prepare(GS).first(2)), db.prepare(GS).first(0)]
def op_rows(db): return rl(db.prepare(GS).rows(7))
def op_rows_xact(db):
    with db.xact(): return rl(db.prepare(GS).rows(7))
def op_chunks_xact(db):
    with db.xact(): return [rl(c) for c in db.prepare(GS).chunks(7)]
def op_column(db): return [x[0] for x in rl([y] for y in db.prepare("SELECT g FROM generate_series(1,7) g").column())]
def op_cursor(db):
    c = db.prepare(GS).declare(9)
    r = [rl(c.read(3)), c.seek(1), rl(c.read(2)), rl(c.read(2, 'BACKWARD')), rl(c.read()), c.seek(2, 'FROM_END'), rl(c.read(5))]
    c.close(); return r
def op_cursor_hold(db):
    with db.xact():
        c = db.prepare(GS).declare(3); return rl(c)
def op_copyout(db): return [bytes(x).decode() for x in db.prepare("COPY (SELECT * FROM generate_series(1,6)) TO STDOUT")()]
def op_copyrows(db): return [bytes(x).decode() for x in db.prepare("COPY (SELECT * FROM generate_series(1,6)) TO STDOUT").rows() if not GOT.append(bytes(x).decode())]
def op_copyin(db):
    db.prepare("COPY lt FROM STDIN").load_rows([b'%d\tx\n' % i for i in range(9)])
    return [db.prepare("SELECT count(*) FROM lt").first(), db.execute("DELETE FROM lt")]
def op_copyin_err(db):
    return [err(db.prepare("COPY lt FROM STDIN").load_rows, [b'1\tx\n', b'bad\tx\n', b'2\tx\n']), db.prepare("SELECT count(*) FROM lt").first()]
def op_load(db):
    db.prepare("INSERT INTO lt VALUES ($1,$2)").load_rows([(i, 'y') for i in range(5)])
    return [db.prepare("SELECT count(*) FROM lt").first(), db.execute("DELETE FROM lt")]
def op_dml(db):
    r = [db.prepare("INSERT INTO lt SELECT g, 'z' FROM generate_series(1,4) g").first(), list(db.prepare("UPDATE lt SET b='q'")()), list(db.prepare("DELETE FROM lt")())]
    return r
def op_xact(db):
    with db.xact():
        db.execute("INSERT INTO lt VALUES (1,'a')")
        try:
            with db.xact():
                db.execute("INSERT INTO lt VALUES (2,'b')"); raise KeyError
        except KeyError: pass
        r = db.prepare("SELECT count(*) FROM lt").first()
        db.execute("DELETE FROM lt")
    return r
def op_proc(db): return [db.proc('lower(text)')('ABC'), db.proc('version()')()[:10]]
def op_settings(db):
    with db.settings(extra_float_digits='1'):
        a = db.settings['extra_float_digits']
    return [a, db.settings['extra_float_digits']]
def op_midrow_err(db):
    got = []
    def f():
        for r in db.prepare("SELECT 10/(5-g) FROM generate_series(1,10) g").rows(): got.append(list(r)); GOT.append(list(r))
    return [err(f), got]
def op_call_err(db): return err(db.prepare("SELECT 10/(5-g) FROM generate_series(1,10) g"))
def op_garbage(db):
    a = db.prepare("SELECT 1"); b = db.prepare("SELECT 2"); a.close(); r = b.first(); del b
    db.execute("SELECT 3"); return r
def op_notify(db):
    return db.execute("SELECT 5")
def op_interleave(db):
    with db.xact():
        a = db.prepare(GS).chunks(7)
        b = db.prepare("SELECT 'b' || g FROM generate_series(1,4) g")
        r = [rl(next(a)), rl(b())]
        for c in a: r.append(rl(c))
    return r
def op_sync(db):
    db.pq.synchronize()
    if db.pq.xact is not None: db._pq_complete() # protocol level: failures are left in the transaction
    return None
OPS = [op_execute, op_multi, op_execute_err, op_empty, op_prepare, op_prepare_err, op_call, op_callagain, op_first, op_rows, op_rows_xact, op_chunks_xact,
    op_column, op_cursor, op_cursor_hold, op_copyout, op_copyrows, op_copyin, op_copyin_err, op_load, op_dml, op_xact, op_proc, op_settings, op_midrow_err,
    op_call_err, op_garbage, op_interleave, op_sync]
def reports(r):
    "does a returned value contain the report of a connection failure"
    if isinstance(r, list): return any(reports(x) for x in r)
    return isinstance(r, str) and r.startswith('ERR 08')
def setup(db):
    import postgresql.driver.pq3 as pq3
    pq3.MultiXactStream.chunksize = 3
    db.execute("CREATE TEMP TABLE lt (a int, b text)")

def baseline(sock, dbname):
    "per operation: result, server messages, bytes received, bytes sent"
    p = Plan(); db = connect(sock, dbname, p); setup(db)
    r = []
    for o in OPS:
        o(db); o(db)
        db.execute('')
        p.count = p.rbytes = p.sbytes = 0
        res = o(db)
        c = (p.count, p.rbytes, p.sbytes)
        db.execute('')
        r.append({'op': o.__name__, 'result': res, 'msgs': c[0], 'rbytes': c[1], 'sbytes': c[2]})
    db.close()
    return r

def fresh_baseline(sock, dbname):
    "the same for a connection which does nothing else, and for connecting"
    p = Plan(); db = connect(sock, dbname, p)
    r = [{'op': 'connect', 'result': None, 'msgs': p.count, 'rbytes': p.rbytes, 'sbytes': p.sbytes, 'rows': []}]
    db.close()
    for o in OPS:
        p = Plan(); db = connect(sock, dbname, p); setup(db)
        p.count = p.rbytes = p.sbytes = 0; del GOT[:]
        res = o(db)
        r.append({'op': o.__name__, 'result': res, 'msgs': p.count, 'rbytes': p.rbytes, 'sbytes': p.sbytes, 'rows': list(GOT)})
        db.close()
    return r

def worker_baseline(job):
    def run(item):
        import json
        with open(job['out'], 'w') as f:
            json.dump((fresh_baseline if job.get('fresh') else baseline)(job['sock'], 'w0'), f)
    return run

def get_baseline(ctx, fresh=False):
    import json
    from vlib import pool
    out = os.path.join(ctx.scratch, 'baseline.json')
    pool.replay(ctx, 'checks.live', [0], {'sock': ctx.pg.sock, 'out': out, 'fresh': fresh}, func='worker_baseline', workers=1, key_prefix='baseline:')
    if not os.path.exists(out):
        return None
    return json.load(open(out))
