"""P05: connection establishment (specs/Establish.tla)."""
import errno, hashlib, os, random, socket, ssl, struct, sys, threading
TECHNIQUE = 'TLA+ model (Establish) of the attempts over all addresses and every server answer, explored by TLC; its behaviours replayed through the driver against scripted servers, and a part of them over real sockets with real TLS'
LEVEL_NOTE = ('All security modes, one to three addresses, every answer at every step (about 60 kinds); every transition of the model at least once plus random walks, partial sends and reads. '
  'Secrets checked against hashlib and the C library crypt(). Certificate checking is checked with one right and one wrong authority. The server side is the harness.')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def msg(t, b=b''): return t.encode() + struct.pack('!L', len(b) + 4) + b
def err(code, sev='FATAL', t='E'): return msg(t, b''.join(k.encode() + v.encode() + b'\0' for k, v in (('S', sev), ('V', sev), ('C', code), ('M', 'no'))) + b'\0')
AUTH = {'ok': 0, 'kerberos4': 1, 'kerberos5': 2, 'cleartext': 3, 'crypt': 4, 'md5': 5, 'scm': 6, 'gss': 7, 'sspi': 9, 'sasl': 10, 'unknown': 77}
class Gone(Exception): pass

class Peer:
    "the server's side of one attempt: consumes what the client sends, answers as scripted"
    def __init__(self, script, cfg):
        self.script = list(script); self.cfg = cfg
        self.buf = b''; self.out = []; self.log = []; self.enc = False; self.rest = []; self.ended = False
        self.conforming = True; self.session = None
        self.state = 'ssl' if self.script and self.script[0][0] == 'ssl' else 'auth'
    def step(self, op):
        if not self.script or self.script[0][0] != op:
            self.rest.append(op); return 'eof'
        return self.script.pop(0)[1]
    def sending(self):
        "may the client's next bytes be accepted"
        if self.script and self.script[0][1] == 'resetsend':
            self.script.pop(0); self.dead = True
            self.log.append((self.state if self.state != 'ssl' else 'ssl', 'reset'))
            return False
        return True
    def feed(self, data):
        self.buf += data
        while True:
            if self.state == 'ssl':
                if len(self.buf) < 8: return
                m, self.buf = self.buf[:8], self.buf[8:]
                self.log.append(('sslrequest' if m == struct.pack('!LL', 8, 80877103) else m, self.enc))
                a = self.step('ssl')
                if a in ('S', 'N'): self.out.append(a.encode())
                elif a == 'Sjunk': self.out.append(b'S' + msg('R', struct.pack('!L', 0)))
                elif a == 'E': self.out.append(err('0A000'))
                elif a == 'junk': self.out.append(b'HTTP/1.1 400')
                else: self.out.append(a)
                self.state = 'auth'
            elif self.state == 'auth':
                if len(self.buf) < 4: return
                n = struct.unpack('!L', self.buf[:4])[0]
                if len(self.buf) < n: return
                m, self.buf = self.buf[4:n], self.buf[n:]
                if m[:4] != struct.pack('!HH', 3, 0) or m[-1:] != b'\0': self.log.append(('not a startup message', m)); self.out.append('eof'); return
                kv = m[4:-1].split(b'\0')[:-1]
                self.log.append(('startup', self.enc)); self.startup = list(zip(kv[::2], kv[1::2]))
                self.auth(self.step('auth'))
            elif self.state in ('password', 'session', 'params', 'up'):
                if len(self.buf) < 5: return
                n = 1 + struct.unpack('!L', self.buf[1:5])[0]
                if len(self.buf) < n: return
                t, m, self.buf = self.buf[:1], self.buf[5:n], self.buf[n:]
                if self.state == 'password':
                    self.log.append((('pw-' + self.kind if t == b'p' else t), self.enc)); self.secret = m
                    a = self.step('password')
                    if a == 'ok': self.out.append(msg('R', struct.pack('!L', 0))); self.params()
                    elif a == 'error': self.out.append(err('28P01'))
                    elif a == 'again': self.out.append(msg('R', struct.pack('!L', 5) + b'abcd'))
                    elif a == 'weird': self.out.append(msg('Z', b'I'))
                    else: self.out.append(a)
                else: self.query(t, m)
            else: return
    def auth(self, a):
        if a in AUTH:
            self.kind = a
            self.out.append(msg('R', struct.pack('!L', AUTH[a]) + {'md5': self.cfg['salt'].encode('latin1'), 'crypt': self.cfg['csalt'].encode(), 'sasl': b'SCRAM-SHA-256\0\0'}.get(a, b'')))
            if a == 'ok': self.params()
            elif a in ('cleartext', 'md5', 'crypt'): self.state = 'password'
        elif a == 'error': self.out.append(err('28000'))
        elif a == 'weird': self.out.append(msg('Z', b'I'))
        else: self.out.append(a)
    def params(self):
        self.state = 'params'
        S = lambda k, v: self.out.append(msg('S', k.encode() + b'\0' + v.encode() + b'\0'))
        K = lambda: self.out.append(msg('K', struct.pack('!LL', self.cfg['pid'], self.cfg['key'])))
        while self.state == 'params':
            a = self.step('params')
            if a == 'notice': self.out.append(err('00000', 'NOTICE', 'N')); continue
            if a == 'ready':
                self.session = self.script.pop(0)[1] if self.script and self.script[0][0] == 'session' else 'ok'
                S('client_encoding', 'UTF8'); S('server_version', '16.2'); S('standard_conforming_strings', 'off' if self.session == 'nonconforming' else 'on')
                K(); self.out.append(msg('Z', b'I')); self.state = 'session'; self.first = True
            else:
                if a == 'error': self.out.append(err('3D000'))
                elif a == 'nokey': self.out.append(msg('Z', b'I'))
                elif a == 'noready': K(); self.out.append(msg('T', b'\0\0'))
                elif a == 'weird': self.out.append(msg('T', b'\0\0'))
                else: self.out.append(a)
                self.state = 'over'
    def query(self, t, m):
        if t == b'X': self.log.append(('terminate', self.enc)); self.ended = True; return
        if self.first: self.log.append(('query', self.enc)); self.first = False
        if self.session == 'eof': self.out.append('eof'); return
        if t == b'P':
            sql = m.split(b'\0')[1]; self.sql = sql
            if self.session == 'error': self.out.append(err('57014', 'ERROR')); self.skip = True; return
            self.out.append(msg('1'))
        elif t == b'S':
            self.out.append(msg('Z', b'I')); self.skip = False
        elif getattr(self, 'skip', False): pass
        elif t == b'D':
            np = 2 if b'set_config' in self.sql else 0
            nc = 4 if b'version()' in self.sql else 1
            if m[:1] == b'S': self.out.append(msg('t', struct.pack('!H', np) + struct.pack('!L', 25) * np))
            self.out.append(msg('T', struct.pack('!H', nc) + b''.join(b'c%d\0' % i + struct.pack('!LhLhlh', 0, 0, 25, -1, -1, 0) for i in range(nc))))
        elif t == b'B':
            if b'set_config' in self.sql and b'standard_conforming_strings' in m and b'on' in m: self.conforming = 'set'
            self.out.append(msg('2'))
        elif t == b'E':
            nc = 4 if b'version()' in self.sql else 1
            self.out.append(msg('D', struct.pack('!H', nc) + struct.pack('!L', 10) + b'PostgreSQL' + struct.pack('!l', -1) * (nc - 1)) if nc == 4 else msg('D', struct.pack('!HL', 1, 2) + b'on'))
            self.out.append(msg('C', b'SELECT 1\0'))
        elif t == b'C': self.out.append(msg('3'))

def oserr(e): return OSError(e, os.strerror(e))
class Fake:
    def __init__(self, net, peer, enc=False, below=None):
        self.net, self.peer, self.encrypted, self.below = net, peer, enc, below
        self.closed = self.dead = False; self.pend = b''
        if below is None: net.socks.append(self)
    def fileno(self): return -1
    def settimeout(self, t): pass
    def close(self):
        self.closed = True
        if self.below is not None: self.below.close()
    def detached(self):
        if self.encrypted != self.peer.enc: raise AssertionError('the plain socket is used behind the start of encryption')
        if self.closed: raise oserr(errno.EBADF)
    def send(self, data, flags=0):
        self.detached()
        data = bytes(data)
        if self.net.rng: data = data[:self.net.rng.choice((1, 2, 3, 7, 4000))]
        if self.dead or not self.peer.sending(): self.dead = True; raise oserr(errno.ECONNRESET)
        self.peer.feed(data)
        return len(data)
    def sendall(self, data):
        while data: data = data[self.send(data):]
    def recv(self, n, flags=0):
        self.detached()
        if self.dead: return b''
        while not self.pend:
            if not self.peer.out:
                raise AssertionError('the client waits for a message which the server has no reason to send')
            x = self.peer.out.pop(0)
            if x == 'eof': self.dead = True; return b''
            if x in ('reset', 'resetsend'): self.dead = True; raise oserr(errno.ECONNRESET)
            self.pend += x
            while self.net.rng is None and self.peer.out and isinstance(self.peer.out[0], bytes): self.pend += self.peer.out.pop(0)
        d = self.pend[:n]
        if self.net.rng: d = d[:self.net.rng.choice((1, 3, 10, 400))]
        self.pend = self.pend[len(d):]
        return d

CONFIGS = [
    {'user': 'joe', 'password': 'secret', 'database': 'db', 'enc': None, 'salt': 'abcd', 'csalt': 'ab', 'pid': 4711, 'key': 99, 'settings': {}},
    {'user': 'j\u00f6e', 'password': 'p\u00e4ss\u20acword', 'database': 'd\u00e9', 'enc': None, 'salt': '\0\x80\xff\x01', 'csalt': './', 'pid': 2 ** 31 + 5, 'key': 2 ** 32 - 1, 'settings': {'search_path': 'public,"a""b"'}},
    {'user': 'x', 'password': '', 'database': None, 'enc': None, 'salt': 'zzzz', 'csalt': 'Z9', 'pid': 1, 'key': 0, 'settings': {'application_name': 'a b'}},
    {'user': '\u00e9', 'password': '\u00e9\u00e8', 'database': 'x', 'enc': 'latin1', 'salt': '%%%%', 'csalt': 'aZ', 'pid': 3, 'key': 4, 'settings': {'client_min_messages': 'ERROR'}},
    {'user': 'long', 'password': 'abcdefghijklm', 'database': 'x', 'enc': None, 'salt': '\n\r\0\0', 'csalt': '9/', 'pid': 3, 'key': 4, 'settings': {}},
]
def secret(kind, cfg):
    e = cfg['enc'] or 'utf-8'
    pw = cfg['password'].encode(e); user = cfg['user'].encode(e)
    if kind == 'cleartext': return pw + b'\0'
    if kind == 'md5': return b'md5' + hashlib.md5(hashlib.md5(pw + user).hexdigest().encode() + cfg['salt'].encode('latin1')).hexdigest().encode() + b'\0'
    import ctypes, ctypes.util
    c = ctypes.CDLL(ctypes.util.find_library('crypt')); c.crypt.restype = ctypes.c_char_p
    return c.crypt(pw, cfg['csalt'].encode()) + b'\0'
def startup(cfg):
    e = cfg['enc'] or 'utf-8'
    r = {'client_min_messages': 'WARNING', 'user': cfg['user']}
    if cfg['database'] is not None: r['database'] = cfg['database']
    r.update(cfg['settings'])
    return sorted((k.encode(), v.encode(e)) for k, v in r.items())

def parse(walk):
    "attempts of a behaviour: [{'addr', 'connect', 'script', 'expect', 'code'}], outcome"
    atts = []; outcome = None
    for act, obs, s2 in walk['steps']:
        if act['op'] == 'connect':
            atts.append({'addr': obs['addr'], 'connect': act['a'], 'script': [], 'expect': [], 'code': None, 'enc': False})
        elif act['op'] == 'tls': atts[-1]['tls'] = act['a']
        else: atts[-1]['script'].append((act['op'], act['a']))
        k = atts[-1]
        if obs['send'] == 'fail':
            k['code'] = obs['code']
            # the client must not get to send what the reset refuses
            if act['a'] == 'resetsend': k['expect'].pop()
        elif obs['send'] in ('connected', 'broken'):
            outcome = obs; k['session'] = act['a']
        elif obs['send'] not in ('nothing', 'handshake'):
            k['expect'].append((obs['send'], obs['enc']))
    return atts, outcome

def check(walk, cfg, db, atts, outcome, exc, peers, px, tried):
    "what the behaviour requires of what happened"
    if len(peers) != len([a for a in atts if a['connect'] == 'ok']) or tried != [a['addr'] for a in atts]:
        return 'attempts', 'expected attempts on %r, got %r' % ([(a['addr'], a['connect']) for a in atts], tried)
    for a, p in zip([a for a in atts if a['connect'] == 'ok'], peers):
        got = [x for x in p.log if x[1] != 'reset' and x[0] != 'terminate']
        if got != [tuple(x) for x in a['expect']]:
            return 'sent', 'to address %d: expected to send %r, sent %r' % (a['addr'], a['expect'], got)
        if p.rest: return 'unexpected', 'the server was asked for %r' % (p.rest,)
        for what, enc in a['expect']:
            if what == 'startup' and sorted(p.startup) != startup(cfg): return 'startup', 'start-up parameters %r' % (p.startup,)
            if what[:3] == 'pw-' and p.secret != secret(what[3:], cfg): return what, 'sent %r for %r, expected %r' % (p.secret, cfg['password'], secret(what[3:], cfg))
    if outcome is None:
        if not isinstance(exc, px.ClientCannotConnectError): return 'outcome', 'expected ClientCannotConnectError, got %r' % (exc,)
        fails = db.failures
        if len(fails) != len(atts): return 'failures', '%d attempts, %d failures listed' % (len(atts), len(fails))
        text = str(exc)
        for n, (a, f) in enumerate(zip(atts, fails)):
            c = a['code']
            if c == 'connect': c = ('--TOE',) if a['connect'] == 'timeout' else ('08',)
            if not isinstance(f.error, px.Error) or not f.error.code.startswith(c):
                return 'code', 'failure %d is %r (%s), expected %s' % (n, f.error, getattr(f.error, 'code', None), c)
            if 'failures[%d]' % n not in text: return 'report', 'failure %d is not reported: %s' % (n, text)
        if not db.closed or db.state != 'failed': return 'state', 'connection is %s' % db.state
    elif outcome['send'] == 'broken':
        if not isinstance(exc, px.Error): return 'outcome', 'expected a database error, got %r' % (exc,)
        if not db.closed: return 'state', 'connection is %s' % db.state
    else:
        if exc is not None: return 'outcome', 'expected a connection, got %r' % (exc,)
        if db.closed or db.state != 'idle' or db.security != ('ssl' if outcome['enc'] else None): return 'state', 'connection is %s, security %r' % (db.state, db.security)
        if (db.backend_id, db.pq.key) != (cfg['pid'], cfg['key']): return 'key', 'cancellation key %r' % ((db.backend_id, db.pq.key),)
        if atts[-1]['session'] == 'nonconforming' and peers[-1].conforming != 'set': return 'strings', 'standard_conforming_strings was left off'

def params(cfg, mode):
    return dict(user=cfg['user'], password=cfg['password'], database=cfg['database'], server_encoding=cfg['enc'], settings=dict(cfg['settings']), sslmode=mode)

def worker(job):
    import postgresql.exceptions as px
    from postgresql.driver import default
    from postgresql.driver.pq3 import Host
    from postgresql.python.socket import SocketFactory
    class Net: pass
    def run(walk):
        atts, outcome = parse(walk)
        for variant in range(2):
            rng = random.Random(repr(walk['steps']) + str(variant))
            cfg = rng.choice(CONFIGS)
            net = Net(); net.socks = []; net.rng = rng if variant else None
            peers = []; todo = list(atts); tried = []; unreachable = {}
            class F(SocketFactory):
                def __init__(self, addr): self.addr = addr; SocketFactory.__init__(self, (), ('addr', addr))
                def __call__(self, timeout=None):
                    if timeout != 7: raise AssertionError('timeout %r' % timeout)
                    if not todo or todo[0]['addr'] != self.addr:
                        if self.addr in unreachable: raise unreachable[self.addr] # trying once more is allowed
                        tried.append(self.addr); raise oserr(errno.ECONNREFUSED)
                    a = todo.pop(0); tried.append(self.addr)
                    if a['connect'] != 'ok':
                        e = {'refused': oserr(errno.ECONNREFUSED), 'timeout': socket.timeout('timed out'), 'unreachable': oserr(errno.EHOSTUNREACH)}[a['connect']]
                        unreachable[self.addr] = e
                        raise e
                    p = Peer(a['script'], cfg); p.a = a; peers.append(p)
                    return Fake(net, p)
                def secure(self, s):
                    if s.closed or s.peer.state != 'auth': raise AssertionError('securing a socket in state %r' % s.peer.state)
                    t = s.peer.a.get('tls')
                    if t == 'ok' and not s.pend or t == 'ok' and s.pend:
                        s.peer.enc = True; s.peer.out[:] = []
                        return Fake(net, s.peer, True, s)
                    if t == 'oserror': raise oserr(errno.ECONNRESET)
                    raise ssl.SSLError(1, 'handshake failure')
            class C(Host):
                def socket_factory_sequence(self): return [F(k + 1) for k in range(walk['init']['naddr'])]
            db = C(host='h', port=1, driver=default, connect_timeout=7, **params(cfg, walk['init']['mode']))()
            exc = None
            try: db.connect()
            except Exception as e: exc = e
            r = check(walk, cfg, db, atts, outcome, exc, peers, px, tried)
            keep = 1 if outcome and outcome['send'] == 'connected' else 0
            left = [s for s in net.socks if not s.closed]
            if r is None and len(left) != keep: r = 'sockets', '%d sockets open' % len(left)
            if r is None and keep:
                if left[0] is not net.socks[-1]: r = 'sockets', 'the wrong socket is open'
                db.close()
                if r is None and (('terminate', outcome['enc']) not in peers[-1].log or not left[0].closed): r = 'sockets', 'not closed by close()'
            if r:
                return {'fail': {'key': walk['init']['mode'] + ':' + r[0], 'msg': '%s\nmode %s, attempts %r\nsent %r\nraised %r' % (r[1], walk['init']['mode'], atts, [p.log for p in peers], exc)}}
        return {'steps': 2 * len(walk['steps'])}
    return run

def worker_real(job):
    "real sockets, real TLS"
    import postgresql.exceptions as px
    from postgresql.driver import default
    from postgresql.driver.pq3 import Host
    D = job['data']
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER); ctx.load_cert_chain(os.path.join(D, 'tls.pem'))
    def run(walk):
        atts, outcome = parse(walk)
        rng = random.Random(repr(walk['steps'])); cfg = rng.choice(CONFIGS)
        n = walk['init']['naddr']
        ls = []
        for k in range(n):
            l = socket.socket(); l.bind(('127.0.0.1', 0)); ls.append(l)
        ports = [l.getsockname()[1] for l in ls]
        for k in range(n):
            # an address which refuses keeps its port: nobody else may get it
            if not any(a['addr'] == k + 1 and a['connect'] != 'ok' for a in atts): ls[k].listen(5)
        peers = []; plain = []; problems = []
        def serve():
            try:
                for a in atts:
                    if a['connect'] != 'ok': continue
                    l = ls[a['addr'] - 1]; l.settimeout(10)
                    s, _ = l.accept(); s.settimeout(10)
                    p = Peer(a['script'], cfg); p.a = a; peers.append(p)
                    tls = 'tls' in a
                    while True:
                        while p.out and isinstance(p.out[0], bytes):
                            x = p.out.pop(0); s.sendall(x)
                            if x[:1] == b'S' and tls and not p.enc and len(x) < 20 and p.state == 'auth':
                                try: s = ctx.wrap_socket(s, server_side=True)
                                except (ssl.SSLError, OSError): p.out[:] = ['eof']; break
                                if a['tls'] != 'ok': pass
                                p.enc = True
                        if p.out: s.close(); break
                        try: d = s.recv(4096)
                        except OSError: d = b''
                        if not d: s.close(); break
                        if p.state not in ('over',): p.feed(d)
            except Exception as e:
                problems.append(e)
        t = threading.Thread(target=serve, daemon=True); t.start()
        bad = any(a.get('tls') == 'fail' for a in atts)
        class C(Host):
            def socket_factory_sequence(self):
                return [self.create_socket_factory(**self.socket_factory_params((socket.AF_INET, socket.SOCK_STREAM, 0), ('127.0.0.1', x), self._socket_secure)) for x in ports]
        db = C(host='h', port=1, driver=default, connect_timeout=10, sslrootcrtfile=os.path.join(D, 'otherca.pem' if bad else 'ca.pem'), **params(cfg, walk['init']['mode']))()
        exc = None
        try: db.connect()
        except Exception as e: exc = e
        r = None
        enc = outcome and outcome['send'] == 'connected' and isinstance(db.pq.socket, ssl.SSLSocket)
        tried = [a['addr'] for a in atts]
        r = check(walk, cfg, db, atts, outcome, exc, peers, px, tried)
        if r is None and outcome and outcome['send'] == 'connected' and bool(enc) != outcome['enc']: r = 'channel', 'the channel in use is not the one reported'
        db.close(); t.join(10)
        for l in ls:
            if l: l.close()
        if r is None and problems: r = 'server', repr(problems)
        if r:
            return {'fail': {'key': 'real:' + walk['init']['mode'] + ':' + r[0], 'msg': '%s\nmode %s, attempts %r\nsent %r\nraised %r' % (r[1], walk['init']['mode'], atts, [p.log for p in peers], exc)}}
        return {'steps': len(walk['steps'])}
    return run

def finish(g, w, rng):
    while g.out[g.edges[w[-1]][3]]: w.append(rng.choice(g.out[g.edges[w[-1]][3]]))
    return w
REAL = {'connect': {'ok', 'refused'}, 'ssl': {'S', 'N', 'junk', 'eof'}, 'tls': {'ok', 'fail'}, 'auth': {'ok', 'md5', 'cleartext', 'error', 'eof'}, 'password': {'ok', 'error'}, 'params': {'ready', 'error'}, 'session': {'ok', 'nonconforming'}}
def run(ctx):
    from vlib import tlc, walk, pool
    T = ctx.thorough
    modes = {'disable', 'allow', 'prefer', 'require'}
    _, _, edges = tlc.run(ctx, 'Establish', {'Modes': modes, 'MaxAddr': 3}, invariants=['NoPlainSecrets', 'NeverAsked', 'PlainConnected', 'EveryAddress'],
        coverage_required=['connect', 'ssl', 'tls', 'auth', 'password', 'params', 'session'])
    inits = [{'mode': m, 'naddr': n, 'i': 1, 'phase': 'connect', 'enc': False, 'asked': 'no'} for m in sorted(modes) for n in (1, 2, 3)]
    g = walk.Graph(edges, init=inits)
    ws, n = g.cover(ctx.rng, maxlen=60)
    ws = [finish(g, w, ctx.rng) for w in ws] + g.random_walks(ctx.rng, 12000 if not T else 300000, 60)
    items = [g.expand(w) for w in ws]
    ctx.cov['establish_edges_covered'] = n
    ctx.sample({'behaviour': [[a, o] for a, o, _ in items[0]['steps']]})
    pool.replay(ctx, 'checks.p05', items, {}, key_prefix='', limit=20)
    # over real sockets
    sub = [e for e in edges if e[1]['a'] in REAL[e[1]['op']] and e[0]['naddr'] <= 2]
    g = walk.Graph(sub, init=[i for i in inits if i['naddr'] <= 2])
    seen = set(); items = []
    for w in g.random_walks(ctx.rng, 6000 if not T else 60000, 40):
        x = g.expand(w); a, o = parse(x)
        if len({y.get('tls') for y in a} - {None}) > 1: continue
        if any(y['addr'] == z['addr'] and y['connect'] != z['connect'] for y in a for z in a): continue
        k = repr(a) + x['init']['mode']
        if k in seen: continue
        seen.add(k); items.append(x)
        if len(items) >= (400 if not T else 6000): break
    pool.replay(ctx, 'checks.p05', items, {'data': os.path.join(VERIF, 'data')}, func='worker_real', key_prefix='', limit=40)
