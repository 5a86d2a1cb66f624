"""P22: exceptions for errors (specs/Errors.tla, specs/ErrorTable.tla)."""
import random, struct
TECHNIQUE = 'TLA+ model (Errors, ErrorTable) of the declared conditions, of the lookup of codes, of what messages carry and whom they name; TLC enumerates codes, messages and histories of failing, warning and succeeding operations, which are replayed on the code, against a scripted peer and against a real server'
LEVEL_NOTE = 'Every declared code with each position replaced, every class of two symbols; every message with up to 2 (thorough: 3) optional fields of each kind and all fields at once, each in three places; all transitions of histories over 15 kinds of operation, hooks on statement and connection'
from .p05 import Peer, CONFIGS, msg

def lookups(job):
    def run(item):
        import postgresql.exceptions as px
        for o in item:
            c = o['code']
            try: e, w = px.ErrorLookup(c), px.WarningLookup(c)
            except Exception as x: return {'fail': {'key': 'lookup:exception', 'msg': 'looking up %r: %r' % (c, x)}}
            if e is not getattr(px, o['error'], None): return {'fail': {'key': 'lookup:error', 'msg': 'error code %s gives %s, expected %s' % (c, e.__name__, o['error'])}}
            if w is not getattr(px, o['warning'], None): return {'fail': {'key': 'lookup:warning', 'msg': 'warning code %s gives %s, expected %s' % (c, w.__name__, o['warning'])}}
            for n in o['errors']:
                if not issubclass(e, getattr(px, n)): return {'fail': {'key': 'lookup:hierarchy', 'msg': '%s (%s) is not a %s' % (e.__name__, c, n)}}
            if not issubclass(w, px.Warning) or issubclass(e, px.Warning): return {'fail': {'key': 'lookup:kind', 'msg': c}}
            if not issubclass(e, px.Error): return {'fail': {'key': 'lookup:kind', 'msg': c}}
        return {'steps': len(item)}
    return run

LETTER = {'severity': 'S', 'nonlocalized_severity': 'V', 'code': 'C', 'message': 'M', 'detail': 'D', 'hint': 'H', 'context': 'W', 'position': 'P', 'internal_position': 'p', 'internal_query': 'q',
          'file': 'F', 'line': 'L', 'function': 'R', 'schema': 's', 'table': 't', 'column': 'c', 'datatype': 'd', 'constraint': 'n'}
WORDS = {'ERROR': 'FEHLER', 'FATAL': 'FATAL', 'PANIC': 'PANIK', 'WARNING': 'WARNUNG', 'NOTICE': 'HINWEIS', 'INFO': 'INFO', 'DEBUG': 'DEBUG', 'LOG': 'LOG'}

class Pair:
    def __init__(self, startup=None):
        import socket
        self.c, self.s = socket.socketpair(); self.c.settimeout(5)
        self.peer = Peer([('auth', 'ok'), ('params', 'ready'), ('session', 'ok')], CONFIGS[0])
        self.startup = startup; self.reply = None; self.where = None; self.live = False; self.skip = False; self.buf = b''
    def fileno(self): return self.c.fileno()
    def settimeout(self, t): pass
    def close(self): self.c.close(); self.s.close()
    def recv(self, n, flags=0): return self.c.recv(n)
    def send(self, data, flags=0):
        data = bytes(data)
        out = []
        if self.startup and self.peer.state != 'session' and self.startup[:1] == b'E':
            out.append(self.startup)
        elif not self.live:
            self.peer.feed(data); out += self.peer.out; del self.peer.out[:]
            if self.startup: out.insert(1, self.startup); self.startup = None
        else:
            self.buf += data
            while len(self.buf) >= 5:
                n = 1 + struct.unpack('!L', self.buf[1:5])[0]
                if len(self.buf) < n: break
                t, m, self.buf = self.buf[:1], self.buf[5:n], self.buf[n:]
                r = self.reply if self.where == t else None
                if r: self.reply = None
                if t == b'S': self.skip = False; out.append(msg('Z', b'I')); continue
                if self.skip: continue
                if r:
                    out.append(r)
                    if r[:1] == b'E':
                        if self.fatal: out.append(None); break
                        if t == b'Q': out.append(msg('Z', b'I'))
                        else: self.skip = True
                        continue
                if t == b'Q': out += [msg('C', b'SELECT 1\0'), msg('Z', b'I')]
                elif t == b'P': out.append(msg('1'))
                elif t == b'B': out.append(msg('2'))
                elif t == b'C': out.append(msg('3'))
                elif t == b'D': out += [msg('t', b'\0\0'), msg('n')]
                elif t == b'E': out.append(msg('C', b'SELECT 0\0'))
        for x in out:
            if isinstance(x, bytes): self.s.sendall(x)
            elif x is None: self.s.close(); break
        return len(data)
    def sendall(self, d):
        while d: d = d[self.send(d):]

def connector(ps, startup=None):
    from postgresql.driver import default
    from postgresql.driver.pq3 import Host
    from postgresql.python.socket import SocketFactory
    class F(SocketFactory):
        def __call__(self, timeout=None):
            ps.append(Pair(startup)); return ps[-1]
    class C(Host):
        def socket_factory_sequence(self): return [F((), ())]
    return C(host='h', port=1, driver=default, user='joe', sslmode='disable')

def messages(job):
    """Messages of a scripted peer, in answer to a query, to preparing, and while connecting."""
    import postgresql.exceptions as px, postgresql.sys as ps, postgresql.message as pm
    st = {}
    heard = []
    def hook(m): heard.append(m); return True
    def text(kind, f, rng):
        base = '%s %d' % (f, rng.randrange(100))
        if kind == 'ascii': return base.encode(), base
        if kind == 'utf8': t = base + rng.choice(['\xe9', ' \u20ac', '\U0001f600', '\u0100\u0200']); return t.encode('utf-8'), t
        if kind == 'long': t = base + 'x' * rng.choice((1000, 20000)); return t.encode(), t
        if kind == 'empty': return b'', ''
        if kind == 'quotes': t = base + rng.choice(['"\'', "'", '"', '\\x', "\\'\n", '{0!r} %s']); return t.encode(), t
        bad = rng.choice([b'\xff', b'\xe9', b'\xc3', b'\xe2\x82', b'\xed\xa0\x80'])
        return base.encode() + bad + b' end', None
    def run(item):
        old = ps.msghook; ps.msghook = hook
        try:
            for o in item:
                rng = random.Random(repr(sorted(dict(o['fields'] or {}).items())) + o['code'] + o['severity'] + o['words'])
                fs = dict(o['fields'] or {})
                fields = []; want = {}
                sev = o['severity']; word = WORDS[sev] if o['words'] == 'other' else sev
                fields.append(('severity', word.encode())); want['severity'] = word
                if o['words'] != 'only': fields.append(('nonlocalized_severity', sev.encode())); want['nonlocalized_severity'] = sev
                fields.append(('code', o['code'].encode()))
                if 'message' not in fs: fs['message'] = 'ascii'
                for f, k in fs.items():
                    b, t = text(k, f, rng); fields.append((f, b)); want[f] = (b, t)
                rng.shuffle(fields)
                body = b''.join(LETTER[f].encode() + b + b'\0' for f, b in fields)
                if rng.random() < .3: body += b'zwhat is this?\0'
                m = msg('E' if o['kind'] == 'error' else 'N', body + b'\0')
                for where in ('Q', 'P', 'startup'):
                    del heard[:]
                    got = None
                    if where == 'startup':
                        pairs = []
                        try:
                            db = connector(pairs, m)(); db.connect(); db.close()
                        except px.ClientCannotConnectError as e:
                            # the last failure of the attempt
                            try: got = e.failures[-1].error if hasattr(e, 'failures') else None
                            except Exception: got = None
                            if got is None:
                                fl = e.database.failures
                                got = fl[0].error
                            try: str(e)
                            except Exception as x: return {'fail': {'key': 'str:startup', 'msg': '%r for %r' % (x, m)}}
                        except Exception as e: return {'fail': {'key': 'startup:exception', 'msg': '%r for %r' % (e, m)}}
                        finally:
                            for p in pairs: p.close()
                    else:
                        if 'db' not in st:
                            st['pairs'] = []; db = connector(st['pairs'])(); db.connect(); st['db'] = db; st['pairs'][0].live = True
                        db = st['db']; p = st['pairs'][0]
                        p.reply, p.where, p.fatal = m, where.encode(), o['fatal']
                        try:
                            if where == 'Q': db.execute('SELECT 1')
                            else: db.prepare('SELECT 1')
                        except px.Error as e: got = e
                        except Exception as e: return {'fail': {'key': 'fields:exception', 'msg': '%s: %r for %r' % (where, e, m)}}
                        if o['fatal']:
                            # the server is gone
                            p.close(); st.pop('db')
                        elif p.reply is not None or db.closed: return {'fail': {'key': 'fields:dead', 'msg': '%s: the connection is %s after %r' % (where, 'closed' if db.closed else 'not reading', m)}}
                    if o['kind'] == 'error':
                        if heard: return {'fail': {'key': 'fields:told', 'msg': '%s: %r was also told: %r' % (where, m, heard)}}
                        if got is None: return {'fail': {'key': 'fields:silent', 'msg': '%s: no error for %r' % (where, m)}}
                    else:
                        if got is not None: return {'fail': {'key': 'fields:raised', 'msg': '%s: %r raised %r' % (where, m, got)}}
                        if len(heard) != 1: return {'fail': {'key': 'fields:silent', 'msg': '%s: %r was told %d times' % (where, m, len(heard))}}
                        got = heard[0]
                    cls = pm.Message if o['class'] == 'Message' else getattr(px, o['class'])
                    def bad(key, what): return {'fail': {'key': key, 'msg': '%s: %s; the message was %r' % (where, what, m[:600])}}
                    if type(got) is not cls: return bad('fields:class', 'the class is %s, expected %s' % (type(got).__name__, cls.__name__))
                    if got.code != o['code']: return bad('fields:code', 'the code is %r, expected %r' % (got.code, o['code']))
                    if got.source != 'SERVER': return bad('fields:source', got.source)
                    if o['kind'] == 'error' and bool(got.fatal) != o['fatal']: return bad('fields:fatal', 'fatal is %r, expected %r' % (got.fatal, o['fatal']))
                    for f, w in want.items():
                        g = got.message if f == 'message' else got.details.get(f)
                        if isinstance(w, str): ok = g == w
                        elif w[1] is None: ok = isinstance(g, str) and w[0].split(b' end')[0].decode('ascii', 'ignore') in g and g.endswith(' end')
                        elif w[1] == '': ok = g in ('', None)
                        # what the server writes before the session is in an encoding nobody knows
                        else: ok = g == w[1] or where == 'startup' and g == repr(w[0])[2:-1]
                        if not ok: return bad('fields:value:' + f, 'the %s is %r, expected %r' % (f, g, w))
                    extra = set(got.details) - set(want)
                    if extra: return bad('fields:extra', 'there are also %r' % extra)
                    try: str(got), repr(got)
                    except Exception as x: return bad('str', 'str() raised %r' % x)
            return {'steps': 3 * len(item)}
        finally: ps.msghook = old
    return run

SETUP = """CREATE OR REPLACE FUNCTION ef(how text, c text) RETURNS int LANGUAGE plpgsql AS $$ BEGIN
 IF how = 'warn' THEN RAISE WARNING 'hm' USING ERRCODE = c, DETAIL = 'dd'; END IF;
 IF how = 'both' THEN RAISE WARNING 'hm' USING ERRCODE = '01999', DETAIL = 'dd'; END IF;
 IF how = 'notice' THEN RAISE NOTICE 'hm' USING DETAIL = 'dd'; END IF;
 IF how = 'fail' OR how = 'both' THEN RAISE EXCEPTION 'boom' USING ERRCODE = c, DETAIL = 'dd', HINT = 'hh', SCHEMA = 'ss', TABLE = 'tt', COLUMN = 'cc', DATATYPE = 'ty', CONSTRAINT = 'co'; END IF;
 RETURN 1; END $$;
CREATE TEMP TABLE t (a int); CREATE TEMP TABLE u (h text, c text, CHECK (ef(h, c) = 1));"""
DETAILS = {'detail': 'dd', 'hint': 'hh', 'schema': 'ss', 'table': 'tt', 'column': 'cc', 'datatype': 'ty', 'constraint': 'co'}

def histories(job):
    from . import live
    import postgresql.exceptions as px, postgresql.sys as ps, postgresql.message as pm
    from postgresql.python.element import prime_factor
    st = {}
    told = []
    def hook(name, takes):
        def h(m): told.append((name, m)); return takes
        return h
    class Bad(Exception): pass
    def setup():
        db = st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        db.execute(SETUP)
        P = db.prepare
        st['st'] = {}
        for op in ('call', 'first', 'rows', 'chunks', 'column', 'declare'): st['st'][op] = P('SELECT ef($1::text, $2::text) /*%s*/' % op)
        st['st']['load'] = P('INSERT INTO t SELECT ef($1::text, $2::text)')
        st['st']['unload'] = P('INSERT INTO t VALUES ($1::int)')
        for op in ('call', 'first', 'rows', 'chunks', 'column', 'declare'): st['st']['un' + op] = P('SELECT $1::int /*%s*/' % op)
        st['proc'] = db.proc('ef(text,text)')
        db.execute("SET client_min_messages = 'notice'")
    def run(walk):
        old = ps.msghook; ps.msghook = hook('system', True)
        try:
            if 'db' not in st or st['db'].closed: setup()
            db = st['db']; x = None
            for step, (act, obs, s2) in enumerate(walk['steps']):
                op, how, c = act['op'], act.get('how'), act.get('code')
                rng = random.Random(repr((walk['steps'][:step + 1],)))
                del told[:]
                lit = "SELECT ef('%s', '%s') /* %d */" % (how, c, step)
                stmt = None; obj = None; got = None
                if op == 'begin': x = db.xact(); x.start(); continue
                if op == 'rollback': x.rollback(); x = None; continue
                hooks = act['hooks']
                def hooked(s):
                    if hooks['statement'] != 'none': s.msghook = hook('statement', hooks['statement'] == 'takes')
                    return s
                if hooks['connection'] != 'none': db.msghook = hook('connection', hooks['connection'] == 'takes')
                a = (how, c)
                try:
                    if op == 'execute': db.execute(lit)
                    elif op == 'multi': db.execute('SELECT 1; ' + lit + '; SELECT 2')
                    elif op == 'prepare':
                        stmt = 'SELECT 1' if how == 'ok' else 'SELECT * FROM nothing_here' if c == '42P01' else 'SELECT * FROM FROM'
                        db.prepare(stmt)
                    elif op == 'settings': db.settings['work_mem'] = '4MB' if how == 'ok' else 'many'
                    elif op == 'proc':
                        stmt = 'proc'
                        hooked(st['proc'].statement); r = st['proc'](*a)
                        if r != 1: raise Bad('proc returned %r' % (r,))
                    elif op in ('copyout', 'copyin'):
                        stmt = 'COPY (%s) TO STDOUT' % lit if op == 'copyout' else 'COPY u FROM STDIN /* %d */' % step
                        obj = hooked(db.prepare(stmt))
                        if op == 'copyout':
                            w = rng.randrange(3)
                            r = list(obj.rows()) if w == 0 else sum(obj.chunks(), []) if w == 1 else list(obj())
                            if r != [b'1\n']: raise Bad('copying gave %r' % (r,))
                        else: (obj.load_rows if rng.random() < .5 else lambda r: obj.load_chunks([r]))([('%s\t%s\n' % a).encode()])
                    else:
                        if how == 'unsendable': op2 = 'un' + op; a = ('no number',)
                        else: op2 = op
                        obj = st['st'][op2]; stmt = obj.string
                        hooked(obj)
                        if op == 'call': r = [x[0] for x in obj(*a)]
                        elif op == 'first': r = [obj.first(*a)]
                        elif op == 'rows': r = [x[0] for x in obj.rows(*a)]
                        elif op == 'chunks': r = [x[0] for ch in obj.chunks(*a) for x in ch]
                        elif op == 'column': r = list(obj.column(*a))
                        elif op == 'load': (obj.load_rows if rng.random() < .5 else lambda r: obj.load_chunks([r]))([a]); r = [1]
                        else:
                            if x is None:
                                with db.xact(): r = [y[0] for y in obj.declare(*a).read()]
                            else: r = [y[0] for y in obj.declare(*a).read()]
                        if r != [1]: raise Bad('%s returned %r' % (op, r))
                except px.Error as e: got = e
                except Exception as e:
                    return {'fail': {'key': 'history:exception:' + op, 'msg': '%s %s %s: %r; %s' % (op, how, c, e, [s[0] for s in walk['steps'][:step + 1]])}}
                finally:
                    if 'msghook' in db.__dict__: del db.msghook
                    for s in list(st['st'].values()) + [st['proc'].statement]: s.__dict__.pop('msghook', None)
                def bad(key, what): return {'fail': {'key': key + ':' + op, 'msg': '%s; step %d of %s' % (what, step, [s[0] for s in walk['steps'][:step + 1]])}}
                def names(what, m):
                    "m was caused by this operation"
                    f = m.creator; way = []
                    while f is not None:
                        way.append(f); n = prime_factor(f); f = n[1] if n else None
                        if len(way) > 50: return bad('creator', 'creators without end')
                    if m.database is not db or db not in way: return bad('creator', '%s names %r, not the connection' % (what, way))
                    sts = [y for y in way if type(y).__name__ == 'Statement']
                    if obs['through'] == 'connection' and op != 'settings':
                        if m.creator is not db: return bad('creator', '%s names %r, expected the connection' % (what, m.creator))
                    elif op != 'settings':
                        if len(sts) != 1: return bad('creator', '%s names %r, expected a statement' % (what, way))
                        if obj is not None and sts[0] is not obj: return bad('creator', '%s names %r, expected %r' % (what, sts[0], obj))
                        if stmt == 'proc' and sts[0] is not st['proc'].statement or stmt != 'proc' and sts[0].string != stmt: return bad('creator', '%s names %r' % (what, sts[0].string))
                        if way.index(sts[0]) > way.index(db): return bad('creator', 'order of %r' % way)
                if obs['error'] == 'none':
                    if got is not None: return bad('error', 'raised %r' % got)
                else:
                    if got is None: return bad('error', 'no error, expected %s' % obs['ecode'])
                    if got.code != obs['ecode'] or type(got) is not getattr(px, obs['error']) or not all(isinstance(got, getattr(px, n)) for n in obs['above']):
                        return bad('error', 'raised %s %s, expected %s %s' % (type(got).__name__, got.code, obs['error'], obs['ecode']))
                    if got.source != ('CLIENT' if how == 'unsendable' else 'SERVER'): return bad('error:source', got.source)
                    if how in ('fail', 'both') and op not in ('prepare', 'settings'):
                        if got.message != 'boom' or any(got.details.get(k) != v for k, v in DETAILS.items()) or 'ef(text,text)' not in got.details.get('context', ''): return bad('error:fields', 'message %r, details %r' % (got.message, got.details))
                    if op == 'prepare' and how == 'fail' and got.details.get('position') != '15': return bad('error:fields', 'details %r' % got.details)
                    f = names('the error', got)
                    if f: return f
                    try: str(got), repr(got)
                    except Exception as e: return bad('str', 'str() raised %r' % e)
                if [n for n, m in told] != obs['told']: return bad('told', 'told %s, expected %s' % ([n for n, m in told], obs['told']))
                for n, m in told:
                    cls = pm.Message if obs['class'] == 'Message' else getattr(px, obs['class'])
                    if type(m) is not cls or m.code != obs['code'] or m.message != 'hm' or m.details.get('detail') != 'dd' or m.details['severity'] != ('NOTICE' if how == 'notice' else 'WARNING') or m.source != 'SERVER':
                        return bad('message', '%r, expected %s %s' % (m, obs['class'], obs['code']))
                    f = names('the message', m)
                    if f: return f
                if db.closed: return bad('closed', 'the connection is closed')
                want = {'none': 'I', 'open': 'T', 'failed': 'E'}[s2['xact']]
                if db.pq.state != want.encode(): return bad('state', 'the state of the connection is %r, expected %s' % (db.pq.state, want))
                if want != 'E' and rng.random() < .3:
                    if db.query('SELECT 7 AS x') != [(7,)] or db.execute('SELECT 1') is not None: return bad('unusable', 'query')
            if x is not None: x.rollback()
            return {'steps': len(walk['steps'])}
        except BaseException:
            st.pop('db', None)
            raise
        finally: ps.msghook = old
    return run

OPS = {'execute', 'multi', 'prepare', 'call', 'first', 'rows', 'chunks', 'column', 'load', 'declare', 'copyout', 'copyin', 'proc', 'settings'}
FIELDS = {'message', 'detail', 'hint', 'context', 'position', 'internal_position', 'internal_query', 'file', 'line', 'function', 'schema', 'table', 'column', 'datatype', 'constraint'}
def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

def run(ctx):
    from vlib import tlc, pool, pgserver, walk
    T = ctx.thorough
    base = {'Symbols': frozenset('0'), 'Endings': frozenset(['']), 'Fields': frozenset(['hint']), 'MaxFields': 0, 'Kinds': frozenset(['ascii']), 'Ops': frozenset(['call']), 'Codes': frozenset(['23505']), 'Answers': frozenset(['none'])}
    sym = frozenset('0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ' if T else '0123456789ADFHLPSUVXZ') | frozenset('-')
    s, t, e = tlc.run(ctx, 'Errors', dict(base, Symbols=sym, Endings=frozenset(['', '0', '000', '001', '00Z', 'P01', 'ZZZ'])), ['Specific'], [], spec='CSpec')
    items = {o['code']: o for _, a, o, _ in e if a['op'] == 'lookup'}
    ctx.log('codes', len(items))
    pool.replay(ctx, 'checks.p22', chunks(sorted(items.values(), key=lambda o: o['code']), 500), {}, func='lookups', key_prefix='code:')
    ctx.sample({'code': '42P01', 'expected': items.get('42P01')})
    s, t, e = tlc.run(ctx, 'Errors', dict(base, Fields=frozenset(FIELDS), MaxFields=3 if T else 1, Kinds=frozenset(['ascii', 'utf8', 'bad', 'empty', 'quotes', 'long']), Codes=frozenset(['23505', '42601', '01003', '01P01', '55000', '57P01', 'ZZ999', '22P02'] if T else ['23505', '01003', '57P01'])), ['Apart'], [], spec='MSpec', heap='6g')
    ms = [o for _, a, o, _ in e if a['op'] == 'send']
    ctx.rng.shuffle(ms); ms = ms[:200000 if T else 9000]
    ctx.log('messages', len(ms))
    ctx.sample(ms[len(ms) // 2])
    pool.replay(ctx, 'checks.p22', chunks(ms, 100), {}, func='messages', key_prefix='message:')
    h = dict(base, Ops=frozenset(OPS), Codes=frozenset(['23505', 'P0001', '57P01', '08006', '99999'] + (['22012', 'XX000', '40001', 'ZZ999', '25P02'] if T else [])), Answers=frozenset(['none', 'passes', 'takes']))
    s, t, e = tlc.run(ctx, 'Errors', h, [], ['Keeps'], spec='HSpec', coverage_required=OPS | {'begin', 'rollback'})
    ctx.log('histories', s, t)
    ctx.pg = pgserver.Server(ctx, options=[])
    ctx.pg.databases(8)
    g = walk.Graph(e, [{'xact': 'none', 'last': 'none'}])
    ws, k = g.cover(ctx.rng, 60)
    ws += g.random_walks(ctx.rng, 2000 if T else 60, 60)
    ctx.log('walks', len(ws))
    pool.replay(ctx, 'checks.p22', [g.expand(w) for w in ws], {'sock': ctx.pg.sock}, func='histories', key_prefix='history:')
