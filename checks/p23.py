"""P23: control of clusters (specs/Cluster.tla)."""
TECHNIQUE = 'TLA+ model (Cluster) of a data directory, its lock file, the server processes and an object controlling them; TLC explores every interleaving of operations with processes booting, locking, getting ready, ending and crashing, other programs starting servers and lock files left by others; the transitions are covered by replay on the real code with real processes standing in for the server, whose signals, arguments and ends are observed, and a server port that answers as the phase requires'
LEVEL_NOTE = 'Every reachable state and operation of the model: one controlling object at a time, at most one other server, lock files naming the server, a process that is gone, a process of another user, a standalone backend or nothing, contexts nested up to 2 deep, events during waits. The identity of live processes of the same user that happen to have the number in a lock file is not examined (neither does pg_ctl). The thorough tier covers all transitions and random walks.'

SIGS = {15: 'TERM', 2: 'INT', 9: 'KILL', 1: 'HUP'}
HOW = {'options': {'user': 'jo e', 'encoding': 'latin-1'}, 'password': {'password': "s'ecret"}, 'both': {'user': 'u', 'password': 'p\u00e4ss', 'authentication': 'md5', 'extra_arguments': ['--locale=C', 7]}}
INITDB = r'''#!/bin/sh
d=
for a; do printf '%s\n' "$a" >> "$FE_INITLOG"; case "$p" in -D) d="$a";; esac; case "$a" in --pwfile=*) printf 'PW:' >> "$FE_INITLOG"; cat "${a#--pwfile=}" >> "$FE_INITLOG"; echo >> "$FE_INITLOG";; esac; p="$a"; done
case "$FE_INITDB" in fails) printf 'it \377 failed\n' >&2; exit 1;; hangs) exec sleep 60;; esac
if [ -e "$d/postgresql.conf" ] && [ -d "$d/base" ]; then echo exists >&2; exit 1; fi
mkdir -p "$d/base/1" && echo "port = $FE_PORT" > "$d/postgresql.conf" && echo "listen_addresses = 'localhost'" >> "$d/postgresql.conf"
'''

class Wrong(Exception): pass

class Stub:
    def __init__(self, sock, pid, args, reap):
        self.sock, self.pid, self.args, self.reap, self.sigs, self.dead = sock, pid, args, reap, [], False
    def poll(self):
        "the signals that arrived since; notices its death"
        import socket
        if self.dead: return []
        try:
            self.sock.sendall(b'q'); b = b''
            while not b.endswith(b'\n'):
                x = self.sock.recv(200)
                if not x: raise OSError('gone')
                b += x
            return [int(x) for x in b.split()]
        except OSError:
            self.gone(); return [9]
    def gone(self):
        import os
        self.dead = True; self.sock.close()
        if self.reap: self.reap()
        else:
            try: os.waitid(os.P_PID, self.pid, os.WEXITED | os.WNOWAIT)
            except ChildProcessError: pass
    def exit(self, code):
        try: self.sock.sendall(b'x' + bytes([code]))
        except OSError: pass
        self.gone()
    def crash(self):
        import os
        try: os._vp_kill(self.pid, 9)
        except ProcessLookupError: pass
        self.gone()

class World:
    "what is around the object under test"
    def __init__(self, base):
        import os, socket, threading, random
        self.base = base; self.dir = base + '/data'; self.lock = threading.RLock()
        self.ctl = socket.socket(socket.AF_UNIX); self.ctl.bind(base + '/ctl'); self.ctl.listen(20)
        os.environ['FE_CTL'] = base + '/ctl'; os.environ['FE_INITLOG'] = base + '/initlog'
        self.port = 0; self.listener = None
        for p in random.Random(os.getpid()).sample(range(11000, 31000), 400):
            try: s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(('127.0.0.1', p)); s.close(); self.port = p; break
            except OSError: continue
        os.environ['FE_PORT'] = str(self.port)
        self.phase = 'none'; self.contacts = []
        self.own = self.ext = self.broken = None; self.busy = False; self.log = []; self.stubs = []
    def reset(self, made, conf=''):
        import os, shutil
        for s in self.stubs:
            if not s.dead: s.crash()
        self.drain()
        self.stubs = []; self.own = self.ext = None; self.busy = False; self.log = []
        self.setphase('none')
        for p in (self.dir, self.base + '/outside'): shutil.rmtree(p, ignore_errors=True)
        os.mkdir(self.base + '/outside'); open(self.base + '/outside/keep', 'w').close()
        if made:
            os.makedirs(self.dir + '/base/1')
            with open(self.dir + '/postgresql.conf', 'w') as f: f.write("port = %d\n%s" % (self.port, conf))
    def drain(self):
        self.ctl.settimeout(0)
        while True:
            try: c, _ = self.ctl.accept(); c.close()
            except OSError: break
    def accept(self, timeout, reap=None):
        self.ctl.settimeout(timeout)
        try: c, _ = self.ctl.accept()
        except OSError: return None
        c.settimeout(10); b = b''
        while not b.endswith(b'\0\n'): 
            x = c.recv(4096)
            if not x: return None
            b += x
        parts = b[:-2].split(b'\0')
        s = Stub(c, int(parts[0]), [x.decode() for x in parts[1:]], reap)
        self.stubs.append(s); return s
    # -- the port
    def setphase(self, phase):
        import socket, threading, time
        up = phase != 'none'; old = self.phase; self.phase = phase
        if up and self.listener is None:
            for i in range(500):
                s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                try: s.bind(('127.0.0.1', self.port)); s.listen(20); break
                except OSError:
                    s.close(); time.sleep(0.01)
                    if i == 499: raise
            self.listener = s
            threading.Thread(target=self.serve, args=(s,), daemon=True).start()
        elif not up and self.listener is not None:
            l, self.listener = self.listener, None
            try: l.shutdown(socket.SHUT_RDWR)
            except OSError: pass
            l.close()
    def serve(self, l):
        import struct
        while True:
            try: c, _ = l.accept()
            except OSError: return
            try:
                c.settimeout(5)
                while True:
                    n = c.recv(4)
                    if len(n) < 4: break
                    m = b''; size = struct.unpack('!L', n)[0] - 4
                    while len(m) < size:
                        x = c.recv(size - len(m))
                        if not x: break
                        m += x
                    if m[:4] == b'\x04\xd2\x16\x2f': c.sendall(b'N'); continue
                    ph = self.phase
                    self.contacts.append(ph)
                    code, text = (b'28000', b'no such user') if ph == 'ready' else (b'57P03', b'the database system is not ready')
                    body = b'SFATAL\0C' + code + b'\0M' + text + b'\0\0'
                    c.sendall(b'E' + struct.pack('!L', len(body) + 4) + body)
                    break
            except OSError: pass
            finally: c.close()
    # -- the lock file
    def file(self): return self.dir + '/postmaster.pid'
    def putfile(self, text):
        with open(self.file(), 'w') as f: f.write(text)
    def nofile(self):
        import os
        if os.path.exists(self.file()): os.unlink(self.file())
    # -- events
    def lockable(self):
        import os
        if not (os.path.isdir(self.dir + '/base') and os.path.exists(self.dir + '/postgresql.conf')): return False
        if self.ext or (self.own and self.phase != 'none'): return False
        try: t = open(self.file()).readline()
        except OSError: return True
        try: n = int(t)
        except ValueError: return False
        return n > 0
    def takes(self, stub):
        self.putfile('%d\n%s\n%d\n5432\n\nlocalhost\n  1 2\nstarting\n' % (stub.pid, self.dir, 1700000000)); self.setphase('starting')
    def lockown(self):
        if self.lockable(): self.takes(self.own)
        else: self.own.exit(1); self.own = None
    def holder(self): return self.ext or (self.own if self.phase != 'none' else None)
    def end(self):
        h = self.holder(); self.nofile(); self.forget(h); h.exit(0)
    def crash(self):
        h = self.holder(); self.forget(h); h.crash()
    def forget(self, h):
        self.setphase('none'); self.busy = False
        if h is self.ext: self.ext = None
        else: self.own = None
    def bootgone(self, code):
        o, self.own = self.own, None
        if code == 9: o.crash()
        else: o.exit(code)
    def up(self):
        if self.own and self.holder() is None:
            self.lockown()
            if self.own: self.setphase('ready')
        elif self.phase == 'starting': self.setphase('ready')
    def name(self, s): return 'own' if s is self.own else 'ext'
    def collect(self):
        "signals received, and what they do"
        for s in [x for x in (self.own, self.ext) if x]:
            for n in s.poll():
                self.log.append({'to': self.name(s), 'sig': n})
                if n == 1: continue
                if s is self.holder():
                    if n == 9: self.forget(s)
                    else:
                        self.setphase('stopping')
                        if n == 2: self.busy = False
                elif n == 9: self.own = None
                else: self.own.exit(0); self.own = None
                if s.dead: break
    def loop(self, mode, stop):
        "runs beside an operation: servers get up and end by themselves"
        try: self.loop_(mode, stop)
        except BaseException as e: self.broken = e
    def loop_(self, mode, stop):
        while not stop.is_set():
            with self.lock:
                s = self.accept(0.001)
                if s:
                    if self.own: self.log.append({'to': 'second', 'sig': 0})
                    self.own = s; self.spawned = s; self.up()
                self.collect()
                if self.phase == 'stopping' and not self.busy and mode != 'stubborn': self.end()
            stop.wait(0.002)

def worker(job):
    import os, sys, random, shutil, signal, subprocess, threading, time, warnings, errno
    warnings.simplefilter('ignore')
    base = job['scratch'] + '/w%d' % job['worker']
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base + '/bin'); os.makedirs(base + '/tmp')
    os.chdir(base); os.environ['TMPDIR'] = base + '/tmp'
    for k in list(os.environ):
        if k.startswith('PG'): del os.environ[k]
    shutil.copy(job['daemon'], base + '/bin/postgres')
    with open(base + '/bin/initdb', 'w') as f: f.write(INITDB)
    os.chmod(base + '/bin/initdb', 0o755)
    w = World(base)
    astray = []
    os._vp_kill = os.kill
    def kill(pid, sig):
        "signals only ever go to the processes of this check"
        if sig == 0 or pid in [s.pid for s in w.stubs if not s.dead] or pid in kids: return os._vp_kill(pid, sig)
        astray.append((pid, int(sig)))
        raise ProcessLookupError(errno.ESRCH, 'No such process')
    kids = set()
    os.kill = kill; os.killpg = lambda pg, sig: kill(-pg, sig)
    realpopen = subprocess.Popen
    class Popen(realpopen):
        def __init__(self, *a, **k):
            super().__init__(*a, **k); kids.add(self.pid)
    subprocess.Popen = Popen
    from postgresql import cluster as pg_cluster, installation, exceptions as pg_exc
    from postgresql.cluster import Cluster, ClusterError, ClusterTimeoutError, ClusterNotRunningError, ClusterStartupError, InitDBError
    inst = installation.Installation({'bindir': base + '/bin', 'version': 'PostgreSQL 16.4', 'configure': ''})
    class C(Cluster):
        T = 20
        def wait_until_started(self, timeout=None, delay=0.01): return super().wait_until_started(timeout=timeout or self.T, delay=delay)
        def wait_until_stopped(self, timeout=None, delay=0.01): return super().wait_until_stopped(timeout=timeout or self.T, delay=delay)
    p = realpopen(['/bin/true']); p.wait(); gonepid = p.pid

    def run(item):
        rng = random.Random('%s/%s/%s' % (job['seed'], job['worker'], item.get('seed', 0)))
        steps = item['steps']
        for s in w.stubs:
            if s.reap is None and not s.dead: s.crash()
        w.reset(True, rng.choice(['', "listen_addresses = 'localhost'\n", "#listen_addresses = 'x'\nlisten_addresses = 'a.invalid, LOCALHOST'\n", "listen_addresses = '*'\n", "listen_addresses = '127.0.0.1'\n"])); kids.clear(); del astray[:]
        c = C(inst, w.dir); old = []; opened = []
        links(rng)
        n = 0
        try:
            for act, obs, s2 in steps:
                try:
                    got = step(c, act, obs, s2, rng, old, opened)
                except Wrong as e:
                    return {'fail': {'key': key(act, str(e)), 'msg': 'step %d %r of %r\nexpected %r then %r\n%s' % (n, act, [x[0]['op'] for x in steps[:n]], obs, s2, e)}}
                c = got or c
                n += 1
            return {'steps': n}
        finally:
            for d in [c.daemon_process] + [x.daemon_process for x in old]:
                if d is not None and d.poll() is None: os._vp_kill(d.pid, 9); d.wait()
            w.reset(False)
    def key(act, e): return '%s:%s' % (act['op'], e.split(':')[0])

    def links(rng):
        "things found in data directories"
        os.symlink(base + '/outside', w.dir + '/base/link'); os.makedirs(w.dir + '/pg_tblspc', exist_ok=True)
        os.symlink(base + '/outside', w.dir + '/pg_tblspc/16384'); os.symlink(base + '/outside/keep', w.dir + '/base/1/filelink')
        if rng.random() < 0.5: os.symlink(base + '/nowhere', w.dir + '/pg_wal')
        open(w.dir + '/base/1/1259', 'w').close()

    def expect(name, got, want):
        if got != want: raise Wrong('%s: %r instead of %r' % (name, got, want))
    def outcome(f):
        try: return 'ok', f()
        except ClusterNotRunningError as e: return 'notrunning', e
        except ClusterStartupError as e: return 'terminated', e
        except ClusterTimeoutError as e: return 'timeout', e
        except InitDBError as e: return 'initdberror', e
        except pg_exc.ServerNotReadyError as e: return 'notready', e
        except pg_exc.ClientCannotConnectError as e: return 'cannot', e
        except TypeError as e: return 'typeerror', e
        except OSError as e: return 'oserror', e

    def step(c, act, obs, s2, rng, old, opened):
        op = act['op']; w.log = []; w.spawned = None
        if op.startswith('e-'):
            if op == 'e-lock': w.lockown()
            elif op == 'e-ready': w.setphase('ready')
            elif op == 'e-end': w.end()
            elif op == 'e-crash': w.crash()
            elif op == 'e-bootcrash': w.bootgone(9)
            elif op == 'e-ext':
                p = realpopen([base + '/bin/postgres', '-D', w.dir], stderr=subprocess.DEVNULL)
                s = w.accept(10, p.wait); w.ext = s; w.takes(s)
            elif op == 'e-client': w.busy = True
            elif op == 'e-leave': w.busy = False
            elif op == 'e-mkdir':
                os.mkdir(w.dir); k = rng.randrange(3)
                if k == 1: os.mkdir(w.dir + '/base')
                if k == 2: open(w.dir + '/postgresql.conf', 'w').close()
            elif op == 'e-file':
                f = act['f']
                if f == 'none': w.nofile()
                else: w.putfile({'stale': '%d\n' % gonepid, 'neg': '-%d\n%s\n' % (w.stubs and w.stubs[-1].pid or gonepid, w.dir) if rng.random() < 0.7 else '0\n', 'other': '1\n/\n', 'garbage': rng.choice(['', '\n', 'pid', ' \n', '12x4\n'])}[f])
            elif op == 'e-new':
                if c.daemon_process is not None:
                    old.append(c)
                    if w.own: w.own.reap = c.daemon_process.wait; w.ext, w.own = w.own, None
                    else: c.daemon_process.wait()
                return C(inst, w.dir)
            after(c, act, obs, s2, False); return
        before = c.daemon_process; c.T = 20; prev = dict(running=bool(w.own or w.ext))
        if op == 'start':
            kw = {}; extra = []
            if act['m'] == 'settings':
                d = {'work_mem': '64kB', 'search_path': "a, 'b c'", 'port': 1234}
                kw['settings'] = rng.choice([d, list(d.items())]); extra = ['--%s=%s' % x for x in d.items()]
            if act['m'] == 'logfile':
                lf = open(base + '/log', 'w+'); opened.append(lf); kw['logfile'] = lf
            r, e = outcome(lambda: c.start(**kw)); expect('result', r, obs['res'])
            if c.daemon_process is not before:
                s = w.accept(10)
                if s is None: raise Wrong('spawned: nothing was started')
                if w.own: s.crash(); raise Wrong('spawned: a second server')
                w.own = s; expect('pid of the daemon', c.daemon_process.pid, s.pid)
                expect('arguments', s.args, [base + '/bin/postgres', '-D', w.dir] + extra)
                if act['m'] == 'logfile': lf.seek(0); expect('log', lf.read(), 'daemon says hello\n')
            while opened: opened.pop().close()
            expect('spawned', c.daemon_process is not before, obs['spawned'])
            w.collect()
        elif op in ('stop', 'shutdown', 'kill', 'reload'):
            r, e = outcome(getattr(c, op)); expect('result', r, obs['res']); w.collect()
        elif op in ('running', 'pid', 'state', 'ready', 'initialized', 'metas'):
            try: v = {'running': lambda: c.running(), 'pid': lambda: c.pid, 'state': lambda: c.state, 'ready': lambda: c.ready_for_connections(), 'initialized': lambda: c.initialized(), 'metas': lambda: dict(c._e_metas())}[op]()
            except Exception as e: raise Wrong('raised %s: %r' % (type(e).__name__, e))
            want = obs['val']
            if op in ('pid', 'metas') and want in ('own', 'ext'): want = (w.own if want == 'own' else w.ext).pid
            if op == 'pid' and want == 'none': want = None
            if op in ('running', 'ready', 'initialized'): want = {'True': True, 'False': False, 'None': None}[want]
            if op == 'metas':
                v = v.get('pid', v.get(None, '')); v = v.strip('[]') if isinstance(v, str) else v
            if type(v) is not type(want) or v != want: raise Wrong('value: %r instead of %r' % (v, want))
            w.collect()
        elif op == 'connect':
            del w.contacts[:]
            r, e = outcome(lambda: c.connect(user='u', database='d'))
            if r == 'oserror' and not os.path.exists(w.dir + '/postgresql.conf'): r = 'refused'
            if r == 'cannot': r = 'reached' if w.contacts and set(w.contacts) == {'ready'} else 'refused'
            if r == 'notrunning' and w.contacts: raise Wrong('contacted: nothing is running')
            expect('result', r, obs['res'])
            w.collect()
        elif op in ('wait-started', 'wait-stopped'):
            ev = act['ev']; t = None
            if ev != 'none':
                def happen():
                    time.sleep(rng.choice([0.0, 0.01, 0.03]))
                    with w.lock:
                        if ev == 'up': w.up()
                        elif ev == 'crash': w.crash() if w.holder() else w.bootgone(9)
                        else: w.end()
                t = threading.Thread(target=happen); t.start()
            # a server that remains is waited for until the time is over
            timeout = 20 if obs['res'] not in ('timeout', 'notready') else (0.02 if ev == 'none' else 0.2)
            r, e = outcome(lambda: (c.wait_until_started if op == 'wait-started' else c.wait_until_stopped)(timeout=timeout))
            if t: t.join()
            waited(r, e, obs, c)
            if op == 'wait-stopped' and r == 'ok' and s2['own'] == 'dead': expect('exit code', c.last_exit_code, ret(s2['code']))
            w.collect()
        elif op in ('enter', 'exit', 'restart', 'drop'):
            c.T = 20
            if obs['res'] == 'timeout': c.T = 0.05
            if act.get('how') == 'stubborn': c.T = 0.1
            ev = threading.Event(); th = threading.Thread(target=w.loop, args=(act.get('how', 'auto'), ev)); th.start()
            extra = []
            try:
                if op == 'enter':
                    r, e = outcome(lambda: c.__enter__())
                    if r == 'ok' and e is not c: raise Wrong('entered: %r' % (e,))
                elif op == 'exit':
                    x = ValueError('x') if act['exc'] else None
                    r, e = outcome(lambda: c.__exit__(type(x) if x else None, x, None))
                    if r == 'ok' and e: raise Wrong('swallowed: exit returned %r' % (e,))
                elif op == 'restart':
                    kw = {}
                    if act['m'] == 'settings': kw = {'settings': {'work_mem': '1MB'}}; extra = ['--work_mem=1MB']
                    r, e = outcome(lambda: c.restart(timeout=c.T, **kw))
                else: r, e = outcome(lambda: c.drop())
            finally: ev.set(); th.join()
            if w.broken: raise RuntimeError('harness') from w.broken
            if c.daemon_process is not before and w.spawned is None:
                s = w.accept(10); w.spawned = s
            w.collect()
            waited(r, e, obs, c)
            expect('spawned', w.spawned is not None, obs['spawned'])
            if w.spawned: expect('arguments', w.spawned.args, [base + '/bin/postgres', '-D', w.dir] + extra)
            if op == 'drop' and obs['res'] == 'ok':
                if os.path.lexists(w.dir): raise Wrong('left: directory remains')
                if not os.path.exists(base + '/outside/keep'): raise Wrong('outside: files outside of the directory were removed')
        elif op == 'init':
            how = act['how']; kw = dict(HOW.get(how, {}))
            os.environ['FE_INITDB'] = how
            if os.path.exists(base + '/initlog'): os.unlink(base + '/initlog')
            if how == 'hangs': kw['timeout'] = 0.1
            if how == 'unknown': kw['colour'] = 'blue'
            t0 = time.time(); r, e = outcome(lambda: c.init(**kw)); expect('result', r, obs['res'])
            if how == 'hangs' and time.time() - t0 > 30: raise Wrong('hang: initdb was not given up')
            args = open(base + '/initlog', encoding='utf-8' if how != 'x' else None).read().split('\n')[:-1] if os.path.exists(base + '/initlog') else []
            if how == 'unknown':
                if args: raise Wrong('ran: initdb despite the unknown option')
            else:
                pw = [a[3:] for a in args if a.startswith('PW:')]; pf = [a for a in args if a.startswith('--pwfile=')]
                expect('password', pw, [kw['password']] if 'password' in kw else [])
                if pf and os.path.exists(pf[0][9:]): raise Wrong('password: file was left')
                got = [a for a in args if a not in pf and not a.startswith('PW:')]
                expect('directory', got[:2], ['-D', w.dir]); got = got[2:]
                opts = {}
                x = kw.get('extra_arguments', [])
                if x: expect('extra', got[-len(x):], [str(y) for y in x]); got = got[:-len(x)]
                opts = dict(zip(got[::2], got[1::2]))
                want = {'-E': kw.get('encoding', 'utf-8')}
                if 'user' in kw: want['-U'] = kw['user']
                if 'authentication' in kw: want['-A'] = kw['authentication']
                expect('options', opts, want)
            if os.listdir(base + '/tmp'): raise Wrong('temporary: files remain %r' % os.listdir(base + '/tmp'))
            if obs['res'] == 'ok': links(rng)
            w.collect()
        after(c, act, obs, s2, True)

    def ret(code): return -9 if code == 9 else code
    def waited(r, e, obs, c):
        if obs['res'] == 'gone' and r in ('notrunning', 'terminated'): return
        expect('result', r, obs['res'])
        if r == 'terminated': expect('exit code', e.details.get('RESULT'), ret(obs['code']))
    def after(c, act, obs, s2, op):
        if astray: raise Wrong('astray: signals to %r' % (astray,))
        expect('signals', w.log, obs['sigs'])
        st = {'ext': w.ext is not None, 'phase': w.phase, 'busy': w.busy, 'own': 'none' if w.own is None else 'up' if w.phase != 'none' and w.ext is None else 'boot'}
        want = {'ext': s2['ext'], 'phase': s2['phase'], 'busy': s2['busy'], 'own': s2['own'] if s2['own'] in ('boot', 'up') else 'none'}
        expect('state', st, want)
        d = os.path.isdir(w.dir); expect('directory', d, s2['dir'] != 'void')
        if op:
            if s2['own'] == 'none': expect('process', c.daemon_process, None)
            elif s2['own'] == 'dead' and act['op'] in ('running', 'pid', 'state', 'ready', 'wait-stopped', 'stop', 'kill'):
                if act['op'] in ('stop', 'kill') and obs['sigs']: return
                c.running(); expect('exit code', c.daemon_process.returncode, ret(s2['code']))
            elif s2['own'] in ('boot', 'up'): expect('process', c.daemon_process and c.daemon_process.pid, w.own.pid)
    return run

def run(ctx):
    import os, subprocess
    from vlib import tlc, walk, pool
    from vlib.core import VERIF, Machinery
    T = ctx.thorough
    exe = ctx.scratch + '/daemon'
    r = subprocess.run(['gcc', '-O1', '-o', exe, os.path.join(VERIF, 'data', 'daemon.c')], capture_output=True, text=True)
    if r.returncode: raise Machinery('cannot build the stand-in: ' + r.stderr)
    d = ctx.scratch + '/run'; os.mkdir(d); os.chmod(d, 0o777); os.chmod(ctx.scratch, 0o755)
    inv = ['OneHolder', 'FileNamesHolder', 'Phased', 'DeadHasCode']
    props = ['SignalsServer', 'AsksOnly', 'StartsOnce', 'LeavesRunning', 'StopsPolitely', 'DropsAll', 'WaitedIsReady', 'WaitedIsGone']
    for name, ops, cap, nrand in (('all', ['ext', 'files', 'contexts', 'init'], 900, 300),):
        _, _, edges = tlc.run(ctx, 'Cluster', {'MaxStack': 2, 'Ops': frozenset(ops)}, invariants=inv, properties=props,
            coverage_required=['start', 'running', 'pid', 'wait-started', 'wait-stopped', 'enter', 'exit', 'restart', 'init', 'drop', 'e-lock', 'e-ext', 'e-new', 'e-file'])
        g = walk.Graph(edges)
        ws, k = g.cover(ctx.rng, maxlen=30)
        n = len(ws)
        if not T and n > cap: ctx.rng.shuffle(ws); ws = ws[:cap]
        ws += g.random_walks(ctx.rng, nrand * (8 if T else 1), 40)
        items = []
        for i, x in enumerate(ws):
            if x:
                it = g.expand(x); it['seed'] = i; items.append(it)
        ctx.log('%s: %d transitions, %d of %d walks' % (name, len(edges), len(items), n))
        pool.replay(ctx, 'checks.p23', items, {'scratch': d, 'daemon': exe}, limit=90, user='pgtest')
