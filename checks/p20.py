"""P20: connection parameters (specs/Params.tla, specs/Passfile.tla, specs/Locator.tla)."""
TECHNIQUE = 'TLA+ models of where connection parameters come from and which definition wins (Params), of the lines of password files (Passfile) and of the parameters a locator text denotes (Locator); TLC enumerates every combination of up to N definitions over all sources, every line up to a length, and every string of reserved, escaped and ordinary characters in every component; the real functions are run on each, and the locators they produce are judged by TLC'
LEVEL_NOTE = 'Every combination of up to 3 (thorough: 4) definitions over given parameters, environment, service files in three places, command-line options and locators, and for open() locator and keywords, with password files of up to 2 lines; all lines of up to 8 (9) pieces; every string of 2 (3) characters over 13, in every spelling, in each of 11 components, in several contexts. Ports without hosts, passwords without users and settings without values are not part of locators; unix socket and host given by equally explicit sources conflict and are excluded.'

FIELD = {'user': 'user', 'host': 'host', 'hostaddr': 'host', 'port': 'port', 'unix': 'unix', 'database': 'database', 'password': 'password', 'sslmode': 'sslmode', 'requiressl': 'sslmode', 'timeout': 'connect_timeout', 'passfile': 'pgpassfile'}
ENV = {'user': 'USER', 'host': 'HOST', 'hostaddr': 'HOSTADDR', 'port': 'PORT', 'database': 'DATABASE', 'password': 'PASSWORD', 'sslmode': 'SSLMODE', 'requiressl': 'REQUIRESSL', 'notssl': 'REQUIRESSL', 'timeout': 'CONNECT_TIMEOUT', 'tz': 'TZ', 'passfile': 'PASSFILE'}
SETTING = {'tz': 'timezone', 'setting': 'work_mem'}

def worker(job):
    import os, sys, io, random, shutil, getpass
    from urllib.parse import quote
    base = job['scratch'] + '/c%d' % job['worker']
    shutil.rmtree(base, ignore_errors=True)
    home = base + '/~vpscratch'
    os.makedirs(home); os.makedirs(base + '/sys'); os.chdir(base)
    for k in list(os.environ):
        if k.startswith('PG') or k in ('USER', 'LNAME', 'USERNAME'): del os.environ[k]
    os.environ['LOGNAME'] = 'vpscratch'; os.environ['HOME'] = home
    sys.argv = ['prog']
    import postgresql
    from postgresql import clientparameters as cp, iri as pgiri
    from postgresql.driver import default as driver
    from postgresql.exceptions import Error
    def value(key, n):
        if key == 'user': return 'vpscratch' if n == 0 else 'u%d' % n
        if key in ('host', 'hostaddr'): return 'localhost' if n == 0 else 'h%d' % n
        if key == 'port': return '5432' if n == 0 else str(5000 + n)
        if key == 'database': return 'd:%d\\b' % n
        if key == 'password': return 'p@%d' % n
        if key == 'sslmode': return ['prefer', 'allow', 'disable'][n % 3]
        if key == 'requiressl': return '1'
        if key == 'notssl': return '0'
        if key == 'timeout': return str(10 + n)
        if key == 'tz': return 'Zone/%d' % n
        if key == 'setting': return '%dkB' % n
        if key == 'unix': return base + '/s:%d' % n
        if key == 'passfile': return home + '/.pgpass' if n == 0 else base + '/pf%d' % n
    def iri(rng, ds):
        d = {x['key']: quote(value(x['key'], x['val']), safe='') for x in ds}
        q = []
        def driver(k):
            if k in d: q.append('[%s]=%s' % (FIELD[k], d.pop(k)))
        for k in ('sslmode', 'timeout', 'passfile'): driver(k)
        for k in SETTING:
            if k in d: q.append('%s=%s' % (SETTING[k], d.pop(k)))
        if 'user' not in d or rng.random() < 0.2: driver('password')
        if 'host' not in d or rng.random() < 0.2: driver('port')
        if rng.random() < 0.2: driver('user'); driver('password')
        t = rng.choice(['pq://', 'postgresql://', 'postgres://'])
        if 'user' in d: t += d['user'] + (':' + d['password'] if 'password' in d else '') + '@'
        if 'unix' in d:
            if rng.random() < 0.5: t += '[unix:' + d['unix'].replace('%2F', ':') + ']'
            else: driver('unix')
        if 'host' in d: t += d['host'] + (':' + d['port'] if 'port' in d else '')
        if 'database' in d: t += '/' + d['database']
        rng.shuffle(q)
        return t + ('?' + '&'.join(q) if q else '')
    OPT = {'user': ('-U', '--username='), 'host': ('-h', '--host='), 'port': ('-p', '--port='), 'database': ('-d', '--database'), 'unix': ('--unix', '--unix='), 'sslmode': ('--ssl-mode', '--ssl-mode='), 'tz': ('-s', '--setting='), 'setting': ('-s', '-s')}
    def one(o, rng):
        defs = o['defs']; mode = o['mode']
        for f in os.listdir(base):
            if os.path.isfile(f): os.unlink(f)
        for f in ('.pgpass', '.pg_service.conf'):
            if os.path.exists(home + '/' + f): os.unlink(home + '/' + f)
        for f in os.listdir(base + '/sys'): os.unlink(base + '/sys/' + f)
        prefix = 'PG'; env = {}
        if mode != 'open' and rng.random() < 0.3: prefix = 'SRC_'; env['PGUSER'] = 'nobody'; env['PGDATABASE'] = 'nowhere'
        kw = {}
        for d in defs:
            if d['src'] == 'env': env[prefix + ENV[d['key']]] = value(d['key'], d['val']) + (' ' if d['key'] == 'requiressl' and rng.random() < 0.5 else '')
        # service files
        files = {'over': base + '/my services', 'user': home + '/.pg_service.conf', 'sys': base + '/sys/pg_service.conf'}
        used = o['places']
        missing = mode != 'open' and not used and not o['lines'] and rng.random() < 0.1
        for pl in files:
            if pl in used or (pl != 'over' and rng.random() < 0.3):
                lines = []
                if pl in used:
                    for d in defs:
                        if d['src'] == pl:
                            k = SETTING.get(d['key']) or (rng.choice(['dbname', 'database']) if d['key'] == 'database' else 'hostaddr' if d['key'] == 'hostaddr' else FIELD[d['key']])
                            lines.append(k + rng.choice(['=', ' = ', ' : ' if k != 'dbname' else '=']) + value(d['key'], d['val']))
                    lines.insert(0, '[svc]')
                other = ['[other]', 'user=nobody', 'dbname=nowhere', 'work_mem=1']
                parts = [lines, other] if lines else [other]
                rng.shuffle(parts)
                open(files[pl], 'w').write('# services\n' + '\n\n'.join('\n'.join(x) for x in parts) + '\n')
        if used or missing:
            env[prefix + 'SERVICE'] = 'svc'
            if mode == 'open' or rng.random() < 0.5: env['PGSYSCONFDIR'] = base + '/sys'
            elif 'sys' in used or rng.random() < 0.5: kw['default_pg_sysconfdir'] = base + '/sys'
            if mode != 'open' and rng.random() < 0.2 and 'PGSYSCONFDIR' in env: kw['default_pg_sysconfdir'] = '/nonexistent'
            if 'over' in used:
                if mode == 'open' or rng.random() < 0.5: env['PGSERVICEFILE'] = files['over']
                else: kw['pg_service_file'] = files['over']
        # expected
        want = {}
        for k, n in o['want'].items():
            if n < 0 or k == 'passfile': continue
            if k in SETTING: want.setdefault('settings', {})[SETTING[k]] = value(k, n)
            else:
                src = [d for d in defs if d['val'] == n and n > 0]
                want[FIELD[k]] = 'require' if src and src[0]['key'] == 'requiressl' else value(k, n)
        for d in defs:
            if d['key'] == 'passfile':
                open(value('passfile', d['val']), 'w').write('*:*:*:*:file%d\n' % d['val'])
        pwfile = o['want']['passfile']
        if pwfile < 0 and o['password']['given'] < 0: pass
        if o['lines']:
            esc = lambda x: x.replace('\\', '\\\\').replace(':', '\\:')
            text = rng.choice(['', '# a comment\n\n', '#h:1:d:u:p\n', 'a:b\n'])
            u = want.get('user'); cur = {'user': u, 'host': want.get('host', 'localhost'), 'port': want.get('port', '5432'), 'database': want.get('database', u)}
            for l in o['lines']:
                text += ':'.join({'*': '*', 'other': 'zz', 'same': esc(cur[f])}[l[f]] for f in ('host', 'port', 'database', 'user')) + ':' + esc('p:%d\\' % l['pw']) + rng.choice(['\n', '\n', '\n\n'])
            open(value('passfile', pwfile), 'w').write(text.rstrip('\n') if rng.random() < 0.2 else text)
        if o['password']['given'] < 0:
            if o['lines']: 
                if o['password']['line'] > 0: want['password'] = 'p:%d\\' % o['password']['line']
            elif pwfile > 0 and 'user' in want: want['password'] = 'file%d' % pwfile
            elif pwfile > 0: return None
        # the command line
        argv = []
        for d in defs:
            if d['src'] == 'opt':
                v = value(d['key'], d['val'])
                if d['key'] in SETTING: v = SETTING[d['key']] + '=' + v
                f = rng.choice(OPT[d['key']])
                argv += [f + v] if f.endswith('=') else [f, v]
            elif d['src'] == 'iriopt': argv += [rng.choice(['-I', '--iri']), iri(rng, [d])]
        def dict_of(c):
            r = {k: str(getattr(c, k)) for k in ('user', 'password', 'database', 'sslmode', 'connect_timeout', 'host', 'port', 'unix') if getattr(c, k, None) is not None}
            if c.settings: r['settings'] = dict(c.settings)
            return r
        if mode == 'open':
            text = '&' + iri(rng, [d for d in defs if d['src'] == 'iri']) if any(d['src'] == 'iri' for d in defs) else '&' + rng.choice(['', 'pq://'])
            okw = {}
            for d in defs:
                if d['src'] == 'kw':
                    v = value(d['key'], d['val'])
                    if d['key'] in SETTING: okw.setdefault('settings', {})[SETTING[d['key']]] = v
                    else: okw[FIELD[d['key']]] = int(v) if d['key'] == 'port' and rng.random() < 0.5 else v
            os.environ.update(env)
            if 'settings' in okw and 'work_mem' in okw['settings'] and rng.random() < 0.5: okw['settings']['work_mem'] = n = rng.randint(64, 9999); want['settings']['work_mem'] = n
            try:
                C = postgresql.open(text, **okw)
                got = dict_of(C)
                shown = pgiri.parse(C._pq_iri)
                exp = {k: v for k, v in want.items()}
                if 'password' in exp: exp['password'] = '***'
                if 'settings' in exp: exp['settings'] = {k: str(v) for k, v in exp['settings'].items()}
                if shown != exp: return {'key': 'shown', 'msg': 'the connector of %r is shown as %r' % (want, C._pq_iri)}
            finally:
                for k in env: del os.environ[k]
            what = 'open(%r, %r) with environment %r' % (text, okw, env)
            if got != want: return {'key': 'open', 'msg': '%s uses %r, expected %r' % (what, got, want)}
            return None
        par = {}
        for d in defs:
            if d['src'] == 'params':
                if d['key'] in SETTING: par.setdefault('settings', {})[SETTING[d['key']]] = value(d['key'], d['val'])
                else: par[FIELD[d['key']]] = value(d['key'], d['val'])
        if par: kw['parameters'] = par if rng.random() < 0.7 else list(par.items())
        prompt = rng.random() < 0.15
        if prompt: argv.insert(rng.randint(0, 0), '-W')
        kw['no_defaults'] = mode == 'nodefaults'
        noenv = not env and rng.random() < 0.3
        what = 'collect(%r) with environment %r and options %r' % (kw, None if noenv else env, argv)
        if rng.random() < 0.02:
            for kv, exp in (((('dbname',), 'x'), (('database',), 'x')), ((('requiressl',), '1'), (('sslmode',), 'require')), ((('sslmode',), 'PREFER'), (('sslmode',), 'prefer')), ((('user',), 'x'), (('user',), 'x'))):
                if cp.normalize_parameter(kv) != exp: return {'key': 'normalize_parameter', 'msg': '%r gave %r' % (kv, cp.normalize_parameter(kv))}
            err = sys.stderr; sys.stderr = io.StringIO()
            try: cp.DefaultParser().parse_args(['-s', 'nothing']); return {'key': 'option', 'msg': 'the setting "nothing" was accepted'}
            except SystemExit as e:
                if e.code == 0: return {'key': 'option', 'msg': 'exit code 0'}
            finally: sys.stderr = err
        co, ca = cp.DefaultParser().parse_args(argv) if argv or rng.random() < 0.5 else (None, None)
        old = sys.stdin; asked = []
        class Tty(io.StringIO):
            def isatty(self): return True
        def fake(p): asked.append(p); return 'typed'
        split = rng.random() < 0.4
        try:
            if prompt: sys.stdin = io.StringIO('typed\n') if not split else Tty()
            try: got = cp.collect(parsed_options=co, environ=None if noenv else env, environ_prefix=prefix, prompt_title=None if split else 'title', **kw)
            except cp.ServiceDoesNotExistError:
                if missing: return None
                raise
            if missing: return {'key': 'service', 'msg': '%s: the service does not exist, but %r was returned' % (what, got)}
            if split:
                if not prompt and pwfile >= 0 and 'pgpassfile' not in got: return {'key': 'passfile', 'msg': '%s without resolution lost the password file: %r' % (what, got)}
                where = rng.random()
                if prompt and where < 0.5: got['prompt_title'] = 'kept'; cp.resolve_password(got, getpass=fake)
                else: got['prompt_title'] = 'wrong'; cp.resolve_password(got, getpass=fake, prompt_title='mine')
                if prompt:
                    if len(asked) != 1 or ('kept' if where < 0.5 else 'mine') not in asked[0] or 'wrong' in asked[0] or (want.get('password') and want['password'] in asked[0]): return {'key': 'prompt', 'msg': 'prompted with %r' % (asked,)}
                elif asked: return {'key': 'prompt', 'msg': 'prompted without being told to'}
        finally: sys.stdin = old
        if prompt: want['password'] = 'typed'
        if got.get('password', 0) is None: del got['password']
        got = {k: v if k == 'settings' else str(v) for k, v in got.items()}
        if got != want: return {'key': 'collect', 'msg': '%s gave %r, expected %r' % (what, got, want)}
    def run(item):
        for o in item:
            rng = random.Random(repr(o) + str(job['seed']))
            try: f = one(o, rng)
            except Error as e: f = {'key': 'exception', 'msg': '%r: %s' % (o, str(e).replace('\n', ' ')[:300])}
            except Exception as e:
                import traceback
                f = {'key': 'exception:%s' % type(e).__name__, 'msg': '%r: %r %s' % (o, e, ' / '.join(traceback.format_exc().split('\n')[-5:-2]))}
            if f: return {'fail': f}
        return {'steps': len(item)}
    return run

def liner(job):
    """Lines of password files."""
    import io, random
    from postgresql import pgpassfile as P
    def run(item):
        text = ''; want = []
        rng = random.Random(repr(item) + str(job['seed']))
        for o in item:
            # a letter and spaces are varied; asterisks are only wildcards by themselves
            letter = rng.choice(['a', 'Z', '\xe9', '#', '-']); space = rng.choice([' ', '\t'])
            def conv(x): return x.replace('a', letter).replace(' ', space)
            line = conv(''.join(''.join(p) for p in o['line']))
            if line.startswith('#'): line = 'x' + line[1:]; conv_first = True
            else: conv_first = False
            fs = [conv(''.join(f)) for f in o['fields']]
            if conv_first: fs[0] = 'x' + fs[0][1:]
            text += line + '\n'
            if o['valid']: want.append((fs[4], fs[:4]))
            r = P.split(line + rng.choice(['', '\n']))
            if (list(r) if r else None) != (fs if o['valid'] else None): return {'fail': {'key': 'split', 'msg': 'the line %r was read as %r, expected %r' % (line, r, fs if o['valid'] else None)}}
        got = [(w, list(x)) for w, x in P.parse(io.StringIO(text))]
        if got != want: return {'fail': {'key': 'parse', 'msg': '%r was read as %r, expected %r' % (text, got, want)}}
        def same(f, v): return f == '*' or f == v
        for w, (h, p, d, u) in want[:8] + want[-4:]:
            q = (u, h, p, d)
            exp = next(w2 for w2, f in want if same(f[0], h) and same(f[1], p) and same(f[2], d) and same(f[3], u))
            if P.lookup_password(P.parse(io.StringIO(text)), q) != exp: return {'fail': {'key': 'lookup', 'msg': '%r in %r' % (q, text)}}
        return {'steps': len(item)}
    return run

def locator(job):
    """Locators, read and written."""
    import random
    from postgresql import iri
    def run(item):
        out = []
        for o in item:
            rng = random.Random(repr(o) + str(job['seed']))
            ch = rng.choice(['\xe9', '\u20ac', '\U0001d54f', '\xff'])
            def enc(x): return ''.join('%%%02X' % b for b in x.encode('utf-8')) if rng.random() < 0.5 else ''.join('%%%02x' % b for b in x.encode('utf-8'))
            text = ''.join({'x': ch, '%x': enc(ch)}.get(c, c) for c in o['text'])
            # the "x" of "unix" is not one of them
            text = text.replace('uni' + ch + ':', 'unix:')
            pr = {k: ''.join(ch if c == 'x' else c for c in v) for k, v in o['params'].items()}
            want = {}
            for k, v in pr.items():
                if k == 'driver': want['ipv'] = v
                elif k == 'key': want.setdefault('settings', {})[v] = pr['value']
                elif k == 'value': pass
                elif k == 'path': want['path'] = [v]
                elif k == 'schema': want.setdefault('settings', {})['search_path'] = [v]
                else: want[k] = v
            t = text
            r = rng.random()
            if r < 0.2: t = 'postgres' + text[2:]
            elif r < 0.4: t = 'postgresql' + text[2:]
            elif r < 0.5: t = text[5:]
            try:
                got = iri.parse(t)
                if got != want: return {'fail': {'key': 'parse:' + o['comp'], 'msg': '%r was read as %r, expected %r' % (t, got, want)}}
                s = iri.serialize(want)
                if iri.parse(s) != want: return {'fail': {'key': 'serialize:' + o['comp'], 'msg': '%r was written as %r, which is read as %r' % (want, s, iri.parse(s))}}
                if 'password' in want and want['password'] not in ('*', '**', '***'):
                    hid = iri.parse(iri.serialize(want, obscure_password=True))
                    if hid != dict(want, password='***'): return {'fail': {'key': 'obscure', 'msg': '%r was written with the password obscured as %r' % (want, iri.serialize(want, obscure_password=True))}}
                out.append((s, ch, pr))
            except Exception as e: return {'fail': {'key': 'locator:exception:' + o['comp'], 'msg': '%r %r: %r' % (t, want, e)}}
        data = []
        for s, ch, pr in out[::job['every']]:
            esc = ''.join('%%%02X' % b for b in ch.encode('utf-8'))
            s = s.replace(esc, '\x00').replace(esc.lower(), '\x00')
            data.append({'text': [{'\x00': '%x', ch: 'x'}.get(c, c) for c in s], 'params': {k: ['x' if c == ch else c for c in v] for k, v in pr.items()}})
        return {'steps': len(item), 'data': data}
    return run

def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

def run(ctx):
    from vlib import tlc, pool
    T = ctx.thorough
    # --- sources
    allkeys = {'user', 'host', 'port', 'unix', 'database', 'password', 'sslmode', 'timeout', 'tz', 'setting', 'passfile'}
    lineset = lambda *f: frozenset((a, b, c, d) for a in f for b in f for c in f for d in f)
    some = frozenset([('same',) * 4, ('*',) * 4, ('*', '*', '*', 'other'), ('other', '*', '*', '*')])
    runs = [(allkeys, 2, {'collect', 'nodefaults'}, {'params', 'env', 'svc', 'opt', 'iriopt'}, 1, some, 2),
            (allkeys, 2, {'open'}, {'env', 'svc', 'iri', 'kw'}, 1, some, 2),
            ({'host', 'port', 'unix', 'user'}, 3, {'collect'}, {'env', 'params', 'opt', 'iriopt'}, 0, some, 0),
            ({'host', 'unix', 'sslmode'}, 3, {'open'}, {'env', 'iri', 'kw', 'svc'}, 0, some, 0),
            ({'database', 'tz', 'password'}, 3, {'collect'}, {'env', 'svc', 'opt', 'iriopt'}, 0, some, 0),
            ({'user'}, 0, {'collect'}, set(), 2, lineset('same', '*', 'other'), 0)]
    if T: runs = [(allkeys, 3, {'collect', 'nodefaults'}, {'params', 'env', 'svc', 'opt', 'iriopt'}, 1, some, 1),
                  (allkeys, 3, {'open'}, {'env', 'svc', 'iri', 'kw'}, 1, some, 1),
                  ({'host', 'port', 'unix'}, 4, {'collect', 'open'}, {'env', 'params', 'opt', 'iri', 'kw'}, 0, some, 0),
                  ({'database', 'tz'}, 4, {'collect'}, {'env', 'svc', 'opt', 'iriopt'}, 0, some, 0), runs[-1]]
    for keys, n, modes, sources, lines, ls, at in runs:
        _, _, edges = tlc.run(ctx, 'Params', {'Keys': keys, 'N': n, 'Modes': modes, 'Sources': sources, 'Lines': lines, 'LineSet': ls, 'LineAt': at}, invariants=['Wins'], coverage_required=['define'] if n else ['line'], heap='6g')
        items = [e[2] for e in edges]
        ctx.rng.shuffle(items)
        ctx.log('%d configurations' % len(items))
        if not T and len(items) > 12000: items = items[:12000]
        pool.replay(ctx, 'checks.p20', chunks(items, 200), {'scratch': ctx.scratch}, limit=120)
        ctx.sample([{'defs': o['defs'], 'password': o['password']} for o in items[:1]])
    # --- password files
    c = lambda *xs: frozenset(tuple(x) for x in xs)
    for pieces, n in ((c(':', 'a', '\\:', ('\\', '\\')), 8 if T else 7), (c(':', '*', ' '), 9 if T else 8), (c(':', 'a', '*', ' ', '\\:'), 7 if T else 6)):
        _, _, edges = tlc.run(ctx, 'Passfile', {'Pieces': pieces, 'MaxLen': n}, invariants=['Kept'], coverage_required=['piece'])
        items = [e[2] for e in edges]
        good = [o for o in items if o['valid']]; bad = [o for o in items if not o['valid']]
        if not T: bad = ctx.rng.sample(bad, min(len(bad), 5000))
        items = good + bad; ctx.rng.shuffle(items)
        ctx.log('%d lines' % len(items))
        pool.replay(ctx, 'checks.p20', chunks(items, 40), {}, func='liner', limit=60)
    # --- locators
    chars = {':', '@', '/', '?', '#', '[', ']', '%', '&', '=', ',', ' ', 'a', 'x', '\\', '+'}
    names = ('user', 'password', 'host', 'port', 'database', 'path', 'driver', 'key', 'schema')
    contexts = [(), ('host', 'database'), ('user', 'password', 'host', 'port', 'database', 'path', 'driver', 'key', 'schema'), ('brackets',), ('brackets', 'user', 'port', 'database')]
    for x in names:  # all but one
        contexts.append(tuple(y for y in contexts[2] if y != x))
    contexts.append(('user', 'password', 'unix', 'database', 'driver', 'key', 'schema'))
    for x in names:
        if x not in ('host', 'port'): contexts.append(tuple(y for y in contexts[-1 if x == 'user' else 14] if y != x))
    runs = [(chars, 1, contexts), (chars, 2, [(), contexts[2]] + contexts[3:4])] if not T else [(chars, 2, contexts), (chars, 3, [(), contexts[3]])]
    runs.append((chars, 2, [tuple(y for y in contexts[2] if y != x) for x in names]) if not T else (chars, 2, contexts))
    seen = []
    for chs, n, cs in runs:
        cs = frozenset(frozenset(x) for x in cs)
        _, _, edges = tlc.run(ctx, 'Locator', {'Chars': chs, 'MaxLen': n, 'Contexts': cs}, invariants=['Denotes'], coverage_required=['char'], heap='6g')
        items = [e[2] for e in edges]
        ctx.rng.shuffle(items)
        ctx.log('%d locators' % len(items))
        pool.replay(ctx, 'checks.p20', chunks(items, 200), {'every': 3 if T else 7}, func='locator', limit=120)
        for k in sorted(ctx.data): seen += ctx.data[k] or []
    uniq = {}
    for d in seen: uniq[''.join(d['text'])] = d
    cases = [uniq[k] for k in sorted(uniq)]
    ctx.rng.shuffle(cases)
    cases = cases[:40000 if T else 5000]
    ctx.log('%d serializations judged' % len(cases))
    for i, v in tlc.evaluate(ctx, 'Locator', cases, {'Chars': set(), 'MaxLen': 0, 'Contexts': set()}).items():
        ctx.violation('serialize:denotes', '%r: %s' % (''.join(cases[i]['text']), v), {'text': cases[i]['text']})
