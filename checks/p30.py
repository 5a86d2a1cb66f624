"""P30: pg_python runs programs as Python does, with a connection (specs/Console.tla)."""
TECHNIQUE = 'TLA+ model (Console): TLC enumerates runs of pg_python (how the program is given, contexts before it, its steps in and out of transaction blocks, every way to end), checks their laws and gives what is to be seen; sampled runs are carried out in processes of their own against PostgreSQL, and TLC judges output, exit status, complaint, what is left in the database, names and modules'
LEVEL_NOTE = 'Programs given as command, file, module, package, member of a package and standard input, in two source encodings; the interactive console and its backslash commands, prompts for passwords and post mortem functions are not covered.'

KINDS = ['command', 'file', 'beside', 'module', 'package', 'member', 'input', 'latin']
CTX = ['say', 'insert', 'fail']
STEPS = ['say', 'insert', 'block', 'undone', 'caught']
ENDS = ['fall', 'none', 'zero', 'three', 'text', 'raise', 'sql', 'block raise', 'block exit', 'open block']

def worker(job):
    import json, os, random, shutil, subprocess, sys
    import postgresql
    from . import live
    base = job['scratch'] + '/w%d' % job['worker']; os.makedirs(base, exist_ok=True)
    st = {}; repo = os.path.dirname(os.path.dirname(os.path.abspath(postgresql.__file__)))
    INS = "db.execute(%r)" % 'INSERT INTO con VALUES (1)'
    def code(c, n, ctx):
        if c == 'say': return ['print("T", %d)' % n]
        if c == 'insert': return [random.choice([INS, "sqlexec('INSERT INTO con VALUES (1)')", "prepare('INSERT INTO con VALUES (1)')()"])]
        if c == 'block': return ['with xact():', '  ' + INS, '  ' + INS]
        if c == 'undone': return ['try:', '  with xact():', '    ' + INS, '    raise KeyError("k")', 'except KeyError: print("T", %d)' % n]
        if c == 'caught': return ['try: db.prepare("SELECT nothing_of_it")', 'except Exception as e: print("T", %d)' % n]
        if c == 'fail': return ['print("T", %d)' % n, 'raise ValueError("v")']
    END = {'fall': [], 'none': ['sys.exit()'], 'zero': ['sys.exit(0)'], 'three': ['sys.exit(3)'], 'text': ['sys.exit("a text")'], 'raise': ['def f(): raise ValueError("v")', 'f()'],
        'sql': ['db.query("SELECT nothing_of_it")'], 'block raise': ['with xact():', '  ' + INS, '  raise KeyError("k")'], 'block exit': ['with xact():', '  ' + INS, '  sys.exit(3)'],
        'open block': ['xact().start()', INS]}
    def run(r):
        random.seed(repr(r))
        if 'b' not in st:
            st['b'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan()); st['b'].execute('CREATE TABLE con (i int)')
            st['n'] = st['b'].prepare("SELECT count(*)::int FROM con"); st['pids'] = st['b'].prepare("SELECT count(*)::int FROM pg_stat_activity WHERE datname = current_database() AND pid <> pg_backend_pid() AND backend_type = 'client backend'")
        b = st['b']; b.execute('DELETE FROM con')
        d = base + '/r'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/sub'); os.makedirs(d + '/pk')
        n = 0; args = ['x', '-c', '--host', 'é'] if random.random() < .5 else []
        opts = []; k = 0; ctxs = []
        for c in r['ctx']:
            n += 1; ctxs.append('\n'.join(['ctx%d = %d' % (n, n)] + code(c, n, True)))
        for i, c in enumerate(ctxs):
            how = random.randrange(3)
            if how == 0: opts += ['-C', c]
            elif how == 1: open(d + '/c%d.py' % i, 'w').write(c); opts += ['-C', 'file://%s/c%d.py' % (d, i)]
            else: open(d + '/cm%d.py' % i, 'w').write(c); opts += ['-C', 'module:cm%d' % i]
        body = ['import sys, json, __main__', 'v = len("\u00e9")', 'try:', '  import besides', '  ok = besides.v == 5', 'except ImportError: ok = False'] if r['kind'] not in ('package', 'member') else \
            ['import sys, json, __main__', 'v = len("\u00e9")', 'try:', '  from . import besides', '  ok = besides.v == 5', 'except ImportError: ok = False']
        if r['kind'] == 'latin': body.insert(0, '# -*- coding: latin-1 -*-')
        body += ['print("E", json.dumps({"argv": sys.argv[1:] == %r, "name": __name__, "package": __package__ or "", "beside": ok and v == 1, "module": __main__.v == 1 and %s, ' % (args, ' and '.join(['True'] + ['ctx%d == %d' % (i + 1, i + 1) for i in range(len(ctxs))])) +
            '"builtins": xact.__self__ is db and prepare("SELECT 1").first() == 1 and proc("lower(text)")("A") == "a" and settings is db.settings and len([do, sqlexec, connector]) == 3}))']
        for c in r['steps']: n += 1; body += code(c, n, False)
        body += END[r['end']]
        text = '\n'.join(body) + '\n'; inp = None; kind = r['kind']
        src = text.encode('latin-1' if kind == 'latin' else 'utf-8')
        open(d + '/besides.py', 'w').write('v = 5\n'); open(d + '/sub/besides.py', 'w').write('v = 5\n')
        def put(p): open(d + '/' + p, 'wb').write(src)
        if kind == 'command': opts += ['-c', text]
        elif kind in ('file', 'latin'): put('prog.py'); opts += [random.choice(['prog.py', './prog.py', d + '/prog.py'])]
        elif kind == 'beside':
            # only the directory of the program has it
            os.unlink(d + '/besides.py'); put('sub/prog.py'); opts += [random.choice(['sub/prog.py', d + '/sub/prog.py'])]
        elif kind == 'module': put('prog.py'); opts += ['-m', 'prog']
        elif kind in ('package', 'member'):
            open(d + '/pk/__init__.py', 'w').write(''); open(d + '/pk/besides.py', 'w').write('v = 5\n')
            if kind == 'package': put('pk/__main__.py'); opts += ['-m', 'pk']
            else: put('pk/prog.py'); opts += ['-m', 'pk.prog']
        else: inp = src; args = []; body = None
        env = {k: v for k, v in os.environ.items() if not k.startswith('PG')}
        env.update(PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', HOME=d)
        if kind == 'input': inp = text.replace('sys.argv[1:] == [', 'True or sys.argv[1:] == [').encode()
        trace = ['--pq-trace', d + '/trace'] if random.random() < .2 else []
        p = subprocess.run([sys.executable, '-m', 'postgresql.bin.pg_python', '--unix', job['sock'], '-U', 'test', '-d', 'w%d' % job['worker']] + trace + opts + args, input=inp if inp is not None else b'', stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=d, env=env, timeout=60)
        out = p.stdout.decode(errors='replace').splitlines(); err = p.stderr.decode(errors='replace').splitlines()
        envd = next((json.loads(l[2:]) for l in out if l.startswith('E ')), {'argv': False, 'name': '', 'package': '', 'beside': False, 'module': False, 'builtins': False})
        import time
        for _ in range(60):
            left = st['pids'].first()
            if not left: break
            time.sleep(.05)
        tops = [l for l in err if l and not l.startswith(' ')]
        if tops and tops[0].startswith('Traceback'):
            what = next((l.split(':')[0] for l in tops[1:] if l), '')
        else: what = err[-1] if err else ''
        frames = [l for l in err if l.startswith('  File "')]
        got = {'code': p.returncode, 'out': [int(l[2:]) for l in out if l.startswith('T ')], 'rows': st['n'].first(), 'err': what, 'backends': left, 'env': envd,
            'clean': not (frames and ('python/command.py' in frames[0] or 'pg_python.py' in frames[0])) and (not trace or os.path.getsize(d + '/trace') > 0)}
        return {'data': {'run': r, 'got': got, 'stderr': '\n'.join(err)[-1500:]}}
    return run

def run(ctx):
    from vlib import tlc, pool, pgserver
    import os
    T = ctx.thorough; rng = ctx.rng
    _, _, edges = tlc.run(ctx, 'Console', {'Kinds': set(KINDS), 'Contexts': set(CTX), 'Steps': set(STEPS), 'Ends': set(ENDS), 'MaxSteps': 2, 'MaxCtx': 1 if not T else 2}, invariants=['Laws'], coverage_required=['run'])
    runs = [e[0] for e in edges]; rng.shuffle(runs)
    # each kind with each end and each context
    items = {}
    for r in runs:
        for key in ((r['kind'], r['end'], 'e') if r['ctx'] != ['fail'] else None, (r['kind'], tuple(r['ctx']), 'c'), (r['end'], tuple(r['steps'][-1:]), 's')):
            if key and key not in items: items[key] = r
    items = list({repr(r): r for r in items.values()}.values())
    if not T: rng.shuffle(items)
    items += runs[:3000 if T else 60]
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    d = ctx.scratch + '/con'; os.mkdir(d)
    ctx.log('%d of %d runs' % (len(items), len(runs)))
    pool.replay(ctx, 'checks.p30', items, {'sock': ctx.pg.sock, 'scratch': d}, key_prefix='', limit=90)
    data = dict(ctx.data); flat = [data[i] for i in sorted(data)]
    if flat: ctx.sample({'recorded': flat[0]})
    bad = tlc.evaluate(ctx, 'Console', flat, {'Kinds': set(), 'Contexts': set(), 'Steps': set(), 'Ends': set(), 'MaxSteps': 0, 'MaxCtx': 0})
    seen = set()
    for b, w in sorted(bad.items()):
        c = flat[b]; k = 'console:%s:%s:%s' % (c['run']['kind'], c['run']['end'] if w.split(':')[0] in ('status', 'rows', 'complaint', 'traceback') else '', w.split(':')[0])
        if k in seen or len(seen) > 12: continue
        seen.add(k); ctx.violation(k, ('%s: %r gives %r; %s' % (w, c['run'], c['got'], c['stderr'][-400:]))[:1200], {'module': 'checks.p30', 'case': c, 'verdict': w})
