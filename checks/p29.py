"""P29: versions of servers and installations (specs/Version.tla)."""
TECHNIQUE = 'TLA+ model (Version): TLC enumerates versions (numbers, states, levels, what packagers append), checks the laws of their denotation and gives their texts; they are announced to the library by text, by pg_config executables and by a server to which it connects, and TLC judges what it understood, with the options, executables and directories of installations'
LEVEL_NOTE = 'Versions of one to four numbers of a small domain with every state, level and suffix; connections to a real server whose announced version is replaced (9.2 and later, as the queries of connecting depend on it); random configurations. Quotes within options are not covered.'

PACKS = ['', ' (Debian 16.3-1.pgdg120+1)', ' (Ubuntu 16.15-0ubuntu0.24.04.1)', '-local', ' - Some Server 1.2.3', '_EDB.7']
EXES = ['pg_config', 'psql', 'initdb', 'pg_ctl', 'pg_dump', 'postgres', 'pg_controldata', 'pg_restore', 'createdb', 'ecpg']
DIRS = ['bindir', 'docdir', 'includedir', 'pkgincludedir', 'libdir', 'pkglibdir', 'localedir', 'mandir', 'sharedir', 'sysconfdir']

def worker(job):
    import os, shutil, struct, sys
    from postgresql import versionstring, installation
    from . import live
    base = job['scratch'] + '/w%d' % job['worker']; os.makedirs(base, exist_ok=True)
    count = {}
    def tup(t):
        if not isinstance(t, tuple) or len(t) < 5: return {'odd': repr(t)}
        if not all(x is None or type(x) is int for x in t[:-2] + t[-1:]) or not (t[-2] is None or type(t[-2]) is str): return {'odd': repr(t)}
        return {'nums': [-1 if x is None else x for x in t[:-2]], 'cls': t[-2] or '', 'lev': -1 if t[-1] is None else t[-1]}
    def pg_config(d, e):
        # an executable which tells what a pg_config does
        os.makedirs(d)
        for x in e['present']: open(d + '/' + x, 'w').close()
        opts = ' '.join("'--%s%s'" % (o['name'], '' if o['val'] == 'TRUE' else '=' + o['val']) for o in e['options'])
        lines = ['%s = %s' % (k.upper(), v) for k, v in e['dirs'].items() if v] + ['BINDIR = ' + d, 'CONFIGURE = ' + opts, 'LIBS = -lm -lz', 'CFLAGS = -O2 -DX=1', '', 'VERSION = PostgreSQL ' + e['text']]
        with open(d + '/pg_config', 'w') as f: f.write("#!/bin/sh\ncat <<'X'\n%s\nX\n" % '\n'.join(lines))
        os.chmod(d + '/pg_config', 0o755)
        return d + '/pg_config'
    def do(e):
        op = e['op']
        if op == 'split': return tup(versionstring.split(e['text']))
        if op == 'normalize': return tup(versionstring.normalize(versionstring.split(e['text'])))
        if op == 'unsplit': return versionstring.unsplit(versionstring.split(e['text']))
        if op == 'connect':
            plan = live.Plan(); val = e['text'].encode()
            m = b'server_version\0' + val + b'\0'
            if 'n' not in count:
                # how many messages come before the first ReadyForQuery
                p = live.Plan(); seen = []
                p.on_recv = lambda n: seen.append(p.count) or n
                live.connect(job['sock'], 'postgres', p).close()
                count['n'] = next(x for x in seen if x)
            plan.inject = {count['n'] - 1: [b'S' + struct.pack('!L', 4 + len(m)) + m]}
            db = live.connect(job['sock'], 'postgres', plan)
            try:
                if db.query.first('SELECT 1') != 1: raise RuntimeError('does not work')
                return tup(db.version_info)
            finally: db.close()
        d = base + '/i'
        shutil.rmtree(d, ignore_errors=True)
        if op == 'install':
            i = installation.Installation(installation.pg_config_dictionary(pg_config(d, e)))
            return {'version': tup(i.version_info), 'type': i.type, 'options': [{'key': k, 'val': 'TRUE' if v is True else v} for k, v in i.configure_options.items()], 'ssl': i.ssl,
                'found': [x for x in EXES if getattr(i, x) is not None and getattr(i, x) == d + '/' + x], 'dirs': {k: (getattr(i, k) or '') for k in e['dirs']}}
        os.makedirs(d)
        old = {k: os.environ.get(k) for k in ('PATH', 'PGINSTALLATION')}
        try:
            at = {}
            for k, has in enumerate(e['has']):
                p = '%s/p%d' % (d, k)
                if has == 'yes': at[pg_config(p, dict(e, options=[], dirs={}, present=[]))] = str(k + 1)
                elif has == 'empty': os.makedirs(p)
            os.environ['PATH'] = ':'.join('%s/p%d' % (d, k) for k in range(len(e['has'])))
            if e['set'] == 'no': os.environ.pop('PGINSTALLATION', None)
            elif e['set'] == 'empty': os.environ['PGINSTALLATION'] = ''
            else: at[pg_config(d + '/env', dict(e, options=[], dirs={}, present=[]))] = 'env'; os.environ['PGINSTALLATION'] = d + '/env/pg_config'
            p = installation.default_pg_config()
            return '' if p is None else at.get(p, p)
        finally:
            for k, x in old.items():
                if x is None: os.environ.pop(k, None)
                else: os.environ[k] = x
    def run(item):
        for e in item:
            e['err'] = ''
            try: e['r'] = do(e)
            except Exception as x: e['r'] = ''; e['err'] = '%s: %s' % (type(x).__name__, str(x)[:200])
        return {'steps': len(item), 'data': {'events': item}}
    return run

def run(ctx):
    from vlib import tlc, pool, pgserver
    import os
    T = ctx.thorough; rng = ctx.rng
    vs = []
    for nums, cls, levs, lens in (({0, 1, 9, 16}, ['', 'devel', 'alpha', 'beta', 'rc'], {-1, 0, 1, 12}, {1, 2}), ({0, 2, 10} if T else {0, 10}, ['', 'beta', 'devel'], {-1, 3}, {3, 4})):
        _, _, edges = tlc.run(ctx, 'Version', {'Nums': nums, 'Classes': set(cls), 'Levels': levs, 'Packs': set(PACKS), 'Lens': lens}, invariants=['Laws'], coverage_required=['read'])
        vs += [(e[0], e[1]['text']) for e in edges]
    evs = [{'op': op, 'v': v, 'text': t} for v, t in vs for op in ('split', 'normalize', 'unsplit')]
    late = [x for x in vs if x[0]['nums'][:2] > [9, 1]]
    evs += [{'op': 'connect', 'v': v, 'text': t} for v, t in rng.sample(late, min(len(late), 1500 if T else 250))]
    vals = ['TRUE', 'TRUE', 'a', '/usr/lib', 'a b', '-O2 -g', 'x=y', '-DA=1 -DB=2', '5432', '${prefix}/include', ' (Debian 1.2-3)', 'a--b', 'é']
    for v, t in rng.sample(vs, 3000 if T else 500):
        os_ = [{'name': n, 'key': n.replace('-', '_'), 'val': rng.choice(vals)} for n in rng.choices(['prefix', 'with-openssl', 'with-ssl', 'enable-nls', 'with-extra-version', 'build', 'CFLAGS', 'with-pgport', 'without-x'], k=rng.choice([0, 1, 2, 3, 6]))]
        evs.append({'op': 'install', 'v': v, 'text': t, 'options': os_, 'present': ['pg_config'] + [x for x in EXES[1:] if rng.random() < .6], 'dirs': {k: rng.choice(['', '/usr/x/' + k, '/with space/=' + k]) for k in DIRS[1:]}})
    for _ in range(200 if T else 60):
        has = rng.choices(['yes', 'no', 'empty'], k=rng.choice([1, 2, 3])); st = rng.choice(['no', 'no', 'empty', 'yes'])
        evs.append({'op': 'default', 'v': vs[0][0], 'text': '16.1', 'has': has, 'set': st, 'env': 'env' if st == 'yes' else '', 'path': [str(k + 1) for k, h in enumerate(has) if h == 'yes']})
    rng.shuffle(evs)
    pgserver.Server(ctx, options=['client_min_messages=error'])
    d = ctx.scratch + '/inst'; os.mkdir(d)
    items = [evs[i:i + 40] for i in range(0, len(evs), 40)]
    ctx.log('%d versions, %d observations' % (len(vs), len(evs)))
    pool.replay(ctx, 'checks.p29', items, {'sock': ctx.pg.sock, 'scratch': d}, key_prefix='', limit=90)
    data = dict(ctx.data); flat = [e for i in sorted(data) for e in data[i]['events']]
    if flat: ctx.sample({'recorded': flat[0]})
    bad = tlc.evaluate(ctx, 'Version', flat, {'Nums': {0}, 'Classes': set(), 'Levels': {0}, 'Packs': set(), 'Lens': {1}})
    seen = set()
    for b, w in sorted(bad.items()):
        e = flat[b]; k = 'version:%s:%s:%s' % (e['op'], e['err'].split(':')[0], w.split()[0])
        if k in seen or len(seen) > 12: continue
        seen.add(k); ctx.violation(k, ('%s: %r gives %r %s' % (w, e['text'], e['r'], e['err']))[:900], {'module': 'checks.p29', 'event': e, 'verdict': w})
