"""P15: the settings mapping (specs/Settings.tla)."""
TECHNIQUE = 'TLA+ model (Settings) of the settings of a session under assignments, SQL commands, transactions, savepoints and contexts; TLC checks that reads give the value in effect, that contexts restore it and that each change is told once to each subscriber; its histories are replayed on a real connection, comparing what the mapping gives, what the server has in effect and what the subscribers were told after every step'
LEVEL_NOTE = 'Two settings at a time, chosen among reported ones, unreported ones, ones with upper-case names, structured search_path and customized options, with values that need quoting; blocks with a savepoint, SET LOCAL, nested contexts, failed blocks, reset(), subscribers that unsubscribe themselves. All transitions where feasible, plus random walks. A setting changed by a result that is still being received counts as changed when the operation is completed.'

# (name, other spellings, reported, default, values)
GUCS = {
    'application_name': ((), True, '', ['it\'s', 'a "b" \\c', 'plain']),
    'TimeZone': (('timezone', 'TIMEZONE'), True, 'UTC', ['Europe/Berlin', 'Asia/Kolkata', 'MST']),
    'DateStyle': (('datestyle',), True, 'ISO, MDY', ['SQL, DMY', 'German, DMY', 'Postgres, MDY']),
    'IntervalStyle': (('intervalstyle',), True, 'postgres', ['iso_8601', 'sql_standard', 'postgres_verbose']),
    'search_path': (('SEARCH_PATH',), False, '"$user", public', ['"s 1","x""y"', 'pg_catalog', '']),
    'extra_float_digits': ((), False, '1', ['0', '-3', '3']),
    'default_statistics_target': ((), False, '100', ['1', '333', '10000']),
    'enable_seqscan': (('Enable_SeqScan',), False, 'on', ['off', 'off', 'off']),
    'verif.opt': (('Verif.Opt',), False, 'd', ['', "v'1", '"']),
    'lc_messages': ((), False, 'C', ['C.UTF-8', 'POSIX', 'C.utf8']),
}
REP = [g for g, x in GUCS.items() if x[1]]
UNREP = [g for g, x in GUCS.items() if not x[1]]

def split_path(s):
    import re
    return [x[1:-1].replace('""', '"') if x.startswith('"') else x for x in re.findall(r'"(?:[^"]|"")*"|[^", ]+', s)]

def worker(job):
    import random
    import postgresql.exceptions as px
    from . import live
    st = {}
    CODE = {'infailed': '25P02', 'unknown': '42704', 'error': '22012', 'keyerror': 'KeyError'}
    def run(walk):
        if 'db' not in st or st['db'].closed:
            st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
            st['n'] = 0
        db = st['db']; S = db.settings
        st['n'] += 1
        rng = random.Random(repr(walk['steps'][-1]) + str(len(walk['steps'])) + str(job['seed']))
        multi = job['maxval'] > 1
        rep = rng.sample([g for g in REP], len(REP)); unrep = [g for g in UNREP if not (multi and g == 'enable_seqscan')]
        rng.shuffle(unrep)
        names = []
        for g in range(1, job['ng'] + 1): names.append((rep if g in job['rep'] else unrep).pop())
        vals = []
        for n in names:
            v = GUCS[n][3][:]; rng.shuffle(v); vals.append([GUCS[n][2]] + v)
        def spell(g):
            n = names[g - 1]; alt = GUCS[n][0]
            return rng.choice(alt) if alt and rng.random() < .4 else n
        def norm(g, v): # search_path, as written or as a list
            return split_path(v) if names[g - 1] == 'search_path' else v
        done = []; told = []
        def fail(key, msg): return {'fail': {'key': key, 'msg': '%s after %s: %s' % (list(zip(names, vals)), done, msg)}}
        def callback(c, k):
            def cb(conn, key, val):
                told.append((c, key, val, conn))
                if c == 2: S.unsubscribe(k, cb) # gone after the first call
            return cb
        keys = [None, *names]
        cbs = {(c, k): callback(c, k) for c in job['callbacks'] for k in keys}
        for c in job['callbacks']: # callback 1 is the same one for all
            if c == 1:
                for k in keys: cbs[c, k] = cbs[c, None]
        ctxs = []
        clean = False
        try:
            for act, obs, s2 in walk['steps']:
                op = act['op']; g = act.get('g'); told.clear()
                p = act.get('p')
                val = vals[g - 1][act['v']] if g and 'v' in act else None
                d = {names[i]: vals[i][p[i]] for i in range(len(names)) if p[i] >= 0} if p else None
                done.append('%s%s' % (op, '' if not (g or p or 'c' in act) else (names[g - 1], val) if g else d if p else (act['c'], act['k'])))
                want = obs['r']; got = 'ok'; ret = None; exc = None
                try:
                    if op == 'set':
                        if names[g - 1] == 'search_path' and rng.random() < .5: S.path = split_path(val)
                        else: S[spell(g)] = val
                    elif op == 'sql':
                        k = names[g - 1]; r = rng.randrange(3)
                        if r == 0 and k != 'search_path': db.execute("SET %s = '%s'" % (k, val.replace("'", "''")))
                        elif r == 1: db.query('SELECT set_config($1, $2, false)', k, val)
                        else: db.execute("DO $do$ BEGIN PERFORM set_config('%s', '%s', false); END $do$" % (k, val.replace("'", "''")))
                    elif op == 'local':
                        if rng.random() < .5 and names[g - 1] != 'search_path': db.execute("SET LOCAL %s = '%s'" % (names[g - 1], val.replace("'", "''")))
                        else: db.query('SELECT set_config($1, $2, true)', names[g - 1], val)
                    elif op == 'del':
                        if names[g - 1] == 'search_path' and rng.random() < .5: del S.path
                        else: del S[spell(g)]
                    elif op == 'update':
                        r = rng.randrange(2); S.update(d if r else list(d.items()))
                    elif op == 'get':
                        r = rng.randrange(5); k = names[g - 1] if s2['failed'] else spell(g)
                        if r == 0: ret = S[k]
                        elif r == 1: ret = S.get(k)
                        elif r == 2: ret = S.getset([k])[k]
                        elif r == 3 and names[g - 1] == 'search_path': ret = ','.join('"%s"' % x.replace('"', '""') for x in S.path)
                        else: ret = S.get(k, 'alternative')
                    elif op == 'getunknown':
                        k = rng.choice(['nonexistent', 'verif.nothing', ' $*', 'work mem', 'timezone ', '']); r = rng.randrange(3)
                        if r == 0: ret = S[k]
                        elif r == 1: ret = S.getset([k, names[0]])
                        else:
                            ret = S.get(k, 'alternative')
                            if ret != 'alternative': return fail('get:alternative', 'get(%r, alternative) gave %r' % (k, ret))
                            got = 'KeyError'
                    elif op == 'setunknown':
                        bad = rng.choice(['nonexistent', 'foo bar'])
                        if bad == 'foo bar': bad = 'nonexistent2'
                        r = rng.randrange(3)
                        if r == 0: S[bad] = '1'
                        elif r == 1: S.update([(bad, '1'), *d.items()] if rng.random() < .5 else [*d.items(), (bad, '1')])
                        else: del S[bad]
                    elif op == 'enter':
                        c = S(**d) if all(k.isidentifier() for k in d) and rng.random() < .7 else S(**d)
                        c.__enter__(); ctxs.append(c)
                    elif op == 'enterunknown':
                        S(nonexistent='1', **d).__enter__()
                    elif op == 'exit':
                        c = ctxs.pop()
                        e = (None, None, None) if rng.random() < .5 else (ValueError, ValueError('leaving'), None)
                        r = c.__exit__(*e)
                        if r: return fail('exit:swallowed', repr(r))
                    elif op == 'begin': db.execute('BEGIN')
                    elif op == 'savepoint': db.execute('SAVEPOINT s')
                    elif op == 'fail': db.execute('SELECT 1/0') if rng.random() < .5 else db.query('SELECT 1/0')
                    elif op == 'commit': db.execute('COMMIT')
                    elif op == 'rollback': db.execute('ROLLBACK')
                    elif op == 'rollbackto': db.execute('ROLLBACK TO s')
                    elif op == 'release': db.execute('RELEASE s')
                    elif op == 'reset': db.reset()
                    elif op == 'sub': k = names[act['k'] - 1] if act['k'] else None; S.subscribe(k, cbs[act['c'], k])
                    elif op == 'unsub': k = names[act['k'] - 1] if act['k'] else None; S.unsubscribe(k, cbs[act['c'], k])
                except px.Error as e: got = e.code; exc = e
                except KeyError as e: got = 'KeyError'; exc = e
                except Exception as e: return fail(op + ':unrelated', repr(e)[:300])
                exp = CODE.get(want, want)
                if op == 'getunknown' and want == 'infailed' and got == 'alternative': pass
                elif got != exp: return fail('%s:outcome:%s' % (op, want), 'expected %s, got %s %s' % (want, got, str(exc)[:200]))
                if op == 'get' and want == 'ok' and norm(g, ret) != norm(g, vals[g - 1][obs['v']]):
                    return fail('get:value', 'read %r, in effect is %r' % (ret, vals[g - 1][obs['v']]))
                exp = sorted((x[0], names[x[2] - 1], vals[x[2] - 1][x[3]]) for x in obs['calls'])
                if sorted(x[:3] for x in told) != exp: return fail('told:' + op, 'subscribers were told %r, expected %r' % ([x[:3] for x in told], exp))
                if any(x[3] is not db for x in told): return fail('told:connection', 'the subscriber was given another connection')
                told.clear()
                # what is in effect on the server
                if not s2['failed']:
                    r = db.query('SELECT ' + ', '.join("current_setting('%s')" % n for n in names))[0]
                    for i, v in enumerate(r):
                        w = vals[i][s2['cur'][i]]
                        if norm(i + 1, v) != norm(i + 1, w): return fail('effect:' + op, '%s is %r on the server, expected %r' % (names[i], v, w))
            if not walk['steps'][-1][2]['failed']:
                all_ = dict(S.items()); low = {k.lower(): v for k, v in all_.items()}
                for i, n in enumerate(names):
                    if n != 'verif.opt' and norm(i + 1, low[n.lower()]) != norm(i + 1, vals[i][s2['cur'][i]]): return fail('items', '%s is %r in items()' % (n, low[n.lower()]))
                if len(S) != len(all_) or set(S.keys()) != set(all_) or sorted(S.values()) != sorted(all_.values()) or set(S) != set(all_): return fail('items', 'len(), keys(), values() and items() do not agree')
            clean = True
            return {'steps': len(done)}
        finally:
            for (c, k), cb in cbs.items(): S.unsubscribe(k, cb)
            if clean and not db.closed and db.pq.xact is None:
                try: db.execute('ABORT; RESET ALL')
                except Exception: db.close()
            else: db.close()
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error', 'verif.opt=d', 'timezone=UTC', 'lc_messages=C', "datestyle=ISO, MDY"]); ctx.pg.databases(8)
    base = ['set', 'sql', 'local', 'del', 'get', 'begin', 'savepoint', 'fail', 'commit', 'rollback', 'rollbackto', 'release']
    for ng, rep, maxval, maxctx, maxstack, cbs, extras, cap, nrand in [
            (1, set(), 1, 2, 2, set(), {'unknown', 'reset'}, 400, 200),
            (1, {1}, 1, 1, 2, {1, 2}, {'reset'}, 400, 200),
            (2, {1}, 1, 1, 1, set(), {'unknown', 'reset', 'update'}, 600, 300),
            (2, {1, 2}, 1, 0, 1, {1, 2}, {'update', 'unknown'}, 400, 200)] + ([
            (1, {1}, 2, 2, 2, set(), {'unknown', 'reset'}, 600, 300),
            (2, {1}, 1, 1, 2, set(), {'update'}, 1000, 1000),
            (2, {2}, 2, 1, 1, set(), {'unknown', 'reset', 'update'}, 600, 300)] if T else []):
        need = base[:]
        if maxstack < 2: need = [x for x in need if x not in ('savepoint', 'rollbackto', 'release')]
        if maxctx: need += ['enter', 'exit']
        if cbs: need += ['sub', 'unsub']
        need += [x for e in extras for x in {'unknown': ['getunknown', 'setunknown'], 'reset': ['reset'], 'update': ['update'] if ng > 1 else []}[e]]
        _, _, edges = tlc.run(ctx, 'Settings', {'NG': ng, 'Rep': rep, 'MaxVal': maxval, 'MaxCtx': maxctx, 'MaxStack': maxstack, 'Callbacks': cbs, 'Extras': extras},
            invariants=['Idle'], properties=['Assigned', 'ReadsCurrent', 'Restores', 'ToldOnce', 'NotTold', 'Unchanged'], coverage_required=need)
        g = walk.Graph(edges)
        ws, k = g.cover(ctx.rng, maxlen=30)
        n = len(ws); cap *= 20 if T else 1
        if len(ws) > cap: ctx.rng.shuffle(ws); ws = ws[:cap]
        ws += g.random_walks(ctx.rng, nrand * (10 if T else 1), 25)
        items = [g.expand(w) for w in ws if w]
        ctx.log('%d transitions, %d of %d walks' % (len(edges), len(items), n))
        pool.replay(ctx, 'checks.p15', items, {'sock': ctx.pg.sock, 'ng': ng, 'rep': sorted(rep), 'maxval': maxval, 'callbacks': sorted(cbs)}, key_prefix='', limit=60)
