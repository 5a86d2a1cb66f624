"""P19: editing configuration files (specs/ConfLine.tla, specs/Config.tla)."""
TECHNIQUE = 'TLA+ model (ConfLine) of how the server reads a configuration file, character by character, and (Config) of histories of edits; TLC enumerates files and histories, which are carried out on real files through ConfigFile, alter_config and pg_dotconf with adversarial names, values, spellings and comments; after each step TLC judges the characters of the file: requested settings, all other settings and lines, comments, the dictionary view, and what the server itself reads (pg_file_settings)'
LEVEL_NOTE = 'Files of up to 3 (thorough: 4) lines of active, commented, duplicate, oddly spaced, unrelated and refused lines; all transitions where feasible plus random walks. Names are case-insensitive ASCII names, possibly qualified; values are any text without NUL. A commented line of a setting may be activated by setting it. Crashes while the file is written and included files are not part of the property.'

NAMES = ['foo', 'bar_1', 'verif.opt', 'TimeZone', 'work_mem', 'a', 'Verif.Q2']
PLAIN = ['5432', '1.5', 'on', 'none', '512MB', 'a-b/c:d', '0', '-1', 'xx_y']
NASTY = ['', "it's", "''", "'", 'a b', 'x#y', ' # no', 'a=b', '\\', 'a\\', "\\'", 'a\\nb', 'two\nlines', '\ttab ', '\xe9t\xe9 \u20ac', '"$user", public', "'quoted'", '#', 'c:\\new\\table\\8', '\r', 'a\r\nb', "x''y\\\\", '%m [%p] ', '\\x41\\101', 'q\x08\x0c']
OTHER = ['', '   ', '# a comment', '#', '## foo and bar', '# ----- = -----', "#foo is 'what'", '# bar_1 must be = x', '\t# tabbed', "include_if_exists 'nothing.conf'", 'other = 1 # keep', "OTHER='x''y'", "other 'it\\'s' # keep", '# see x = y', "other_foo = 'foo = 1'", "foo_other = 2 # foo = 3", 'verif.other=on', "#foofoo = 1"]

def quote(v, rng):
    out = "'"
    for c in v:
        if c == "'": out += rng.choice(["''", "\\'"])
        elif c == '\\': out += '\\\\'
        elif c in '\n\r\t\f' and (c in '\n\r' or rng.random() < .5): out += '\\' + {'\n': 'n', '\r': 'r', '\t': 't', '\f': 'f'}[c]
        else: out += c
    return out + "'"

def worker(job):
    import os, random
    from postgresql import configfile as C
    from postgresql.bin import pg_dotconf
    from . import live
    st = {}
    def run(walk):
        if job['server'] and 'db' not in st: st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        rng = random.Random(repr(walk) + str(job['seed']))
        names = rng.sample(NAMES, 2)
        vals = [[None, *rng.sample(NASTY + PLAIN, 2)] for n in names]
        path = os.path.join(job['dir'], 'w%d.conf' % job['worker'])
        def spell(n): return rng.choice([n, n, n.lower(), n.upper(), n.title()])
        def line(k):
            kind, n, v = k
            if kind == 'other': return rng.choice(OTHER)
            if kind == 'bad': return rng.choice(['garbage', 'other = ', '= 5', "other = 'x", 'other = a b', '5 = 6'])
            v = vals[n - 1][v]
            t = v if v in PLAIN and rng.random() < .5 else quote(v, rng)
            eq = rng.choice([' = ', '=', '  =\t', ' =', '= ']) if kind == 'com' else rng.choice([' = ', ' = ', '=', '\t=  ', ' ', '   ', '' if t.startswith("'") else ' '])
            tail = rng.choice(['', '', ' ', '\t# why', ' # was: 5 = \'x', '#x', ' # = '])
            return (rng.choice(['', '', ' ', '\t']) if kind == 'act' else rng.choice(['#', '# ', ' #', '## ', '#\t#'])) + spell(names[n - 1]) + eq + t + tail
        lines = [line(tuple(k)) for k in walk['init']['file']]
        text = '\n'.join(lines)
        if lines and rng.random() < .6: text += '\n'
        elif lines and not lines[-1]: lines = lines[:-1]
        if not text: lines = []
        with open(path, 'w', newline='') as f: f.write(text)
        os.chmod(path, 0o644)
        cf = C.ConfigFile(path)
        def content():
            with open(path, newline='', encoding='utf-8') as f: t = f.read()
            ls = t.split('\n')
            return ls[:-1] if ls[-1] == '' else ls
        ctxs = []; events = []; done = []
        chars = list
        if content() != lines: return {'fail': {'key': 'harness', 'msg': repr((content(), lines))}}
        for act, obs, s2 in walk['steps']:
            op = act['op']
            m = [(names[n - 1], vals[n - 1][v]) for n, v in act['m']]
            sp = [(spell(n), v) for n, v in m]
            done.append((op, sp))
            how = rng.randrange(6)
            try:
                if op in ('set', 'del', 'update') and how == 0:
                    pg_dotconf.command(['pg_dotconf', path, *[n if v is None else n + '=' + v for n, v in sp]]); done[-1] += ('pg_dotconf',)
                elif op in ('set', 'update') and how == 1 and all(v is not None for _, v in sp):
                    sf = path + '.set'
                    with open(sf, 'w', newline='') as f: f.write(''.join('%s = %s\n' % (n, quote(v, rng)) for n, v in sp) + '# %s = 77\n' % sp[0][0])
                    pg_dotconf.command(['pg_dotconf', '-f', sf, path]); done[-1] += ('pg_dotconf -f',)
                elif op in ('set', 'del', 'update') and how == 2:
                    with open(path) as f: ls = C.alter_config(dict(sp, other='no') if rng.random() < .5 else dict(sp), f, keys=[n for n, v in sp])
                    with open(path, 'w') as f: f.write(''.join(ls))
                    done[-1] += ('alter_config',)
                elif op == 'set' and how < 5: cf[sp[0][0]] = sp[0][1]
                elif op == 'del' and how < 5:
                    try: del cf[sp[0][0]]
                    except KeyError: pass # judged by what the file says
                elif op in ('set', 'del', 'update'): cf.update(dict(sp))
                elif op == 'enter':
                    c = cf(**dict(sp)); c.__enter__(); ctxs.append(c)
                elif op == 'exit':
                    e = (None, None, None) if rng.random() < .5 else (ValueError, ValueError('leaving'), None)
                    if ctxs.pop().__exit__(*e) and e[0]: return {'fail': {'key': 'exit:swallowed', 'msg': repr(done)}}
                # reading
                got = []
                for n in (*names, 'nothing'):
                    x = spell(n); r = rng.randrange(3)
                    if r == 0:
                        try: v = cf[x]
                        except KeyError: v = None
                    elif r == 1: v = cf.get(x); assert v is not None or cf.get(x, 'alt') == 'alt', 'alternative'
                    else:
                        v = cf.getset([x, names[0]]); assert set(v) == {x, names[0]}, v
                        v = v[x]
                    got.append({'name': chars(n), 'some': v is not None, 'val': chars(v or '')})
                view = dict(cf.items())
                if list(cf.keys()) != list(view) or list(cf) != list(view) or list(cf.values()) != list(view.values()) or len(cf) != len(view) or any(n not in cf for n in view):
                    return {'fail': {'key': 'view', 'msg': 'keys, values, items, iteration and length do not agree: %r' % view}}
            except Exception as e: return {'fail': {'key': op + ':exception', 'msg': '%r on %r: %r' % (done, lines, e)}}
            ev = {'op': op, 'm': [{'name': chars(n.lower()), 'some': v is not None, 'val': chars(v or '')} for n, v in m], 'lines': [chars(x) for x in content()],
                'view': [{'name': chars(n), 'val': chars(v)} for n, v in view.items()], 'got': got, 'asked': False, 'server': []}
            if job['server'] and not any(k[0] == 'bad' for k in walk['init']['file']):
                last = {}
                for n, v, e in st['db'].prepare('SELECT name, setting, error FROM pg_file_settings WHERE sourcefile = $1 ORDER BY seqno')(path):
                    if n is None: return {'fail': {'key': 'server:refused', 'msg': 'the server refuses %r after %r: %s' % (content(), done, e)}}
                    last[n.lower()] = v
                ev['asked'] = True; ev['server'] = [{'name': chars(n), 'val': chars(v)} for n, v in last.items()]
            events.append(ev)
        return {'steps': len(events), 'data': {'lines': [chars(x) for x in lines], 'events': events, 'done': repr(done)}}
    return run

def run(ctx):
    import os, shutil
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    d = os.path.join(ctx.pg.dir, 'conf'); os.mkdir(d); os.chmod(d, 0o755)
    with open(os.path.join(ctx.pg.data, 'postgresql.conf'), 'a') as f:
        for k in range(8): f.write("include_if_exists '%s/w%d.conf'\n" % (d, k))
    act = [('act', 1, 1), ('act', 1, 2), ('com', 1, 1), ('other', 0, 0)]
    for kinds, nl, nn, ctxs, cap, nrand in (
            (act + [('act', 2, 1), ('com', 2, 2)], 3, 2, 1, 1000, 800),
            (act + [('com', 1, 2)], 3, 1, 2, 500, 300),
            (act[:3] + [('bad', 0, 0)], 2, 1, 0, 300, 100)) + (((act + [('act', 2, 1)], 4, 2, 1, 4000, 4000),) if T else ()):
        _, _, edges = tlc.run(ctx, 'Config', {'Kinds': frozenset(kinds), 'MaxLines': nl, 'MaxCtx': ctxs, 'NamesN': nn}, properties=['Sets', 'Stays'],
            coverage_required=['set', 'del', 'get'] + (['update'] if nn > 1 else []) + (['enter', 'exit'] if ctxs else []))
        ok = lambda k: tuple(k) in set(kinds)
        g = walk.Graph(edges, init=[e[0] for e in edges if not e[0]['ctx'] and len(e[0]['file']) <= nl and all(ok(k) for k in e[0]['file'])])
        ws, k = g.cover(ctx.rng, maxlen=12)
        n = len(ws); cap *= 20 if T else 1
        if len(ws) > cap: ctx.rng.shuffle(ws); ws = ws[:cap]
        ws += g.random_walks(ctx.rng, nrand * (10 if T else 1), 8)
        items = [g.expand(w) for w in ws if w]
        ctx.log('%d transitions, %d of %d walks' % (len(edges), len(items), n))
        pool.replay(ctx, 'checks.p19', items, {'sock': ctx.pg.sock, 'dir': d, 'server': True}, key_prefix='', limit=60, env_extra={'PYTHONUTF8': '1'})
        data = ctx.data; idx = sorted(data)
        if idx: ctx.sample({'lines': [''.join(x) for x in data[idx[0]]['lines']], 'history': data[idx[0]]['done']})
        seen = set()
        for b, v in sorted(tlc.evaluate(ctx, 'Config', [{k: x for k, x in data[i].items() if k != 'done'} for i in idx], {'Kinds': set(), 'MaxLines': 0, 'MaxCtx': 0, 'NamesN': 0}).items()):
            key = v.split(':')[0]
            if key in seen: continue
            seen.add(key)
            ctx.violation(key, '%s: %s' % (data[idx[b]]['done'], v[:1200]), {'module': 'checks.p19', 'item': items[idx[b]], 'recorded': data[idx[b]]})
