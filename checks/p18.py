"""P18: arrays and rows (specs/Containers.tla)."""
TECHNIQUE = 'TLA+ model (Containers) of what arrays with bounds, nests, and rows with named columns denote; TLC enumerates constructions from elements and bounds, every nest up to a size, rows with equal names, and all indexes, slices, addresses and transformations, checking that the definitions agree with each other; each transition is carried out on the real Array and Row, all views are compared after it, and arrays and rows make a round trip through the server'
LEVEL_NOTE = 'Arrays of up to 3 dimensions and 12 (thorough: 27) elements with lower bounds from -1 to 2, chains of sub-arrays and slices, nests up to depth 3 with up to 2 (thorough: 3) items, rows of up to 4 (5) columns with equal names. All transitions are replayed. Bounds are not part of the equality of arrays; one-dimensional slices are lists.'

def worker(job):
    import copy, itertools, pickle, random
    from postgresql.types import Array, Row
    from . import live
    st = {}
    def run(walk):
        rng = random.Random(repr(walk) + str(job['seed']))
        kind = rng.randrange(3); nulls = rng.random() < .4
        def val(k): # the value of element k
            if nulls and k % 3 == 2: return None
            return k if kind < 2 else rng_vals[k]
        rng_vals = [('s%d' % k, (k, k), {k: [k]}, 1.5 * k)[rng.randrange(4)] for k in range(200)]
        vals = {}
        def V(k): return vals.setdefault(k, val(k))
        def nest(t): return V(t[1]) if t[0] == 'e' else [nest(c) for c in t[1]]
        done = []
        def fail(key, msg): return {'fail': {'key': key, 'msg': '%s: %s' % (done, msg)}}
        def check(a, s):
            m = s['arr']; n = nest(s['nest'])
            el = [V(k) for k in m['el']]; dim = tuple(m['dim'])
            views = {'class': (type(a), Array), 'dimensions': (a.dimensions, dim), 'lowerbounds': (a.lowerbounds, tuple(m['lo'])), 'upperbounds': (a.upperbounds, tuple(s['up'])), 'ndims': (a.ndims, len(dim)),
                'elements': (list(a.elements()), el), 'nest': (a.nest(), n), 'len': (len(a), dim[0] if dim else 0)}
            for k, (g, e) in views.items():
                if type(g) is not type(e) or g != e: return k, g, e
            if len(dim) > 1:
                if a.nest(tuple) != tuple(tup(x, len(dim) - 1) for x in n): return 'nest(tuple)', a.nest(tuple), n
            its = [x.nest() if isinstance(x, Array) else x for x in a]
            if its != n: return 'iteration', its, n
            if not (a == n) or a != n or (n and a == n[:-1]) or not (a == Array(n)) or not a <= n or not a >= n or a < n or a > n: return 'comparison', a, n
            for what, b in (('copy', copy.copy(a)), ('deepcopy', copy.deepcopy(a)), ('pickle', pickle.loads(pickle.dumps(a))), ('Array(a)', Array(a))):
                if (type(b), b.dimensions, b.lowerbounds, b.upperbounds, list(b.elements()), b.nest()) != (Array, a.dimensions, a.lowerbounds, a.upperbounds, el, n): return what, b, n
            if repr(a) != 'postgresql.types.Array(%r)' % (n,): return 'repr', repr(a), n
        def tup(x, d): return tuple(tup(y, d - 1) for y in x) if d > 1 else tuple(x)
        def server(a, s):
            if 'q' not in st:
                if 'db' not in st: st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
                st['q'] = st['db'].prepare('SELECT $1::int[], array_ndims($1), array_dims($1), array_to_json($1)::text, (SELECT array_agg(x) FROM unnest($1) x)')
                st['sub'] = st['db'].prepare('SELECT ($1::int[])[$2], ($1)[$2][$3], ($1)[$2][$3][$4]')
            m = s['arr']; el = [V(k) for k in m['el']]
            b, nd, ds, js, els = st['q'].first(a)
            w = check(b, s)
            if w: return 'received array: %s is %r, expected %r' % w
            import json
            if (nd or 0) != len(m['dim']) or (ds or '') != ''.join('[%d:%d]' % x for x in zip(m['lo'], s['up'])): return 'the server got dimensions %r' % ds
            if json.loads(js) != nest(s['nest']): return 'the server got %s' % js
            if list(els or []) != el: return 'the server got elements %r' % (els,)
            for k in range(3):
                ad = [rng.randint(-2, 4) for i in range(3)]
                got = st['sub'].first(a, *ad)
                for d in range(1, 4):
                    if d == len(m['dim']) and got[d - 1] != a.sql_get_element(ad[:d]): return 'element %r is %r on the server, sql_get_element gives %r' % (ad[:d], got[d - 1], a.sql_get_element(ad[:d]))
        cur = None; row = None; n = 0
        for act, obs, s2 in walk['steps']:
            op = act['op']; n += 1; done.append({k: v for k, v in act.items() if k != 't' or op != 'nest'})
            want = obs.get('r')
            try:
                if op in ('make', 'nest'):
                    try:
                        if op == 'make':
                            els = [V(k + 1) for k in range(act['n'])]
                            kw = {}
                            if act['hl'] or rng.random() < .3: kw['lowerbounds'] = rng.choice([tuple, list])(act['l']) if act['hl'] else None
                            if act['hu'] or rng.random() < .3: kw['upperbounds'] = rng.choice([tuple, list])(act['u']) if act['hu'] else None
                            cur = Array.from_elements(rng.choice([list, tuple, iter])(els), **kw)
                        else:
                            c = itertools.count(1)
                            def tree(t): return V(next(c)) if len(t) == 1 else [tree(x) for x in t[1]]
                            nst = tree(act['t']); done[-1]['nest'] = nst
                            cur = Array(nst) if rng.random() < .6 else Array(tuple(nst)) if rng.random() < .5 else Array.from_nest(nst)
                        got = 'ok'
                    except ValueError: got = 'ValueError'
                    if want == 'any':
                        if got == 'ok' and (act['n'] or cur.dimensions): return fail(op, 'was accepted: %r' % cur)
                        continue
                    if got != want: return fail(op + ':' + want, 'gave %s, expected %s' % (got, want))
                elif op == 'at':
                    try: x = cur[act['i']]; got = 'ok' if isinstance(x, Array) else 'element'
                    except IndexError: got = 'IndexError'; x = None
                    if got != want: return fail('at:' + want, 'gave %s (%r), expected %s' % (got, x, want))
                    if got == 'element' and x != V(obs['el']): return fail('at:value', 'gave %r, expected %r' % (x, V(obs['el'])))
                    if got == 'ok': cur = x
                elif op == 'cut':
                    f, t, s = [None if act[k] == 99 else act[k] for k in 'fts']
                    x = cur[f:t:s]
                    if want == 'ok': cur = x
                    elif list(x) != [V(k) for k in obs['els']]: return fail('cut:list', 'gave %r, expected %r' % (x, [V(k) for k in obs['els']]))
                elif op == 'get':
                    ad = rng.choice([tuple, list])(act['ad'])
                    try: x = ('v', cur.get_element(ad))
                    except (IndexError, ValueError) as e: x = type(e).__name__
                    e = want if not want.isdigit() else ('v', V(int(want)))
                    if x != e: return fail('get', 'get_element gave %r, expected %r' % (x, e))
                    try: x = cur.sql_get_element(ad)
                    except ValueError: x = 'refused'
                    e = obs['sql']; e = None if e == 'None' else V(int(e)) if e.isdigit() else e
                    if x != e and not (e == 'refused' and x is None): return fail('sql_get', 'sql_get_element gave %r, expected %r' % (x, e))
                elif op == 'row':
                    names = s2['row']; w = len(names)
                    V2 = [V(k + 1) for k in range(w)]
                    keymap = {k: i for i, k in enumerate(names)}
                    r = rng.randrange(4) if kind < 2 else rng.randrange(2)
                    if r == 0: row = Row.from_sequence(keymap, rng.choice([tuple, list, iter])(V2)); src = 'from_sequence'
                    elif r == 1 and len(keymap) == w:
                        d = {k: v for k, v in zip(names, V2) if v is not None or rng.random() < .5}
                        row = Row.from_mapping(keymap, d); src = 'from_mapping'
                    elif r == 1: # of the columns of one name, only one has a value
                        row = Row.from_mapping(keymap, dict(zip(names, V2))); src = 'from_mapping'
                        if [row[k] for k in keymap] != [V2[i] for i in keymap.values()] or len(row) != w: return fail('row:from_mapping', repr(row))
                        row = Row.from_sequence(keymap, V2)
                    else:
                        if 'db' not in st:
                            st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
                        q = 'SELECT ' + ', '.join('%s::int AS "%s"' % ('NULL' if v is None else v, k) for k, v in zip(names, V2))
                        p = st['db'].prepare(q); src = 'server'
                        row = p.first() if w > 1 and r == 2 else p()[0]
                        if list(p.column_names) != names: return fail('row:column_names', repr(p.column_names))
                    done[-1]['names'] = names; done[-1]['src'] = src
                    if tuple(row) != tuple(V2) or len(row) != w: return fail('row:values', 'is %r, expected %r' % (tuple(row), V2))
                elif op == 'read':
                    names = s2['row']; w = len(names)
                    for k, e in enumerate(obs['at']):
                        i = k - w - 2
                        try: x = row[i]; ok = True
                        except IndexError: ok = False
                        if ok != (e > 0) or (ok and x != V(e)): return fail('row:at', '[%d] gave %r' % (i, x if ok else 'IndexError'))
                        x = row.get(i)
                        if x != (V(e) if e else None): return fail('row:get', 'get(%d) gave %r' % (i, x))
                        if 0 <= i < w:
                            x = row.key_from_index(i); e2 = names[i] if obs['last'][names[i]] == i + 1 else None
                            if x != e2: return fail('row:key_from_index', '%d gave %r' % (i, x))
                    for k, e in obs['last'].items():
                        try: x = row[k]; ok = True
                        except KeyError: ok = False
                        if ok != (e > 0) or (ok and x != V(e)): return fail('row:key', '[%r] gave %r' % (k, x if ok else 'KeyError'))
                        if row.get(k) != (V(e) if e else None): return fail('row:get', 'get(%r) gave %r' % (k, row.get(k)))
                        if row.index_from_key(k) != (e - 1 if e else None): return fail('row:index_from_key', repr(k))
                    ks = [names[i - 1] for i in obs['keys']]
                    if list(row.column_names) != ks or set(row.keys()) != set(ks) or len(list(row.keys())) != len(ks): return fail('row:keys', 'keys are %r and %r, expected %r' % (row.column_names, list(row.keys()), ks))
                    its = [(names[i - 1], V(i)) for i in obs['keys']]
                    if list(row.items()) != its: return fail('row:items', 'items are %r, expected %r' % (list(row.items()), its))
                    if list(row.values()) != list(row): return fail('row:values', repr(list(row.values())))
                    for b in (copy.copy(row), copy.deepcopy(row), pickle.loads(pickle.dumps(row))):
                        if (type(b), tuple(b), dict(b.keymap)) != (Row, tuple(row), dict(row.keymap)): return fail('row:copy', repr(b))
                    f, t = rng.randint(-5, 5), rng.randint(-5, 5)
                    if tuple(row[f:t]) != tuple(row)[f:t] or row != tuple(row) or hash(row[0:0]) != hash(()): return fail('row:slice', repr(row[f:t]))
                elif op == 'transform':
                    names = s2['row']; pos = set(act['pos'])
                    args = [(lambda x: ('p', x)) if i + 1 in pos else None for i in range(max(pos, default=0))]
                    kw = {k: (lambda x: ('k', x)) for k in act['kws']}
                    if rng.random() < .3: kw.setdefault(rng.choice(names), None)
                    before = tuple(row)
                    try: x = row.transform(*args, **kw); ok = True
                    except KeyError: ok = False
                    if tuple(row) != before: return fail('transform:original', 'the row was changed: %r' % row)
                    if ok != bool(want): return fail('transform:keys', 'was %s' % ('accepted' if ok else 'refused'))
                    if ok:
                        e = tuple((b, ('p', b), ('k', b))[c] for b, c in zip(before, want))
                        if tuple(x) != e or type(x) is not Row or dict(x.keymap) != dict(row.keymap): return fail('transform', 'gave %r, expected %r' % (x, e))
            except Exception as e:
                import traceback
                return fail(op + ':exception', '%r %s' % (e, traceback.format_exc()[-500:]))
            if s2['arr']['kind'] == 'array' and want in ('ok',):
                w = check(cur, s2)
                if w: return fail('%s:%s' % (op, w[0]), '%s is %r, expected %r' % w)
        if cur is not None and walk['steps'][-1][2]['arr']['kind'] == 'array' and kind < 2 and rng.random() < job['server']:
            try: w = server(cur, walk['steps'][-1][2])
            except Exception as e: w = repr(e)
            if w: return fail('server', w)
        return {'steps': n}
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    none = {'MaxN': 0, 'MaxDims': 0, 'Lowers': set(), 'Idx': set(), 'NestDepth': 0, 'NestWidth': 0, 'Widths': 0, 'Names': set()}
    for c, need in ((dict(MaxN=27 if T else 8, MaxDims=2, Lowers={-1, 1, 2}, Idx=set(range(-4, 5)) if T else {-4, -2, -1, 0, 1, 3}), ['make', 'at', 'cut', 'get']),
                    (dict(MaxN=8, MaxDims=3, Lowers={0, 1, 2} if T else {0, 1}, Idx={-3, -2, -1, 0, 1, 2} if T else {-2, -1, 0, 2}), ['make', 'at', 'cut', 'get']),
                    (dict(NestDepth=3, NestWidth=2, Idx={-1}), ['nest']),
                    (dict(NestDepth=2, NestWidth=4 if T else 3, Idx={0, -1, 3}), ['nest']),
                    (dict(Widths=5 if T else 4, Names={'a', 'b c', 'A'}), ['row', 'read', 'transform'])):
        _, _, edges = tlc.run(ctx, 'Containers', dict(none, **c), invariants=['Denotes'], coverage_required=need, heap='6g')
        g = walk.Graph(edges)
        ws, k = g.cover(ctx.rng, maxlen=15)
        ws += g.random_walks(ctx.rng, 2000 if T else 300, 8)
        ctx.rng.shuffle(ws)
        items = [g.expand(w) for w in ws if w]
        ctx.log('%d transitions, %d walks' % (len(edges), len(items)))
        ctx.sample({'walk': items[0]['steps'][-1][:2]})
        pool.replay(ctx, 'checks.p18', items, {'sock': ctx.pg.sock, 'server': .5}, limit=60)
