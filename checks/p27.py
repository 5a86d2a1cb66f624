"""P27: bit strings and geometric values (specs/Denote.tla)."""
TECHNIQUE = 'TLA+ specification (Denote) of bit strings as sequences and of points, segments, boxes and circles over exact rationals; TLC checks the laws of the denotations (slices, concatenation, complex arithmetic, midpoints, directions) for all small values and judges recorded programs of operations on the real classes, with every view of each result, and the answers of PostgreSQL to the same questions'
LEVEL_NOTE = 'Bit strings: all of up to 4 (thorough: 7) bits plus sampled ones of up to 40 around byte boundaries, all slices and positions within and beyond; coordinates are halves and quarters between -4 and 4, so that the arithmetic of floating point is exact or of known error; overflow, infinities and NaN are not explored.'

def worker(job):
    import random
    from fractions import Fraction
    from . import live
    import postgresql.types.bitwise as B, postgresql.types.geometry as G
    import postgresql.types, postgresql.types.geometry, postgresql.types.bitwise
    env = {'postgresql': __import__('postgresql')}
    st = {}
    def srv(k, sql):
        if 'db' not in st: st['db'] = live.connect(job['sock'], job['db'], live.Plan())
        if k not in st: st[k] = st['db'].prepare(sql)
        return st[k]
    def bits(s): return [int(c) for c in s]
    def text(b): return ''.join(map(str, b))
    def F(f): q = Fraction(f).limit_denominator(100000); return [q.numerator, q.denominator]
    def S(f): q = Fraction(float(f) ** 2).limit_denominator(10000); return [q.numerator, q.denominator]
    def num(q): return q[0] / q[1]
    def pt(p): return (num(p[0]), num(p[1]))
    def flat(v): return [F(v)] if not isinstance(v, tuple) else [x for w in v for x in flat(w)]
    def view(v):
        if not isinstance(v, B.Varbit): raise TypeError('a %s' % type(v).__name__)
        n = len(v)
        return {'text': bits(str(v)), 'len': n, 'truth': bool(v), 'items': [bits(str(x))[0] if isinstance(x, B.Bit) and len(x) == 1 else 2 for x in v],
            'back': [bits(str(v[-i]))[0] for i in range(1, n + 1)], 'repr': bits(str(eval(repr(v), env))), 'again': bits(str(type(v)(v))),
            'server': bits(srv('v', 'SELECT $1::varbit::text').first(v))}
    def made(b, how):
        if how == 'bytes': return B.Varbit(bytes(int(text(b[i:i + 8]), 2) for i in range(0, len(b), 8)))
        if how == 'bit': return B.Bit(text(b))
        if how == 'bool': return B.Bit(bool(b[0]))
        if how == 'server': return srv('s', 'SELECT $1::text::varbit').first(text(b))
        if how == 'server bit': return st['db'].query.first("SELECT B'%s'" % text(b)) if 'db' in st else srv('s', 'SELECT $1::text::varbit').first(text(b))
        return B.Varbit(text(b))
    def hows(b): return ['text', 'server', 'server bit'] + (['bytes'] if b and len(b) % 8 == 0 else []) + (['bit', 'bool'] if len(b) == 1 else [])
    def one(e, rng):
        op = e['op']
        if op in ('new', 'add', 'mul', 'slice', 'item', 'eq', 'other', 'refused'):
            if op == 'refused':
                try: return 'no error: ' + repr(B.Bit(None if e['x'] == 'None' else e['x']) if e['cls'] == 'Bit' else B.Varbit(e['x']))
                except ValueError: return 'ValueError'
            a = made(e['a'], rng.choice(hows(e['a']))); before = str(a)
            if op == 'new': r = view(a)
            elif op == 'add': r = view(a + made(e['b'], rng.choice(hows(e['b']))))
            elif op == 'mul': r = view(a * e['k'])
            elif op == 'slice': r = view(a[slice(*(None if e['s'][k] == 999 else e['s'][k] for k in ('from', 'to', 'step')))])
            elif op == 'item':
                try: x = a[e['k']] if rng.random() < .5 else a.getbit(e['k']); r = bits(str(x))[0]
                except IndexError: r = 9
            elif op == 'eq':
                h = rng.choice(hows(e['b']) + ['plain'])
                b = text(e['b']) if h == 'plain' and not isinstance(a, B.Bit) else made(e['b'], h)
                if rng.random() < .3: a, b = b, a
                r = [a == b, a != b]
            elif op == 'other':
                x = {'none': None, 'int': 7, 'object': object(), 'list': ['a'], 'words': 'abc', 'float': 1.5}[e['x']]
                r = [a == x, a != x]
            if str(a) != before and op != 'eq': raise RuntimeError('the operand was changed')
            return r
        P = [G.Point(pt(e[k])) for k in 'abcd' if k in e]
        p = P[0]; q = P[1] if len(P) > 1 else None
        # plain pairs do as well
        o = rng.choice([q, tuple(q), list(q)]) if q is not None else None
        if op == 'point':
            return {'v': flat(p), 'xy': flat((p.x, p.y)), 'repr': flat(eval(repr(p), env)), 'text': flat(srv('pt', 'SELECT $1::text::point').first(str(p))), 'server': flat(srv('p', 'SELECT $1::point').first(p)), 'again': flat(G.Point(list(p)))}
        if op in ('padd', 'psub', 'pmul', 'pdiv'):
            c = {'padd': '+', 'psub': '-', 'pmul': '*', 'pdiv': '/'}[op]
            if e['who']: return flat(srv(op, 'SELECT $1::point %s $2::point' % c).first(p, q))
            r = p + o if c == '+' else p - o if c == '-' else p * o if c == '*' else p / o
            return flat(r) if type(r) is G.Point else []
        if op == 'dist': return [S(srv(op, 'SELECT $1::point <-> $2::point').first(p, q) if e['who'] else p.distance(o))]
        if op in ('lseg', 'length', 'center', 'vertical', 'horizontal', 'slope', 'parallel', 'perpendicular'):
            s = G.Lseg((p, o)); t = G.Lseg((P[2], P[3])) if len(P) > 2 else None
            if op == 'lseg': return {'v': flat(s), 'one': flat((s.one, s.two)), 'repr': flat(eval(repr(s), env)), 'text': flat(srv('lt', 'SELECT $1::text::lseg').first(str(s))), 'server': flat(srv('l', 'SELECT $1::lseg').first(s))}
            if op == 'length': return [S(srv(op, 'SELECT @-@ $1::lseg').first(s) if e['who'] else s.length)]
            if op == 'center': return flat(srv(op, 'SELECT @@ $1::lseg').first(s) if e['who'] else s.center)
            if op == 'vertical': return srv(op, 'SELECT ?| $1::lseg').first(s) if e['who'] else s.vertical
            if op == 'horizontal': return srv(op, 'SELECT ?- $1::lseg').first(s) if e['who'] else s.horizontal
            if op == 'slope': return flat(s.slope)
            t = rng.choice([t, (P[2], P[3])])
            if op == 'parallel': return srv(op, 'SELECT $1::lseg ?|| $2::lseg').first(s, G.Lseg(t)) if e['who'] else s.parallel(t)
            return srv(op, 'SELECT $1::lseg ?-| $2::lseg').first(s, G.Lseg(t)) if e['who'] else s.perpendicular(t)
        if op == 'box':
            b = G.Box((p, o))
            return {'v': flat(b), 'hl': flat((b.high, b.low)), 'repr': flat(eval(repr(b), env)), 'text': flat(srv('bt', 'SELECT $1::text::box').first(str(b))), 'server': flat(srv('b', 'SELECT $1::box').first(b)),
                'raw': flat(srv('br', 'SELECT box($1::point, $2::point)').first(p, q)), 'again': flat(G.Box(b))}
        if op == 'bcenter': return flat(srv(op, 'SELECT @@ $1::box').first(G.Box((p, q))) if e['who'] else G.Box((p, o)).center)
        if op == 'circle':
            c = G.Circle((p, num(e['k'])))
            return {'v': flat(c), 'cr': flat((c.center, c.radius)), 'repr': flat(eval(repr(c), env)), 'text': flat(srv('ct', 'SELECT $1::text::circle').first(str(c))), 'server': flat(srv('c', 'SELECT $1::circle').first(c))}
    def run(item):
        rng = random.Random(repr(item)); out = []
        for e in item:
            e = dict(e, err='')
            try: e['r'] = one(e, rng)
            except Exception as x:
                if type(x).__name__ == 'Hang': raise
                e['r'] = []; e['err'] = type(x).__name__
                if e['who'] and e['op'] == 'pdiv' and getattr(x, 'code', '') == '22012': e['err'] = 'ZeroDivisionError'
                elif hasattr(x, 'code'): st.clear()
            out.append(e)
        return {'steps': len(out), 'data': {'events': out}}
    return run

def cases(T, rng):
    from itertools import product
    N = 7 if T else 4
    es = []
    short = [list(b) for n in range(N + 1) for b in product((0, 1), repeat=n)]
    long = [[rng.choice((0, 0, 1)) if k else v for v in [rng.randint(0, 1)] for _ in range(n)] for n in (5, 7, 8, 9, 15, 16, 17, 23, 24, 25, 40) for k in (0, 1, 1, 1) for _ in range(6 if T else 2)]
    long += [[0] * n for n in (7, 8, 9, 16, 17)] + [[0] * n + [1] for n in (7, 8, 9, 16)]
    ix = lambda n: [999, 0, 1, -1, 2, -2, n, -n, n - 1, n + 1, -n - 1, n // 2, 8, -8, 7, 9]
    for b in short + long:
        n = len(b)
        es.append({'op': 'new', 'a': b})
        for i in sorted({0, 1, -1, n, n - 1, -n, -n - 1, n + 1, n // 2, 7, 8, 9, -8, -9}): es.append({'op': 'item', 'a': b, 'k': i})
        for k in (-1, 0, 1, 2, 3): es.append({'op': 'mul', 'a': b, 'k': k})
        sl = list(product(ix(n), ix(n), (999, 1, 2, -1, -2, 3)))
        for f, t, s in (sl if T and n < 5 else rng.sample(sl, 14)): es.append({'op': 'slice', 'a': b, 's': {'from': f, 'to': t, 'step': s}})
        for x in ('none', 'int', 'object', 'list', 'words', 'float'): es.append({'op': 'other', 'a': b, 'x': x})
        for c in rng.sample(short + long, 8): es.append({'op': 'add', 'a': b, 'b': c})
        for c in rng.sample(short, 5) + [b, b + [0], b[:-1], [1 - v for v in b[:1]] + b[1:], b[:-1] + [1 - v for v in b[-1:]]]: es.append({'op': 'eq', 'a': b, 'b': c})
    for x in ('2', '01x', 'abc', '0b1'): es += [{'op': 'refused', 'cls': c, 'x': x} for c in ('Varbit', 'Bit')]
    for x in ('', '01', '00', 2, 'None'): es.append({'op': 'refused', 'cls': 'Bit', 'x': x})
    # geometry
    co = [[n, d] for n, d in ((0, 1), (1, 1), (-1, 1), (2, 1), (-3, 1), (1, 2), (-5, 4), (4, 1), (7, 2))]
    pts = [[x, y] for x in co for y in co]
    G = []
    def add(op, who=True, **kw):
        G.append(dict(kw, op=op, who=''))
        if who: G.append(dict(kw, op=op, who='server'))
    for p in pts:
        add('point', False, a=p)
        for k in ([0, 1], [1, 2], [3, 1], [-1, 1], [-1, 4]): add('circle', False, a=p, k=k)
    small = [[[x, 1], [y, 1]] for x in (-1, 0, 2) for y in (-1, 0, 2)]
    pairs = list(product(small, small)) + [(rng.choice(pts), rng.choice(pts)) for _ in range(4000 if T else 150)]
    for p, q in pairs:
        for op in ('padd', 'psub', 'pmul', 'pdiv', 'dist', 'length', 'center', 'vertical', 'horizontal', 'bcenter'): add(op, a=p, b=q)
        for op in ('lseg', 'slope', 'box'): add(op, False, a=p, b=q)
    segs = list(product(small, small))
    for (p, q), (r, s) in (product(segs, segs) if T else [(rng.choice(segs), rng.choice(segs)) for _ in range(1500)]):
        for op in ('parallel', 'perpendicular'): add(op, a=p, b=q, c=r, d=s)
    return es, G

def run(ctx):
    from vlib import tlc, pool, pgserver
    T = ctx.thorough
    tlc.run(ctx, 'Denote', {'Len0': 4 if T else 3}, invariants=['BitLaws', 'PtLaws'], edges=False, spec='LSpec')
    pgserver.Server(ctx, options=['client_min_messages=error'])
    es, gs = cases(T, ctx.rng)
    for e in es: e['who'] = ''
    al = es + gs; ctx.rng.shuffle(al)
    items = [al[i:i + 60] for i in range(0, len(al), 60)]
    ctx.log('%d operations on bit strings, %d on geometric values' % (len(es), len(gs)))
    pool.replay(ctx, 'checks.p27', items, {'sock': ctx.pg.sock, 'db': 'postgres'}, key_prefix='', limit=60)
    data = dict(ctx.data)
    flat = [e for i in sorted(data) for e in data[i]['events']]
    if flat: ctx.sample({'recorded': flat[0]})
    bad = tlc.evaluate(ctx, 'Denote', flat, {'Len0': 1})
    seen = set()
    for b, v in sorted(bad.items()):
        e = flat[b]; k = 'value:%s:%s:%s:%s' % (e['op'], e['who'], e['err'], v.split(':')[0] if ':' in v else v.split()[0])
        if k in seen or len(seen) > 12: continue
        seen.add(k); ctx.violation(k, ('%s of %r: got %r %s' % (v, {x: e[x] for x in e if x in 'abcdksx'}, e['r'], e['err']))[:800], {'module': 'checks.p27', 'event': e, 'verdict': v})
