"""P10: scrollable cursors (specs/Cursor.tla)."""
TECHNIQUE = 'TLA+ model (Cursor): TLC checks that the translation into FETCH and MOVE implements the abstract cursor and enumerates every transition; covering and random walks over them are replayed on real cursors against PostgreSQL, comparing rows, counts, refusals and positions after every step'
LEVEL_NOTE = 'Results of 0-3 (thorough: 0-6) rows with all small offsets and quantities exhaustively, results of 10 and 300 rows by random walks; declared cursors, clones and cursors opened from an identifier.'

BAD_DIR = ['SIDEWAYS', 2, 'forwards', 1.5]
BAD_WHENCE = ['SIDEWAYS', 7, None, -1]
BAD_OFFSET = [None, 'SOME', [], '']
SPELL = {'FORWARD': ['FORWARD', True, 'forward'], 'BACKWARD': ['BACKWARD', False, 'Backward']}
WHENCE = {'ABSOLUTE': ['ABSOLUTE', 0, 'absolute'], 'RELATIVE': ['RELATIVE', 1, 'relative'], 'FROM_END': ['FROM_END', 2, 'from_end'],
    'FORWARD': ['FORWARD', 3, 'forward'], 'BACKWARD': ['BACKWARD', 4, 'backward']}

def worker(job):
    import random
    import postgresql.exceptions as px
    from . import live
    st = {}
    def open_cursor(db, kind, n):
        if kind == 'declared':
            if 'ps' not in st: st['ps'] = db.prepare("SELECT g AS i, 'r' || g AS t FROM generate_series(1, $1::int) AS g")
            return st['ps'].declare(n)
        st['x'] = db.xact(); st['x'].start()
        db.execute("DECLARE named SCROLL CURSOR FOR SELECT g AS i, 'r' || g AS t FROM generate_series(1, %d) AS g" % n)
        return db.cursor_from_id('named')
    def run(walk):
        if 'db' not in st or st['db'].closed:
            st.clear(); st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        db = st['db']
        rng = random.Random(repr(walk['init']) + str(len(walk['steps'])))
        n, kind = walk['init']['n'], walk['init']['kind']
        c = open_cursor(db, kind, n)
        fwd = True
        done = []
        def fail(key, msg): return {'fail': {'key': key, 'msg': 'n=%d %s after %s: %s' % (n, kind, done[-6:], msg)}}
        def check(rows, exp):
            got = [tuple(r) for r in rows]
            return got == [(i, 'r%d' % i) for i in exp], got
        try:
            for act, obs, s2 in walk['steps']:
                done.append({k: v for k, v in act.items()})
                op = act['op']; got = None
                where = 'forward' if fwd else 'backward'
                try:
                    if op == 'read':
                        q = None if act['q'] == 1000000 else act['q']
                        if act['d'] == 'none':
                            rows = c.read(q) if q is not None or rng.random() < .5 else c.read()
                        else:
                            rows = c.read(q, rng.choice(SPELL[act['d']]))
                        ok, got = check(rows, obs['rows'])
                        if not ok: return fail('read:' + where, 'expected rows %r, got %r' % (obs['rows'], got))
                    elif op == 'next':
                        try: rows = [next(c)]
                        except StopIteration: rows = None
                        if obs['r'] == 'stop':
                            if rows is not None: return fail('next:' + where, 'expected the end, got %r' % (rows,))
                        else:
                            if rows is None: return fail('next:' + where, 'expected row %r, got the end' % (obs['rows'],))
                            ok, got = check(rows, obs['rows'])
                            if not ok: return fail('next:' + where, 'expected row %r, got %r' % (obs['rows'], got))
                    elif op == 'seek':
                        w = rng.choice(WHENCE[act['w']])
                        got = c.seek(act['k']) if act['w'] == 'ABSOLUTE' and rng.random() < .3 else c.seek(act['k'], w)
                        if obs['r'] == 'count' and got != obs['count']: return fail('seek:' + where + ':' + act['w'], 'expected count %r, got %r' % (obs['count'], got))
                    elif op == 'seekall':
                        got = c.seek('ALL') if act['w'] == 'default' else c.seek('ALL', rng.choice(WHENCE[act['w']]))
                        if got != obs['count']: return fail('seekall:' + where + ':' + act['w'], 'expected count %r, got %r' % (obs['count'], got))
                    elif op == 'direction':
                        c.direction = rng.choice(SPELL['FORWARD' if act['d'] else 'BACKWARD']); fwd = act['d']
                        if c.direction is not fwd: return fail('direction', 'direction is %r' % (c.direction,))
                    elif op == 'clone':
                        c = c.clone(); fwd = True
                    elif op == 'invalid':
                        i = act['i'] - 1; w = act['w']
                        try:
                            if w == 'read-direction': got = c.read(1, BAD_DIR[i])
                            elif w == 'set-direction': c.direction = BAD_DIR[i]
                            elif w == 'seek-whence': got = c.seek(1, BAD_WHENCE[i])
                            else: got = c.seek(BAD_OFFSET[i], list(WHENCE)[(i + len(done)) % 5])
                        except (TypeError, ValueError): pass
                        else: return fail('invalid:%s' % w, 'value %d was accepted: %r' % (i, got))
                except (px.Error, TypeError, ValueError, AttributeError) as e:
                    return fail('%s:%s:error' % (op, where), repr(e)[:300])
            # where is it now?
            at = walk['steps'][-1][2]['at'] if walk['steps'] else 0
            rows = c.read()
            exp = [i if fwd else n + 1 - i for i in range(at + 1, n + 1)]
            ok, got = check(rows, exp)
            if not ok: return fail('position:' + ('forward' if fwd else 'backward'), 'reading the rest gives %r instead of %r' % (got[:20], exp[:20]))
            if [tuple(c.column_names)] != [('i', 't')]: return fail('columns', repr(c.column_names))
            return {'steps': len(done)}
        finally:
            x = st.pop('x', None)
            if kind == 'named':
                try: c.close()
                except Exception: pass
            c = None
            if x is not None:
                try: x.rollback()
                except Exception: st['db'].close()
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx); ctx.pg.databases(8)
    ops = ['read', 'next', 'seek', 'seekall', 'direction', 'invalid', 'clone']
    N = 5 if T else 3
    qs = {-2, -1, 0, 1, 2, 3, 7} if T else {-2, -1, 0, 1, 2, 5}
    both = {'declared', 'named'}
    for name, lo, hi, kinds, qs, of, nrand in (
            ('small', 0, N, both, qs, set(range(-N - 2, N + 3)), 2000 if T else 150),
            ('middle', 9, 10, both, {0, 1, 3, 9, 10, 11, -4}, {-12, -10, -3, -1, 0, 1, 4, 9, 10, 11, 12}, 1500 if T else 60),
            ('large', 300 if T else 60, 300 if T else 60, {'declared'}, {1, 31, 59, 60, 299, 300, -29}, {-301, -60, -30, -1, 0, 1, 7, 59, 60, 299, 300, 301}, 1500 if T else 60)):
        _, _, edges = tlc.run(ctx, 'Cursor', {'MinN': lo, 'MaxN': hi, 'Kinds': kinds, 'Quantities': qs, 'Offsets': of},
            invariants=['InRange', 'Agree', 'Consecutive'], properties=['Whole', 'Exhausted', 'TurnMoves'], coverage_required=ops)
        g = walk.Graph(edges, init=[e[0] for e in edges if e[0]['at'] == 0 and e[0]['fwd']])
        ws = []
        if name == 'small' or T: ws, k = g.cover(ctx.rng, maxlen=40)
        ws += g.random_walks(ctx.rng, nrand, 40)
        items = [g.expand(w) for w in ws if w]
        pool.replay(ctx, 'checks.p10', items, {'sock': ctx.pg.sock}, key_prefix=name + ':', limit=60)
