"""P06: loss of the connection (specs/Faults.tla)."""
import random
TECHNIQUE = 'TLA+ model (Faults) explored by TLC; every fault point of every operation replayed through the driver over a wire that fails at that byte of a real server\'s traffic'
LEVEL_NOTE = ('Quick samples every 3rd byte of both directions of connecting and of 29 operations, thorough takes every byte; kinds: orderly close, reset, abort, broken pipe, time-out, an error '
  'without errno; plus partial I/O and interrupted calls. Trusts the PostgreSQL 16 server in the sandbox for the undisturbed results. Failures inside TLS records are not produced.')
from . import live

def worker(job):
    import postgresql.exceptions as px
    base = job['base']
    def refused(db, p, o):
        before = (p.sbytes, p.rbytes, p.after, p.dead)
        try:
            r = getattr(live, base[o - 1]['op'])(db)
        except px.Error as e:
            r = None
            if not e.code.startswith('08') and e.code != '--001':
                return 'an operation on the lost connection raised %r (%s)' % (e, e.code)
        except Exception as e:
            return 'an operation on the lost connection raised %r' % e
        else:
            if not live.reports(r): return 'an operation on the lost connection returned %r' % (r,)
        if (p.sbytes, p.rbytes, p.after, p.dead) != before: return 'the lost transport was used again'
    def run(walk):
        rng = random.Random(repr(walk['steps'][:3])); p = live.Plan(); db = None; hist = []; steps = 0
        def bad(key, m):
            return {'fail': {'key': key, 'msg': m + '\nhistory: %r' % (hist,)}, 'steps': steps}
        try:
            for act, obs, s2 in walk['steps']:
                steps += 1
                hist.append({k: v for k, v in act.items()}); op = act['op']
                b = base[act['o'] - 1] if 'o' in act else None
                if b: hist[-1]['o'] = b['op']
                p.rng = None; p.eintr = False
                if op == 'connect':
                    db = live.connect(job['sock'], 'w%d' % job['worker'], p); live.setup(db)
                elif op == 'connectfail':
                    p.rfault, p.sfault = ((act['k'], act['kind']), None) if act['d'] == 'r' else (None, (act['k'], act['kind']))
                    db = live.connector(job['sock'], 'w%d' % job['worker'], p, sslmode='disable')()
                    try:
                        db.connect()
                    except px.Error as e:
                        if not e.code.startswith('08') and e.code != '--001': # could not connect
                            return bad('connect:misreported', 'the transport failed and connecting raised %r (%s)' % (e, e.code))
                    except Exception as e:
                        return bad('connect:raised', 'connecting raised %r, not a database error' % e)
                    else:
                        return bad('connect:success', 'connecting succeeded (failure met: %r)' % p.dead)
                    if p.open: return bad('connect:leak', 'the socket of the failed connection is still open')
                    if not db.closed: return bad('connect:open', 'the failed connection is not closed')
                    p.rfault = p.sfault = None; p.dead = p.dead or 'eof'
                elif op in ('partial', 'fail', 'behind', 'use'):
                    p.count = 0
                    if op != 'use':
                        p.rbytes = p.sbytes = 0
                    del live.GOT[:]
                    if op == 'partial': p.rng, p.eintr = rng, True
                    elif op in ('fail', 'behind'):
                        k = act['k'] if op == 'fail' else b['rbytes' if act['d'] == 'r' else 'sbytes']
                        f = (k, act['kind'])
                        if act['d'] == 'r': p.rfault = f
                        else: p.sfault = f
                        if op == 'fail' and rng.random() < .4: p.rng = rng
                    try:
                        r = getattr(live, b['op'])(db)
                        x = None
                    except px.Error as e:
                        x = e; r = None
                        if p.dead and not e.code.startswith('08'):
                            return bad('%s:misreported' % b['op'], 'the transport failed and %s raised %r (%s)' % (b['op'], e, e.code))
                    except Exception as e:
                        return bad('%s:raised' % b['op'], '%s raised %r, not a database error' % (b['op'], e))
                    got = list(live.GOT)
                    if p.dead:
                        if x is None and not live.reports(r):
                            return bad('%s:silent' % b['op'], 'the transport failed but %s returned %r' % (b['op'], r))
                        if got != b['rows'][:len(got)]:
                            return bad('%s:rows' % b['op'], '%s delivered %r, not a prefix of %r' % (b['op'], got, b['rows']))
                        if not db.closed: return bad('%s:open' % b['op'], 'after %r the connection is not closed but %s' % (x, db.state))
                    else:
                        if x is not None: return bad('%s:error' % b['op'], '%s raised %r though the transport works' % (b['op'], x))
                        if r != b['result']: return bad('%s:result' % b['op'], '%s: expected %r, got %r' % (b['op'], b['result'], r))
                        if db.closed: return bad('%s:closed' % b['op'], 'closed though the transport works')
                        if op in ('fail', 'use'):
                            # the operation needed fewer bytes here (its traffic varies): the next one meets the failure
                            for _ in range(200):
                                try: db.execute('SELECT 1')
                                except px.Error: break
                                except Exception as e: return bad('late:raised', 'raised %r, not a database error' % e)
                            if not (p.dead and db.closed): return bad('late:silent', 'the failure was not reported')
                elif op == 'refused':
                    m = refused(db, p, act['o'])
                    if m: return bad('refused', m)
                elif op == 'reconnect':
                    before = p.sbytes
                    try: db.connect()
                    except px.Error: pass
                    except Exception as e: return bad('reconnect', 'raised %r' % e)
                    else: return bad('reconnect', 'a lost connection connected again')
                elif op == 'close':
                    if rng.random() < .5 and not p.dead:
                        p.sfault = (p.sbytes, 'reset')
                    try: db.close()
                    except Exception as e: return bad('close', 'close() raised %r' % e)
                if obs.get('closed') and db is not None and not db.closed:
                    return bad('closed:' + op, 'the connection says %r' % db.state)
            if db is not None:
                try: db.close()
                except Exception as e: return bad('close', 'close() raised %r' % e)
                if p.open: return bad('close:leak', 'the socket is still open after close()')
        finally:
            for s in p.socks: s.real.close()
        return {'steps': steps}
    return run

def run(ctx):
    from vlib import tlc, walk, pool, pgserver
    T = ctx.thorough
    pgserver.Server(ctx); ctx.pg.databases(8)
    base = live.get_baseline(ctx, fresh=True)
    if base is None: return
    kinds = ['eof', 'reset', 'pipe', 'abort', 'timedout', 'noerrno', 'io', 'host']
    step = 1 if T else 3
    for shift in ([ctx.seed] if not T else range(len(kinds))):
        _, _, edges = tlc.run(ctx, 'Faults', {'Ops': [{'r': b['rbytes'], 's': b['sbytes']} for b in base], 'Kinds': kinds, 'Step': step, 'Shift': shift, 'MaxAfter': 3},
            invariants=['Sound'], properties=['NeverBack'], coverage_required=['connect', 'connectfail', 'partial', 'fail', 'behind', 'use', 'refused', 'reconnect', 'close'])
        g = walk.Graph(edges, init=[{'conn': 'new', 'after': 0}])
        ws, n = g.cover(ctx.rng, maxlen=12)
        for w in ws:
            for _ in range(ctx.rng.choice((0, 1, 2))):
                o = g.out[g.edges[w[-1]][3]]
                c = [e for e in o if g.edges[e][1]['op'] in ('refused', 'reconnect', 'close', 'use')]
                if not c: break
                w.append(ctx.rng.choice(c))
        items = [g.expand(w) for w in ws]
        ctx.rng.shuffle(items)
        ctx.sample({'walk': [a for a, _, _ in items[0]['steps']]})
        ctx.cov['fault_edges_covered'] = ctx.cov.get('fault_edges_covered', 0) + n
        pool.replay(ctx, 'checks.p06', items, {'sock': ctx.pg.sock, 'base': base}, key_prefix='', limit=20)
        if ctx.remaining() < 60: break
