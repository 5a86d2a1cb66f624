"""P02: encoding and decoding of messages (specs/Codec.tla)."""
import random, sys
TECHNIQUE = 'TLA+ model (Codec) of the layout of every message as a grammar with an encoder and a decoder; TLC enumerates messages, damaged bodies, mixed batches and maximal counts, each of which is replayed on the compiled and on the pure Python codecs'
LEVEL_NOTE = 'All 39 kinds of message; rows up to 3 (thorough: 4) values; every truncation, one-byte change and extension of bodies up to 14 (thorough: 26) bytes; all batches of up to 3 (thorough: 4) of 15 items'

def rows(v): return [None if x == [-1] else bytes(x) for x in v]
def unrow(t): return [[-1] if x is None else list(x) for x in t]
def num(b, signed=False): return int.from_bytes(bytes(b), 'big', signed=signed)
def b16(n): return list(int(n).to_bytes(2, 'big', signed=n < 0))
def b32(n): return list(int(n).to_bytes(4, 'big', signed=n < 0))
def make(E, k, v):
    "the library's message for the model's"
    B = bytes
    c = getattr(E, k)
    if k in ('Notify',): return c(num(v[0]), B(v[1]), B(v[2]))
    if k == 'ShowOption': return c(B(v[0]), B(v[1]))
    if k in ('Complete', 'Password', 'Query', 'CopyFail', 'CopyData'): return c(B(v[0]))
    if k == 'Ready': return c(B(v[0]))
    if k in ('Notice', 'Error'): return c([(bytes([l]), B(s)) for l, s in v[0]])
    if k == 'FunctionResult': return c(rows(v)[0])
    if k == 'AttributeTypes': return c(num(x) for x in v[0])
    if k == 'TupleDescriptor': return c((B(a[0]), num(a[1]), num(a[2], True), num(a[3]), num(a[4], True), num(a[5], True), num(a[6], True)) for a in v[0])
    if k == 'Tuple': return c(rows(v[0]))
    if k == 'KillInformation': return c(num(v[0]), num(v[1]))
    if k == 'CancelRequest': return c(num(v[1]), num(v[2]))
    if k == 'Startup': return c([(B(a), B(b)) for a, b in v[1]])
    if k == 'Authentication': return c(num(v[0]), B(v[1]))
    if k == 'Parse': return c(B(v[0]), B(v[1]), tuple(num(x) for x in v[2]))
    if k == 'Bind': return c(B(v[0]), B(v[1]), tuple(B(x) for x in v[2]), rows(v[3]), tuple(B(x) for x in v[4]))
    if k == 'Execute': return c(B(v[0]), num(v[1]))
    if k in ('DescribeStatement', 'DescribePortal', 'CloseStatement', 'ClosePortal'): return c(B(v[1]))
    if k == 'Function': return c(num(v[0]), tuple(B(x) for x in v[1]), rows(v[2]), B(v[3]))
    if k in ('CopyToBegin', 'CopyFromBegin'): return c(num(v[0]), [num(x) for x in v[1]])
    return c()
CONST = {'CancelRequest': [4, 210, 22, 46], 'NegotiateSSL': [4, 210, 22, 47], 'Startup': [0, 3, 0, 0]}
def view(k, m):
    "the model's message for the library's"
    L = list
    if k == 'Notify': return [b32(m.pid), L(m.channel), L(m.payload)]
    if k == 'ShowOption': return [L(m.name), L(m.value)]
    if k in ('Complete', 'Password', 'Query', 'CopyFail', 'CopyData'): return [L(m.data)]
    if k == 'Ready': return [L(m.xact_state)]
    if k in ('Notice', 'Error'): return [[[a[0], L(b)] for a, b in m.items()]]
    if k == 'FunctionResult': return unrow([m.result])
    if k == 'AttributeTypes': return [[b32(x) for x in m]]
    if k == 'TupleDescriptor': return [[[L(a[0]), b32(a[1]), b16(a[2]), b32(a[3]), b16(a[4]), b32(a[5]), b16(a[6])] for a in m]]
    if k == 'Tuple': return [unrow(m)]
    if k == 'KillInformation': return [b32(m.pid), b32(m.key)]
    if k == 'CancelRequest': return [CONST[k], b32(m.pid), b32(m.key)]
    if k == 'NegotiateSSL': return [CONST[k]]
    if k == 'Startup': return [CONST[k], [[L(a), L(b)] for a, b in m.items()]]
    if k == 'Authentication': return [b32(m.request), L(m.salt)]
    if k == 'Parse': return [L(m.name), L(m.statement), [b32(x) for x in m.argtypes]]
    if k == 'Bind': return [L(m.name), L(m.statement), [L(x) for x in m.aformats], unrow(m.arguments), [L(x) for x in m.rformats]]
    if k == 'Execute': return [L(m.name), b32(m.max)]
    if k in ('DescribeStatement', 'CloseStatement'): return [[83], L(m.data)]
    if k in ('DescribePortal', 'ClosePortal'): return [[80], L(m.data)]
    if k == 'Function': return [b32(m.oid), [L(x) for x in m.aformats], unrow(m.arguments), L(m.rformat)]
    if k in ('CopyToBegin', 'CopyFromBegin'): return [[m.format], [b16(x) for x in m.formats]]
    return []

def module(job):
    if job['pure']: sys.modules['postgresql.port.optimized'] = None
    from postgresql.protocol import element3 as E
    from postgresql.protocol import xact3
    if job['pure'] == hasattr(E.cat_messages, '__self__'): raise Exception('not the codec that was asked for')
    return E

def worker(job):
    E = module(job)
    def norm(v): return [norm(x) for x in v] if isinstance(v, list) else v
    def run(item):
        prev = {}
        for act, o in item:
            k = act['kind']; c = getattr(E, k)
            body = bytes(o['body'])
            def bad(key, what): return {'fail': {'key': key + ':' + k, 'msg': '%s: %s; the body is %r' % (k, what, body)}}
            if act['op'] == 'build':
                try:
                    m = make(E, k, o['value'])
                    if m.serialize() != body: return bad('serialize', 'serialized as %r' % m.serialize())
                    if m.bytes() != bytes(o['wire']): return bad('bytes', 'sent as %r, expected %r' % (m.bytes(), bytes(o['wire'])))
                    if E.cat_messages([m]) != bytes(o['wire']): return bad('cat', 'sent as %r, expected %r' % (E.cat_messages([m]), bytes(o['wire'])))
                    p = c.parse(body)
                    if view(k, p) != o['value']: return bad('parse', 'read as %r, expected %r' % (view(k, p), o['value']))
                    if view(k, m) != o['value']: return bad('hold', '%r holds %r' % (m, view(k, m)))
                    if not (p == m) or p != m: return bad('equal', 'read as %r, which is not equal to %r' % (p, m))
                    if k in prev:
                        ov, om = prev[k]
                        if ov != o['value'] and (om == p or not (om != p)): return bad('unequal', '%r and %r are equal' % (om, p))
                    prev[k] = (o['value'], m)
                    repr(m), repr(p), str(m)
                    if k == 'Tuple':
                        for f in (memoryview,):
                            try: q = c.parse(f(body))
                            except TypeError: continue
                            if unrow(q) != o['value'][0]: return bad('parse:buffer', 'read as %r' % (q,))
                except Exception as e: return bad('exception', repr(e))
            else:
                try: p = c.parse(body)
                except (MemoryError, SystemError, RecursionError) as e: return bad('damage:exception', repr(e))
                except Exception: p = None
                if p is None:
                    if o['ok']: return bad('damage:refused', 'was refused')
                else:
                    if not o['ok'] and (k == 'Tuple' or not o['more'] and not o['loose']): return bad('damage:accepted', 'a malformed body was read as %r' % (view(k, p),))
                    got = view(k, p); want = o['value']
                    # (fields of the same name: one of them)
                    if k in ('Notice', 'Error', 'Startup'):
                        f = lambda x: dict((repr(a), b) for a, b in x[-1]); same = any(f(got) == f(w) or len(f(w)) < len(w[-1]) for w in [want] * (o['ok'] or o['more']) + o['loose'])
                    else: same = got == want
                    if not same: return bad('damage:value', 'read as %r, expected %r' % (got, want))
        return {'steps': len(item)}
    return run

def batches(job):
    E = module(job)
    ITEM = {'d0': b'', 'd1': b'd', 'd2': b'\0\xff', 't0': (), 't1': (None,), 't2': (b'', b'\1'), 't3': (b'\0\0', None, b'\xff'), 'sync': E.SynchronizeMessage, 'done': E.CopyDoneMessage, 'query': E.Query(b'a\0'[:1]),
        'tuple': E.Tuple((None, b'\7')), 'startup': E.Startup([(b'a', b'b')]), 'cancel': E.CancelRequest(1, 2), 'badrow': (b'x', 'text'), 'badobject': object()}
    def run(item):
        for act, o in item:
            ns = act['items']
            xs = [ITEM[n] for n in ns]; want = bytes(o['wire'])
            for f in (list, tuple, iter):
                try: got = E.cat_messages(f(xs))
                except (MemoryError, SystemError) as e: return {'fail': {'key': 'batch:exception', 'msg': '%s: %r' % (ns, e)}}
                except Exception as e:
                    if o['ok']: return {'fail': {'key': 'batch:refused', 'msg': '%s: %r' % (ns, e)}}
                    continue
                if not o['ok']: return {'fail': {'key': 'batch:accepted', 'msg': '%s gave %r' % (ns, got)}}
                if got != want: return {'fail': {'key': 'batch', 'msg': '%s gave %r, expected %r' % (ns, got, want)}}
            if not job['pure'] and o['ok']:
                # received: rows up to what is something else
                from postgresql.port.optimized import consume_tuple_messages as consume
                pairs = []
                for x in xs:
                    if type(x) is tuple: pairs.append((b'D', E.Tuple(x).serialize()))
                    elif type(x) is bytes: pairs.append((b'd', x))
                    else: pairs.append((x.type or b'?', x.serialize()))
                got = consume(tuple(pairs))
                w = [tuple(rows(r)) for r in (o['rows'] or [])]
                if ns and 'tuple' in ns[:len(w) + 1]: continue
                if got != w: return {'fail': {'key': 'consume', 'msg': '%s gave %r, expected %r' % (pairs, got, w)}}
                if w:
                    for cut in range(len(pairs[-1][1]) if len(w) == len(pairs) else 0):
                        try: got = consume(tuple(pairs[:-1]) + ((b'D', pairs[-1][1][:cut]),))
                        except (MemoryError, SystemError) as e: return {'fail': {'key': 'consume:exception', 'msg': '%s: %r' % (pairs, e)}}
                        except Exception: continue
                        return {'fail': {'key': 'consume:accepted', 'msg': '%s cut at %d gave %r' % (pairs, cut, got)}}
        return {'steps': len(item)}
    return run

def wide(job):
    E = module(job)
    def run(item):
        for act, o in item:
            k, n = act['kind'], act['n']; c = bytes(o['count'])
            for val in (None, b'', b'xyz'):
                one = b'\xff\xff\xff\xff' if val is None else len(val).to_bytes(4, 'big') + val
                ints = [7, 2 ** 32 - 1]; ints = (ints * (n // 2 + 1))[:n]
                if k == 'Tuple': m = lambda: E.Tuple((val,) * n); body = c + one * n
                elif k == 'AttributeTypes': m = lambda: E.AttributeTypes(ints); body = c + b''.join(x.to_bytes(4, 'big') for x in ints)
                elif k == 'Parse': m = lambda: E.Parse(b'n', b's', tuple(ints)); body = b'n\0s\0' + c + b''.join(x.to_bytes(4, 'big') for x in ints)
                elif k == 'Bind': m = lambda: E.Bind(b'n', b's', (b'\0\1',) * n, [val] * n, (b'\0\1',) * n); body = b'n\0s\0' + c + b'\0\1' * n + c + one * n + c + b'\0\1' * n
                elif k == 'Function': m = lambda: E.Function(9, (b'\0\1',) * n, [val] * n, b'\0\1'); body = b'\0\0\0\t' + c + b'\0\1' * n + c + one * n + b'\0\1'
                else: m = lambda: E.CopyToBegin(1, [1] * n); body = b'\1' + c + b'\0\1' * n
                try:
                    x = m(); got = x.serialize(); cat = E.cat_messages([x])
                    bare = E.cat_messages([tuple(x), tuple(x)]) if k == 'Tuple' else None
                except Exception as e:
                    if o['ok']: return {'fail': {'key': 'wide:refused', 'msg': '%s of %d: %r' % (k, n, e)}}
                    if k == 'Tuple':
                        try: E.cat_messages([(val,) * n])
                        except Exception: pass
                        else: return {'fail': {'key': 'wide:accepted', 'msg': 'a bare row of %d was accepted' % n}}
                    continue
                if not o['ok']: return {'fail': {'key': 'wide:accepted', 'msg': '%s of %d was serialized' % (k, n)}}
                wire = x.type + (len(body) + 4).to_bytes(4, 'big') + body
                if got != body or cat != wire or bare not in (None, wire * 2): return {'fail': {'key': 'wide:' + k, 'msg': '%s of %d was serialized wrongly' % (k, n)}}
                p = type(x).parse(body)
                if not (tuple(p) == tuple(x) if k == 'Tuple' else p == x): return {'fail': {'key': 'wide:parse:' + k, 'msg': '%s of %d was read wrongly' % (k, n)}}
        return {'steps': 3 * len(item)}
    return run

def numbers(job):
    "the integers of layouts, by both codecs"
    if job['pure']: sys.modules['postgresql.port.optimized'] = None
    from postgresql.python import structlib as S
    def run(item):
        for name, size, signed, n in item:
            pack, unpack = getattr(S, name + '_pack'), getattr(S, name + '_unpack')
            lo, hi = (-(1 << 8 * size - 1), (1 << 8 * size - 1) - 1) if signed else (0, (1 << 8 * size) - 1)
            try: b = pack(n)
            except Exception as e:
                if isinstance(e, SystemError): return {'fail': {'key': 'number:exception', 'msg': '%s %d: %r' % (name, n, e)}}
                if lo <= n <= hi: return {'fail': {'key': 'number:refused', 'msg': '%s_pack(%d): %r' % (name, n, e)}}
                continue
            if not lo <= n <= hi: return {'fail': {'key': 'number:accepted', 'msg': '%s_pack(%d) gave %r' % (name, n, b)}}
            if b != n.to_bytes(size, 'big', signed=signed): return {'fail': {'key': 'number:pack', 'msg': '%s_pack(%d) gave %r' % (name, n, b)}}
            for t in (bytes, memoryview):
                for x in (b, b + b'\xff'):
                    try: r = unpack(t(x))
                    except TypeError:
                        if t is bytes: raise
                        continue
                    if r != n: return {'fail': {'key': 'number:unpack', 'msg': '%s_unpack(%r) gave %r' % (name, x, r)}}
            for cut in range(size):
                try: r = unpack(b[:cut])
                except Exception: continue
                return {'fail': {'key': 'number:short', 'msg': '%s_unpack(%r) gave %r' % (name, b[:cut], r)}}
        return {'steps': len(item)}
    return run

KINDS = ['Notify', 'ShowOption', 'Complete', 'Null', 'NoData', 'ParseComplete', 'BindComplete', 'CloseComplete', 'Suspension', 'Ready', 'Notice', 'Error', 'FunctionResult', 'AttributeTypes', 'TupleDescriptor', 'Tuple',
    'KillInformation', 'CancelRequest', 'NegotiateSSL', 'Startup', 'Authentication', 'Password', 'Disconnect', 'Flush', 'Synchronize', 'Query', 'Parse', 'Bind', 'Execute', 'DescribeStatement', 'DescribePortal', 'CloseStatement',
    'ClosePortal', 'Function', 'CopyToBegin', 'CopyFromBegin', 'CopyData', 'CopyFail', 'CopyDone']
ITEMS = ['d0', 'd1', 'd2', 't0', 't1', 't2', 't3', 'sync', 'done', 'query', 'tuple', 'startup', 'cancel', 'badrow', 'badobject']
def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

def run(ctx):
    from vlib import tlc, pool
    T = ctx.thorough
    base = {'Kinds': frozenset(KINDS), 'MaxCells': 4 if T else 3, 'Mutate': 26 if T else 14, 'BatchItems': frozenset(ITEMS), 'MaxBatch': 4 if T else 3}
    s, t, e = tlc.run(ctx, 'Codec', base, ['Exact'], [], heap='8g')
    cases = [(a, o) for _, a, o, _ in e if a['op'] != 'start']
    ctx.log('messages', sum(a['op'] == 'build' for a, o in cases), 'damaged', sum(a['op'] == 'damage' for a, o in cases))
    if {a['kind'] for a, o in cases if a['op'] == 'build'} != set(KINDS): raise Exception('kinds missing')
    for k in (7, len(cases) // 2): ctx.sample(cases[k])
    s, t, e = tlc.run(ctx, 'Codec', base, [], [], spec='BSpec', heap='6g')
    bs = [(a, o) for _, a, o, _ in e if a['op'] == 'batch']
    s, t, e = tlc.run(ctx, 'Codec', base, [], [], spec='Wide')
    ws = [(a, o) for _, a, o, _ in e if a['op'] == 'wide']
    ns = []
    for name, size, signed in (('short', 2, True), ('ushort', 2, False), ('long', 4, True), ('ulong', 4, False), ('longlong', 8, True), ('ulonglong', 8, False)):
        xs = {0, 1, -1}
        for b in range(0, 66):
            for d in (-1, 0, 1): xs |= {(1 << b) + d, -(1 << b) + d}
        xs |= {ctx.rng.randrange(-(1 << 8 * size), 1 << 8 * size) for _ in range(20000 if T else 500)}
        if size == 2: xs |= set(range(-32770, 65540))
        ns += [(name, size, signed, n) for n in sorted(xs)]
    for pure in (False, True):
        p = {'pure': pure}; kp = 'python:' if pure else 'C:'
        pool.replay(ctx, 'checks.p02', chunks(cases, 1000), p, key_prefix=kp, limit=60)
        pool.replay(ctx, 'checks.p02', chunks(bs, 200), p, func='batches', key_prefix=kp, limit=60)
        pool.replay(ctx, 'checks.p02', chunks(ws, 4), p, func='wide', key_prefix=kp, limit=60)
        pool.replay(ctx, 'checks.p02', chunks(ns, 5000), p, func='numbers', key_prefix=kp, limit=60)
