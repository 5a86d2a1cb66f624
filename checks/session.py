"""Driving protocol.client3.Connection with a scripted server (specs/Session.tla)."""
import random, struct, sys

def msg(t, body=b''):
    return t.encode() + struct.pack('!L', len(body) + 4) + body
def fields(*kv):
    return b''.join(k.encode() + v.encode() + b'\0' for k, v in kv) + b'\0'

# --- the server's side of the wire, written from the protocol's definition
def wire(m, z, n):
    if m == 'T': return msg('T', struct.pack('!H', 1) + b'col%d\0' % n + struct.pack('!LhLhlh', 0, 0, 23, 4, -1, 1))
    if m == 'D': return msg('D', struct.pack('!HL', 1, 4) + struct.pack('!L', n))
    if m == 'C': return msg('C', b'SELECT %d\0' % n)
    if m in 'GH': return msg(m, b'\0' + struct.pack('!HH', 1, 0))
    if m == 'd': return msg('d', b'line %d\n' % n)
    if m == 'Z': return msg('Z', z.encode())
    if m == 'V': return msg('V', struct.pack('!L', 4) + struct.pack('!L', n))
    if m == 't': return msg('t', struct.pack('!HL', 1, n))
    if m == 'K': return msg('K', struct.pack('!LL', 1, n))
    if m == 'R': return msg('R', struct.pack('!L', 0))
    if m in 'I123nsc': return msg(m)
    raise AssertionError(m)
def wire_error(sev, n):
    return msg('E', fields(('S', sev), ('V', sev), ('C', 'XX%03d' % (n % 1000)), ('M', 'failure %d' % n)))
def wire_async(m, n):
    if m == 'N': return msg('N', fields(('S', 'NOTICE'), ('C', '00000'), ('M', 'notice %d' % n)))
    if m == 'A': return msg('A', struct.pack('!L', 77) + b'chan\0' + b'%d\0' % n)
    if m == 'S': return msg('S', b'opt\0' + b'%d\0' % n)
def key_async(o):
    if o.type == b'N': return ('N', int(o[b'M'].split()[1]), o.get(b'S'))
    if o.type == b'A': return ('A', int(o.payload), (o.pid, o.channel))
    if o.type == b'S': return ('S', int(o.value), o.name)
def exp_async(m, n):
    return (m, n, {'N': b'NOTICE', 'A': (77, b'chan'), 'S': b'opt'}[m])
def key_msg(o):
    if isinstance(o, bytes): return ('d', o)
    if o.__class__ is tuple: return ('D', o)
    t = o.type.decode()
    if t == 'T': return ('T', [c[0] for c in o])
    if t == 'D': return ('D', tuple(o))
    if t == 'C': return ('C', o.data)
    if t == 'Z': return ('Z', o.xact_state)
    if t == 't': return ('t', list(o))
    if t == 'V': return ('V', o.result)
    return (t, None)
def exp_msg(m, z, n):
    return {'T': ('T', [b'col%d' % n]), 'D': ('D', (struct.pack('!L', n),)), 'C': ('C', b'SELECT %d' % n), 'd': ('d', b'line %d\n' % n),
        'Z': ('Z', z.encode()), 't': ('t', [n]), 'V': ('V', struct.pack('!L', n))}.get(m, (m, None))

class Dry(Exception):
    "the connection reads although the server has nothing more to say"
class Again(Exception):
    pass
class Gone(Exception):
    pass

class Socket:
    def __init__(self, rng, partial=False, again=False):
        self.q = []; self.sent = b''
        self.rng, self.partial, self.again = rng, partial, again
        self.armed = False
    def send(self, data):
        if self.again and not self.armed and self.rng.random() < .3:
            self.armed = True
            raise Again()
        self.armed = False
        n = len(data) if not self.partial else self.rng.randint(0 if self.rng.random() < .1 else 1, min(len(data), 9))
        self.sent += bytes(data[:n])
        return n
    def recv(self, n):
        if not self.q:
            raise Dry()
        if self.again and not self.armed and self.rng.random() < .3:
            self.armed = True
            raise Again()
        self.armed = False
        d = self.q[0][:n]
        if len(d) == len(self.q[0]): self.q.pop(0)
        else: self.q[0] = self.q[0][n:]
        return d
    def close(self): pass

class Factory:
    fatal_exception = Gone
    timeout_exception = Gone
    try_again_exception = Again
    def fatal_exception_message(self, e): return 'gone'
    def try_again(self, e): return True
    def timed_out(self, e): return False

def connection(sock):
    from postgresql.protocol import client3
    f = Factory()
    c = client3.Connection(f, {b'user': b'u'})
    c.socket = sock
    c.xact = None
    c.state = b'I'
    return c

def requests(batch, i):
    from postgresql.protocol import element3 as e
    n = b'x%d' % i
    mk = {'Q': lambda: e.Query(b'q ' + n), 'F': lambda: e.Function(1, (), (), b'\0\1'), 'P': lambda: e.Parse(n, b'q', ()), 'B': lambda: e.Bind(n, n, (), (), ()),
        'Ds': lambda: e.DescribeStatement(n), 'Dp': lambda: e.DescribePortal(n), 'X': lambda: e.Execute(n, 0), 'C': lambda: e.ClosePortal(n),
        'S': lambda: e.SynchronizeMessage, 'H': lambda: e.FlushMessage}
    return [mk[x]() for x in batch]

class Mismatch(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg

def play(batches, walk, plan, seed, hook_raises=False, dup=False):
    """
    One behaviour of the specification against the connection.
    plan: one | all | rand | bytes
    """
    from postgresql.protocol import xact3, element3
    rng = random.Random(seed)
    sock = Socket(rng, partial=rng.random() < .4, again=rng.random() < .4)
    conn = connection(sock)
    complete_mode = plan == 'bytes' or rng.random() < .3
    n = 0
    got_async = []; exp_asyncs = []; raised = [0, 0]
    held = []
    def hook(m):
        got_async.append(key_async(m))
        if hook_raises and rng.random() < .6:
            raised[0] += 1
            raise ZeroDivisionError('hook')
    def excepthook(*a):
        raised[1] += 1
    old_hook = sys.excepthook
    sys.excepthook = excepthook
    hist = []
    x = None
    exp = []; errs = []; last_z = b'I'
    pend = []          # messages not handed to the client yet: bytes
    state = walk['init']
    def fail(what, a, b):
        raise Mismatch(what, '%s: batch %r, plan %s seed %d, after %s: expected %r, got %r' % (what, batches[state['b'] - 1], plan, seed,
            ' '.join(hist), a, b))
    def push():
        nonlocal x, exp, errs, sentmark
        cmds = requests(batches[state['b'] - 1], state['nb'])
        x = xact3.Instruction(cmds, asynchook=hook)
        exp = []; errs = []
        sentmark = len(sock.sent)
        conn.push(x)
        while conn.xact is x and x.state[0] is xact3.Sending:
            conn.step()   # a try-again is a transition too
        want = b''.join(c.bytes() for c in cmds)
        if sock.sent[sentmark:] != want:
            fail('sent', want, sock.sent[sentmark:])
        sentmark = len(sock.sent)
    sentmark = 0
    def flush(last=False):
        "hand everything pending to the client and let it work"
        nonlocal pend
        if pend:
            data = b''.join(pend); pend = []
            if plan == 'bytes':
                while data:
                    k = min(len(data), rng.choice((1, 1, 2, 3, 4, 5, 6, 9, 17, 40)))
                    sock.q.append(data[:k]); data = data[k:]
            else:
                sock.q.append(data)
        if complete_mode and last:
            try:
                conn.complete()
            except Dry:
                fail('incomplete', 'complete', repr(x.state))
        else:
            while (conn.read or sock.q) and conn.xact is x and x.state is not xact3.Complete and x.state[0] is xact3.Receiving:
                try:
                    conn.step()
                except Dry:
                    if plan != 'bytes':
                        fail('dry', 'no read', 'read')
        check()
    def check():
        mode = state['mode']
        if plan == 'bytes' and mode in ('copyin', 'run') and (conn.message_buffer.getvalue() or sock.q):
            return
        got = [key_msg(m) for m in x.messages_received()]
        if mode == 'dead':
            if got != exp[:len(got)]:
                fail('results', exp, got)
        elif got != exp:
            fail('results', exp, got)
        if got_async != (exp_asyncs if mode != 'copyin' else exp_asyncs[:len(got_async)]):
            fail('async', exp_asyncs, got_async)
        s = x.state
        kind = 'complete' if s is xact3.Complete else 'send' if s[0] is xact3.Sending else 'recv'
        want = {'run': 'recv', 'copyin': 'send', 'idle': 'complete', 'dead': 'complete'}[mode]
        if kind != want:
            fail('state', want, kind)
        if bool(x.fatal) != (mode == 'dead'):
            fail('fatal', mode == 'dead', x.fatal)
        if (conn.xact is None) != (mode == 'idle'):
            fail('xact', mode, conn.xact)
        if errs:
            em = x.error_message
            code = em[b'C'] if isinstance(em[b'C'], bytes) else em[b'C'].encode()
            k = (code, em.get(b'M')) if code != b'08P01' else (code,)
            ok = [e if e is not None else (b'08P01',) for e in errs]
            if k not in ok or (mode == 'dead' and k != ok[-1]):
                fail('error', ok, k)
            if x.fatal is None:
                fail('errflag', 'not None', None)
        elif x.fatal is not None or hasattr(x, 'error_message'):
            fail('noerror', None, (x.fatal, getattr(x, 'error_message', None)))
        if mode != 'dead' and conn.state != last_z:
            fail('ready', last_z, conn.state)
        if raised[0] != raised[1]:
            fail('excepthook', raised[0], raised[1])
    try:
        push()
        steps = walk['steps']
        for i, (act, obs, st) in enumerate(steps):
            state = st
            op = act['op']
            n += 1
            hist.append(op if op not in ('srv', 'async', 'held') else act['m'] + ({'I': 'i', 'T': 't', 'E': 'e', 'ERROR': '!', 'FATAL': '!!', 'PANIC': '!!!'}.get(act.get('z'), '')
                if act['m'] in 'ZE' else '') + ('~' if op != 'srv' else ''))
            nxt = steps[i + 1][0]['op'] if i + 1 < len(steps) else None
            if op == 'srv':
                m = act['m']
                if obs['r'] in ('error', 'fatal'):
                    pend.append(wire_error(act['z'], n)); errs.append((b'XX%03d' % (n % 1000), b'failure %d' % n))
                elif obs['r'] == 'violation':
                    pend.append(wire(m, 'I', n)); errs.append(None)
                else:
                    pend.append(wire(m, act['z'], n)); exp.append(exp_msg(m, act['z'], n))
                    if m == 'Z': last_z = act['z'].encode()
            elif op in ('async', 'held'):
                k = n // 3 if dup else n
                pend.append(wire_async(act['m'], k))
                (exp_asyncs if op == 'async' else held).append(exp_async(act['m'], k))
            elif op == 'push':
                # now they are somebody's
                exp_asyncs += held; held.clear()
                push(); continue
            elif op == 'refuse':
                sentmark = len(sock.sent)
                x2 = xact3.Instruction(requests(batches[0], 9))
                conn.push(x2)
                if sock.sent[sentmark:] or conn.xact is not x or x2.state is xact3.Complete:
                    fail('refuse', 'nothing sent', sock.sent[sentmark:])
                continue
            elif op == 'send':
                x.messages = [b'data %d\n' % n, b'more %d\n' % n]
                mark = len(sock.sent)
                want = b''.join(msg('d', l) for l in x.messages)
                while sock.sent[mark:] != want:
                    conn.step()
                    if not want.startswith(sock.sent[mark:]): fail('copydata', want, sock.sent[mark:])
                if x.state[0] is not xact3.Sending: fail('copystate', 'send', x.state)
                continue
            elif op in ('done', 'fail'):
                tail = b''.join(c.bytes() for c in requests(obs['tail'], st['nb']))
                mark = len(sock.sent)
                if op == 'done':
                    x.messages = x.CopyDoneSequence
                    want = msg('c') + tail
                else:
                    if rng.random() < .5: x.messages = x.CopyFailSequence
                    elif x.messages is not x.CopyFailSequence:
                        x.messages = x.CopyFailSequence
                    want = None
                while x.state[0] is xact3.Sending:
                    conn.step()
                s = sock.sent[mark:]
                if want is None:
                    ok = s[:1] == b'f' and s[1 + struct.unpack('!L', s[1:5])[0]:] == tail
                else:
                    ok = s == want
                if not ok: fail('finish', (op, want, tail), s)
                continue
            # when does the client get to see it?
            end = nxt is None or nxt in ('push', 'refuse', 'send', 'done', 'fail')
            if op == 'async' and st['mode'] == 'copyin' and not end:
                continue
            if st['mode'] == 'idle' and nxt == 'held' and rng.random() < .5:
                continue       # they come along with the ready message
            if op == 'held':
                if conn.xact is not None:
                    flush(last=True)
                continue
            if end or st['mode'] in ('idle', 'dead') :
                if op == 'async' and st['mode'] == 'copyin':
                    # read behind the CopyInResponse or later
                    if x.state is not xact3.Complete and x.state[0] is xact3.Receiving: flush()
                    continue
                if nxt is None and st['mode'] == 'run':
                    flush()
                else:
                    flush(last=st['mode'] in ('idle', 'dead'))
            elif st['mode'] == 'copyin':
                continue
            elif plan == 'one' or (plan == 'rand' and rng.random() < .4):
                flush()
    finally:
        sys.excepthook = old_hook
    return {'steps': len(walk['steps'])}

def worker(job):
    batches = job['batches']
    def run(item):
        walk, plan, seed = item
        try:
            return play(batches, walk, plan, seed, job.get('raises', False), job.get('dup', False))
        except Mismatch as e:
            return {'fail': {'key': e.key, 'msg': e.msg}}
    return run
