"""P17: values of types (specs/Values.tla)."""
TECHNIQUE = 'TLA+ specification (Values) of the values of the supported types, their binary representation and the text the server reads them from; TLC enumerates the values (digit patterns, boundaries, special values) and checks that representations are unambiguous; each is packed and unpacked by the real code with both number codecs, sent to and received from a real server that compares it with the specified text, and arrays, records, domains and hstores recorded from both directions are decoded by TLC'
LEVEL_NOTE = 'Numerics: all zero/nonzero patterns of 7 (thorough: 10) digits at every scale, and few digits far from the point; integers of 9 bytes varying two of them; floating point by class, exponent and mantissa patterns; dates and times at boundaries of the calendar; all bit strings of up to 8 (10) bits; all prefix lengths; containers up to depth 3, random. The rounding of numbers to float4 and of months to days is not an alteration; the last and first date of the client are its infinities.'
import json

def S(k, a=(), o=()): return {'k': k, 'a': list(a), 'o': list(o)}

def codec():
    "values as sequences of integers, as the specification has them, and back"
    import datetime, ipaddress, math, struct, uuid
    from decimal import Decimal
    from postgresql.types import Array
    from postgresql.types.bitwise import Varbit, Bit, ZeroBit, OneBit
    from postgresql.types.geometry import Point, Lseg, Box, Circle
    from postgresql.python.datetime import FixedOffset, infinity_date, negative_infinity_date, infinity_datetime, negative_infinity_datetime
    INTS = {'int2', 'int4', 'int8', 'oid', 'xid', 'cid'}
    STR = {'text', 'varchar', 'bpchar', 'name', 'enum', 'jsonb', 'json'}
    class Wrong(Exception): pass
    def need(c, v):
        if not c: raise Wrong('%r (%s)' % (v, type(v).__name__))
    def f8(x):
        need(type(x) is float, x)
        if math.isnan(x): return [0, 4, 0, 0, 0, 0]
        s = int(math.copysign(1, x) < 0)
        if math.isinf(x): return [s, 3, 0, 0, 0, 0]
        if x == 0: return [s, 0, 0, 0, 0, 0]
        m, e = math.frexp(abs(x)); e += 1022; n = int(math.ldexp(m, 53))
        if e < 1: n >>= 1 - e; k = [s, 1, 0]
        else: n -= 1 << 52; k = [s, 2, e]
        return k + [n >> 32, n >> 16 & 65535, n & 65535]
    def un8(v):
        s, c, e = v[:3]; n = v[3] << 32 | v[4] << 16 | v[5]
        x = [0.0, math.ldexp(n, -1074), math.ldexp(n + (1 << 52), e - 1075) if c == 2 else 0, math.inf, math.nan][c]
        return -x if s else x
    def f4(x):
        need(type(x) is float, x)
        if math.isnan(x): return [0, 4, 0, 0, 0]
        s = int(math.copysign(1, x) < 0)
        if math.isinf(x): return [s, 3, 0, 0, 0]
        if x == 0: return [s, 0, 0, 0, 0]
        m, e = math.frexp(abs(x)); e += 126; n = math.ldexp(m, 24)
        if e < 1: n = math.ldexp(n, e - 1); k = [s, 1, 0]
        else: n -= 1 << 23; k = [s, 2, e]
        need(n == int(n), x); n = int(n)
        return k + [n >> 16, n & 65535]
    def un4(v):
        s, c, e = v[:3]; n = v[3] << 16 | v[4]
        x = [0.0, math.ldexp(n, -149), math.ldexp(n + (1 << 23), e - 150) if c == 2 else 0, math.inf, math.nan][c]
        return -x if s else x
    def day(d): return [d.year, d.month, d.day]
    def sec(t): return [t.hour * 3600 + t.minute * 60 + t.second, t.microsecond]
    def td(d): return d.days * 86400 + d.seconds
    def nest(a, dims):
        if len(dims) <= 1: return list(a)
        n = len(a) // dims[0]
        return [nest(a[i * n:(i + 1) * n], dims[1:]) for i in range(dims[0])]
    def item(t, x):
        if x is None: return [-1]
        v = of(t, x); return [len(v)] + v
    def of(t, x):
        k = t['k']
        if k in INTS: need(type(x) is int, x); return list(x.to_bytes(9, 'big', signed=True))
        if k == 'numeric':
            need(type(x) is Decimal, x)
            if x.is_nan(): return [2, 0]
            if x.is_infinite(): return [3 if x > 0 else 4, 0]
            s, d, e = x.as_tuple(); d = list(d) + [0] * max(0, e)
            while d and d[0] == 0: d.pop(0)
            return [s if d else 0, max(0, -e)] + d
        if k == 'float8': return f8(x)
        if k == 'float4': return f4(x)
        if k == 'point': need(type(x) is Point, x); return f8(x[0]) + f8(x[1])
        if k in ('lseg', 'box'): need(type(x) is {'lseg': Lseg, 'box': Box}[k], x); return f8(x[0][0]) + f8(x[0][1]) + f8(x[1][0]) + f8(x[1][1])
        if k == 'circle': need(type(x) is Circle, x); return f8(x[0][0]) + f8(x[0][1]) + f8(x[1])
        if k == 'date': need(type(x) is datetime.date, x); return [1] if x == infinity_date else [0] if x == negative_infinity_date else day(x)
        if k == 'timestamp': need(type(x) is datetime.datetime and x.tzinfo is None, x); return [1] if x == infinity_datetime else [0] if x == negative_infinity_datetime else day(x) + sec(x)
        if k == 'timestamptz':
            need(type(x) is datetime.datetime, x)
            if x.tzinfo is None: need(x in (infinity_datetime, negative_infinity_datetime), x); return [int(x == infinity_datetime)]
            x = x.astimezone(datetime.timezone.utc); return day(x) + sec(x)
        if k == 'time': need(type(x) is datetime.time and x.tzinfo is None, x); return sec(x)
        if k == 'timetz': need(type(x) is datetime.time and x.tzinfo is not None, x); return sec(x) + [td(x.utcoffset())]
        if k == 'interval': need(type(x) is datetime.timedelta, x); return [0, x.days, 0, x.seconds, x.microseconds]
        if k == 'inet':
            if isinstance(x, (ipaddress.IPv4Interface, ipaddress.IPv6Interface)): return [x.version, x.network.prefixlen] + list(x.packed)
            need(isinstance(x, (ipaddress.IPv4Address, ipaddress.IPv6Address)), x); return [x.version, x.max_prefixlen] + list(x.packed)
        if k == 'cidr': need(isinstance(x, (ipaddress.IPv4Network, ipaddress.IPv6Network)), x); return [x.version, x.prefixlen] + list(x.network_address.packed)
        if k == 'macaddr': need(type(x) is str and len(x) == 17 and x.count(':') == 5, x); return [int(p, 16) for p in x.split(':')]
        if k in ('bit', 'varbit'):
            need(isinstance(x, Varbit) and len(x) == x.bits and len(x.data) == (x.bits + 7) // 8, x)
            b = ''.join('{:08b}'.format(c) for c in x.data); need('1' not in b[x.bits:] and str(x) == b[:x.bits], (x, x.data))
            return [x.bits] + [int(c) for c in b[:x.bits]]
        if k == 'bool': need(type(x) is bool, x); return [int(x)]
        if k == 'uuid': need(type(x) is uuid.UUID, x); return list(x.bytes)
        if k in STR: need(type(x) is str, x); return list(x.encode('utf-8'))
        if k in ('bytea', 'char'): need(type(x) is bytes, x); return list(x)
        if k == 'tid': need(type(x) is tuple and len(x) == 2, x); return list(struct.pack('!LH', *x))
        if k == 'array':
            need(type(x) is Array, x); el = list(x.elements())
            return [len(x.dimensions)] + list(x.dimensions) + list(x.lowerbounds) + [c for e in el for c in item(t['a'][0], e)]
        if k == 'record': need(isinstance(x, tuple) and len(x) == len(t['a']), x); return [len(x)] + [c for u, e in zip(t['a'], x) for c in item(u, e)]
        if k == 'hstore': need(type(x) is dict, x); return [len(x)] + [c for kk, e in sorted(x.items(), key=lambda p: (len(str(p[0]).encode()), str(p[0]).encode())) for c in item(S('text'), kk) + item(S('text'), e)]
        raise KeyError(k)
    def make(t, v, rng):
        k = t['k']; c = rng.choice
        if k in INTS: return int.from_bytes(bytes(v), 'big', signed=True)
        if k == 'numeric':
            if v[0] >= 2: return c([Decimal, float])(['nan', 'inf', '-inf'][v[0] - 2])
            d, e = v[2:], -v[1]
            if e == 0: # exponents above zero denote the same
                while d and d[-1] == 0 and rng.random() < .6: d = d[:-1]; e += 1
            if rng.random() < .2: d = [0] * rng.randrange(5) + d
            x = Decimal((v[0] or (not v[2:] and rng.random() < .3), tuple(d), e))
            if e == 0 and len(d) < 300 and rng.random() < .1: return c([int, str])(x)
            return str(x) if rng.random() < .1 else x
        if k == 'float8': return un8(v)
        if k == 'float4': return un4(v)
        if k == 'point': return c([Point, tuple, list])((un8(v[:6]), un8(v[6:])))
        if k in ('lseg', 'box'):
            p = ((un8(v[:6]), un8(v[6:12])), (un8(v[12:18]), un8(v[18:]))); return c([{'lseg': Lseg, 'box': Box}[k], tuple])(p)
        if k == 'circle': return c([Circle, tuple])(((un8(v[:6]), un8(v[6:12])), un8(v[12:])))
        if k == 'date': return c([['-infinity', 'infinity'][v[0]], [negative_infinity_date, infinity_date][v[0]]]) if len(v) == 1 else datetime.date(*v)
        def clock(s, us): return (s // 3600, s // 60 % 60, s % 60, us)
        if k == 'timestamp': return c([['-infinity', 'infinity'][v[0]], [negative_infinity_datetime, infinity_datetime][v[0]]]) if len(v) == 1 else datetime.datetime(*v[:3], *clock(*v[3:]))
        if k == 'timestamptz':
            if len(v) == 1: return c([['-infinity', 'infinity'][v[0]], [negative_infinity_datetime, infinity_datetime][v[0]]])
            x = datetime.datetime(*v[:3], *clock(*v[3:]), tzinfo=datetime.timezone.utc)
            off = c([0, 3600, -12600, 7261])
            try: return x.astimezone(c([FixedOffset(off), datetime.timezone(datetime.timedelta(seconds=off))]))
            except OverflowError: return x
        if k == 'time': return datetime.time(*clock(*v))
        if k == 'timetz': return datetime.time(*clock(*v[:2]), tzinfo=c([FixedOffset(v[2]), datetime.timezone(datetime.timedelta(seconds=v[2]))]))
        if k == 'interval': return datetime.timedelta(days=v[1] + v[2], seconds=v[3], microseconds=v[4])
        if k == 'inet':
            x = ipaddress.ip_interface((bytes(v[2:]), v[1])); full = v[1] == x.max_prefixlen
            return c([x, str(x)] + [x.ip, str(x.ip)] * full)
        if k == 'cidr': x = ipaddress.ip_network((bytes(v[2:]), v[1])); return c([x, str(x)])
        if k == 'macaddr': return ':'.join('%02x' % b for b in v)
        if k in ('bit', 'varbit'): return Varbit(''.join(map(str, v[1:])))
        if k == 'bool': return bool(v[0])
        if k == 'uuid': x = uuid.UUID(bytes=bytes(v)); return c([x, str(x)])
        if k in STR: return bytes(v).decode('utf-8')
        if k in ('bytea', 'char'): return c([bytes, bytearray, memoryview])(bytes(v)) if k == 'bytea' else bytes(v)
        if k == 'tid': return struct.unpack('!LH', bytes(v))
        raise KeyError(k)
    return of, make, Wrong

# the names the server has for the types
NAMES = {'char': '"char"', 'bpchar': 'bpchar'}
def connect(job, hstore=False):
    import sys
    if job.get('pure'): sys.modules['postgresql.port.optimized'] = None
    from . import live
    db = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
    return db

def worker(job):
    "each value of the specification: packed, unpacked, and exchanged with the server"
    import random, warnings
    warnings.simplefilter('ignore')
    db = connect(job)
    from postgresql import exceptions as E, types as T
    from postgresql.types import Array
    of, make, Wrong = codec()
    rng = random.Random(job['seed'] + job['worker'])
    OID = {'char': 18, 'varbit': 1562, 'bit': 1560}
    st = {}
    def prep(k, v):
        name = NAMES.get(k, k)
        if k == 'bit': name = 'bit(%d)' % v[0]
        if name not in st:
            q = '$1::%s' % name
            text = '$2::text::%s' % name
            st[name] = (db.prepare('SELECT %s, (%s)::text, (%s)::text' % (q, q, text)), db.prepare('SELECT $1::text::%s' % name), db.typio.resolve(OID.get(k) or getattr(T, k.upper() + 'OID')))
        return st[name]
    def run(item):
        odd = []
        for k, v, o in item:
            t = S(k)
            def bad(key, m): return {'fail': {'key': key + ':' + k, 'msg': '%s %r (%s): %s' % (k, v, o['text'], m)}}
            both, read, io = prep(k, v)
            pack, unpack = io[0] or db.typio.encode, io[1] or db.typio.decode
            if o['wire'] == [-1]: # not a value of the type
                x = make(t, v, rng)
                try: r = both.first(x, '0')
                except E.ParameterError: continue
                except Exception as e: return bad('refused', '%r was refused by %r, expected a parameter error' % (x, e))
                return bad('altered', '%r was taken, giving %r' % (x, r))
            wire = bytes(o['wire'])
            # what the server reads from the text
            text = o['text'] or bytes(v).decode('utf-8', 'surrogateescape') if k in ('text', 'varchar', 'bpchar') else o['text']
            if k == 'macaddr' and o['forms']: text = rng.choice(o['forms'])
            same = o['client'] == 'as'
            if o['client'] == 'no': # not a value of the client's type
                try: x = unpack(wire)
                except Exception as e:
                    if isinstance(e, SystemError): return bad('unpack', 'raised %r' % e)
                else: return bad('unpack:altered', 'was unpacked as %r' % (x,))
                try: x = read.first(text)
                except E.ColumnError: pass
                else: return bad('read:altered', 'was received as %r' % (x,))
                if db.prepare('SELECT 1').first() != 1: return bad('after', 'the connection is not usable after a refused value')
                continue
            if o['client'] == 'rough':
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter('always')
                    x = unpack(wire)
                if not ws: return bad('rough', 'was converted to %r without a warning' % (x,))
                continue
            want = v
            if k == 'interval': want = [0, v[1] + v[2], 0] + v[3:]
            if same: want = [int(v[0] > 1)] # the infinity
            try:
                try: got = of(t, unpack(wire))
                except Wrong as e: return bad('unpack', 'was unpacked as %s' % e)
                except Exception as e: return bad('unpack', 'unpacking %r raised %r' % (wire, e))
                if got != want: return bad('unpack', 'was unpacked as %r' % (unpack(wire),))
                x = make(t, v, rng)
                if not same:
                    b = pack(x)
                    if bytes(b) != wire:
                        if k == 'interval' and v[2]: pass # the client has the days and the time apart
                        elif k == 'box' and type(x) is tuple: pass
                        else: odd.append([k, v, list(b), repr(x)])
                if k in ('float8', 'float4', 'point', 'lseg', 'box', 'circle') or (k == 'char'): # no specified text
                    if k == 'char':
                        r, = db.prepare('SELECT get_byte(convert_to(ascii($1::"char"::text)::text, \'SQL_ASCII\'), 0) IS NOT NULL').first(x),
                        r = both.first(x, 'a')[0]
                        if of(t, r) != v: return bad('echo', '%r came back as %r' % (x, r))
                        continue
                    send = {'float8': 'float8send', 'float4': 'float4send'}.get(k, k + '_send')
                    if 'send' + k not in st: st['send' + k] = db.prepare('SELECT $1::%s, %s($1::%s), $1::%s::text' % (k, send, k, k))
                    r = st['send' + k].first(x)
                    if list(r[1]) != o['wire']: return bad('sent', '%r is %r on the server' % (x, r[2]))
                    if of(t, r[0]) != v: return bad('echo', '%r came back as %r' % (x, r[0]))
                    y = read.first(r[2])
                    if of(t, y) != v: return bad('read', 'the server\'s %s was received as %r' % (r[2], y))
                    continue
                if k == 'interval' and v[2] and abs(v[2]) > 1 or same: r = None
                else:
                    r = both.first(x, text)
                    if r[1] != r[2]: 
                        if k == 'interval' and v[2]: pass
                        else: return bad('sent', '%r is %s on the server, not %s' % (x, r[1], r[2]))
                    if of(t, r[0]) != want: return bad('echo', '%r came back as %r' % (x, r[0]))
                y = read.first(text)
                if of(t, y) != want: return bad('read', 'the server\'s %s was received as %r' % (text, y))
                for s in o['forms']:
                    if list(pack(s)) != v: return bad('form', '%r was packed as %r' % (s, pack(s)))
                for s in o['wrong']:
                    try: b = pack(s)
                    except Exception: continue
                    return bad('form:wrong', '%r was packed as %r' % (s, b))
            except Wrong as e: return bad('class', 'was received as %s' % e)
            except E.Error as e: return bad('exchange', '%r: %r' % (x, e))
        return {'steps': len(item), 'data': odd}
    return run

def extreme(job):
    "values at and beyond the limits of the types, and what is not a value of the type"
    import random, datetime, ipaddress
    from decimal import Decimal
    db = connect(job)
    from postgresql import exceptions as E
    from postgresql.types.geometry import Circle
    def run(item):
        kind, t, expr, sql = item
        ps = db.prepare('SELECT $1::%s, ($1::%s)::text' % (t, t))
        class Odd: pass
        x = eval(expr, {'Odd': Odd, 'datetime': datetime, 'ipaddress': ipaddress, 'Decimal': Decimal, 'Circle': Circle})
        def bad(key, m): return {'fail': {'key': '%s:%s' % (key, t), 'msg': '%s as %s: %s' % (expr if len(expr) < 100 else expr[:100] + '...', t, str(m)[:300])}}
        try: r = ps.first(x)
        except E.ParameterError as e: r = e
        except E.Error as e:
            r = e
            if kind == 'client': return bad('refused', 'was refused by the server: %s' % e)
        if kind == 'ok':
            if isinstance(r, Exception): return bad('exchange', repr(r))
            s = db.prepare('SELECT (%s)::%s::text' % (sql, t)).first()
            if r[1] != s: return bad('sent', 'is %s on the server, not %s' % (r[1], s))
            y = db.prepare('SELECT (%s)::%s' % (sql, t)).first()
            if r[0] != y: return bad('read', '%r and %r were received' % (r[0], y))
            if t == 'numeric' and not (r[0] == Decimal(x) and (Decimal(x).as_tuple()[2] > 0 or r[0].as_tuple() == Decimal(x).as_tuple())): return bad('echo', 'came back as %r' % (r[0],))
        elif not isinstance(r, Exception): return bad('altered', 'was taken, giving %r' % (r,))
        if db.prepare('SELECT 1').first() != 1: return bad('after', 'the connection is not usable')
        return {'steps': 2}
    return run

EXTREME = [
    ('ok', 'numeric', "Decimal('1E+131071')", "'1e131071'"), ('any', 'numeric', "Decimal('1E+131072')", ''), ('client', 'numeric', "Decimal('1E+200000')", ''),
    ('ok', 'numeric', "Decimal('-9E+131071')", "'-9e131071'"), ('ok', 'numeric', "Decimal('9'*3000)", "repeat('9',3000)"), ('ok', 'numeric', "Decimal('1'+'0'*4001+'1')", "'1' || repeat('0',4001) || '1'"),
    ('ok', 'numeric', "Decimal('1E-16383')", "'1e-16383'"), ('any', 'numeric', "Decimal('1E-16384')", ''), ('any', 'numeric', "Decimal('1E-32767')", ''), ('any', 'numeric', "Decimal('1E-32768')", ''), ('client', 'numeric', "Decimal('1E-40000')", ''), ('any', 'numeric', "Decimal('1E-65536')", ''), ('any', 'numeric', "Decimal('1E-65537')", ''),
    ('ok', 'numeric', "Decimal('0E-16383')", "'0e-16383'"), ('ok', 'numeric', "Decimal('12345.678E-16380')", "'12345.678e-16380'"),
    ('any', 'numeric', "Decimal('1E-70000')", ''), ('any', 'numeric', "Decimal('1E+262144')", ''), ('any', 'numeric', "Decimal('1E+262148')", ''), ('any', 'numeric', "Decimal('9'*40000 + 'E-20000')", ''), ('any', 'numeric', "Decimal('1'*270000)", ''),
    ('client', 'numeric', "Decimal('sNaN')", ''), ('client', 'numeric', "'x'", ''), ('client', 'numeric', "Odd()", ''), ('client', 'numeric', "[1]", ''),
    ('ok', 'numeric', "0.1", "'0.1000000000000000055511151231257827021181583404541015625'"), ('ok', 'numeric', '5e-324', "'%s'" % format(__import__('decimal').Decimal(5e-324), 'f')),
    ('ok', 'date', "datetime.date(1, 1, 2)", "'0001-01-02'"), ('ok', 'date', "datetime.date(9999, 12, 30)", "'9999-12-30'"),
    ('ok', 'interval', 'datetime.timedelta.max', "'999999999 days 86399.999999 secs'"), ('ok', 'interval', 'datetime.timedelta.min', "'-999999999 days'"), ('ok', 'interval', 'datetime.timedelta(microseconds=-1)', "'-1 day 86399.999999 secs'"),
    ('client', 'timestamp', 'datetime.datetime(2020, 1, 1, tzinfo=datetime.timezone.utc)', ''), ('client', 'timetz', 'datetime.time(1)', ''), ('client', 'date', "'tomorrow'", ''), ('client', 'date', '5', ''), ('client', 'timestamp', '5.0', ''), ('client', 'interval', '5', ''),
    ('client', 'float4', '1e39', ''), ('client', 'float4', '-3.5e38', ''), ('client', 'float8', "10**400", ''), ('client', 'float8', "'1.5'", ''), ('client', 'float8', '1j', ''),
    ('client', 'int4', '1.5', ''), ('client', 'int4', "'5'", ''), ('client', 'int8', 'Decimal(5)', ''), ('client', 'int2', 'Odd()', ''), ('client', 'bool', '2', ''), ('client', 'bool', "'t'", ''), ('client', 'bool', '[]', ''),
    ('client', 'bytea', '5', ''), ('client', 'bytea', "'x'", ''), ('client', 'bytea', 'True', ''), ('any', '"char"', "b''", ''), ('any', '"char"', "b'ab'", ''), ('client', '"char"', "'a'", ''), ('client', '"char"', "1", ''),
    ('any', 'text', "'a\\0b'", ''), ('client', 'text', "'\\ud800'", ''), ('client', 'text', '5', ''), ('client', 'text', "b'x'", ''), ('any', 'jsonb', "'{'", ''),
    ('client', 'inet', "'1.2.3.4.5'", ''), ('client', 'inet', "'1.2.3.4/33'", ''), ('client', 'cidr', "'1.2.3.4/8'", ''), ('client', 'cidr', "'::1/64'", ''), ('client', 'inet', "''", ''), ('client', 'uuid', "'x'", ''), ('client', 'uuid', "b'1234567890123456'", ''),
    ('any', 'circle', '((1, 2), -3)', ''), ('client', 'point', '(1,)', ''), ('client', 'point', "('a', 'b')", ''), ('client', 'int4[]', "[1, 'a']", ''), ('client', 'int4[]', '[[1], [1, 2]]', ''), ('client', 'int4[]', '[2**31]', ''), ('client', 'oid', '-1', ''), ('client', 'varbit', "'102'", ''),
    ('ok', 'oid', '2**32-1', "'4294967295'"), ('client', 'tid', '(2**32, 0)', ''), ('client', 'tid', '(0, 65536)', ''),
    # types without binary support in the client travel as text
    ('ok', 'int4range', "'[1,5)'", "'[1,5)'"), ('ok', 'money', "'$5.25'", "'5.25'"), ('ok', 'path', "'((1,2),(3,4))'", "'((1,2),(3,4))'"), ('ok', 'tsvector', '"\'a\' \'b\'"', "'a b'"), ('ok', 'regclass', "'pg_class'", "'pg_class'"), ('ok', 'macaddr8', "'08:00:2b:01:02:03:04:05'", "'08002b0102030405'"),
    ('ok', 'int4range[]', "'{\"[1,5)\",NULL}'", "array['[1,5)',null]"), ('ok', 'money[]', "'{$5.00}'", "array['5']"), ('ok', 'regtype[]', "'{integer}'", "array['int4']"), ('ok', 'ranged', "'(1,\"[1,5)\")'", "row(1,'[1,5)')"), ('ok', 'ranged[]', "'{\"(1,\\\\\"[1,5)\\\\\")\"}'", "array[row(1,'[1,5)')::ranged]"), ('ok', 'jsonpath', "'$.\"a\"'", "'$.a'"), ('ok', 'pg_lsn', "'0/16B3748'", "'0/16b3748'"), ('ok', 'int4multirange', "'{[1,5)}'", "'{[1,5)}'"),
    ('ok', 'aclitem', "'%s=r/%s'" % ('test', 'test'), "'test=r/test'"), ('ok', 'aclitem[]', "'{test=r/test}'", "array['test=r/test']"), ('ok', 'mood', "'glad'", "'glad'"), ('ok', 'line', "'{1,2,3}'", "'{1,2,3}'"), ('ok', 'polygon', "'((1,2),(3,4))'", "'((1,2),(3,4))'"),
]
SETUP = '''CREATE TYPE mood AS ENUM ('glad', 'sad', 'it''s "odd"'); CREATE DOMAIN amount AS numeric CHECK (value IS NULL OR value >= 0); CREATE DOMAIN amount2 AS amount; CREATE DOMAIN ints AS int4[];
CREATE TYPE pair AS (a int4, b text); CREATE TYPE deep AS (p pair, ps pair[], am amount, ams amount2[], m mood, i ints, ts timestamptz, mm mood[]); CREATE TYPE nought AS (); CREATE DOMAIN dpair AS pair; CREATE TYPE deeper AS (d deep, ds deep[], dp dpair, dps dpair[]);
CREATE TABLE dropped (a int4, gone text, b numeric, c bytea); ALTER TABLE dropped DROP COLUMN gone; CREATE TYPE ranged AS (a int4, r int4range); CREATE EXTENSION hstore'''
SEND = {'array': 'array_send', 'record': 'record_send', 'hstore': 'hstore_send'}
def nested(job):
    "arrays, records, domains and hstores: what is sent and received is decoded by the specification"
    import random, struct, warnings
    warnings.simplefilter('ignore')
    db = connect(job)
    db.typio.identify(contrib_hstore='hstore')
    from postgresql import exceptions as E
    from postgresql.types import Array
    of, make, Wrong = codec()
    oid = dict((r[0], int(r[1])) for r in db.prepare("SELECT typname::text, oid::text FROM pg_type").rows())
    scal = {k: k for k in ('int2', 'int4', 'int8', 'numeric', 'float8', 'bool', 'text', 'varchar', 'bytea', 'date', 'timestamptz', 'timetz', 'interval', 'uuid', 'inet', 'point', 'box', 'varbit', 'char', 'oid', 'name')}
    # name -> (specification type, SQL name)
    types = {k: (S(k), NAMES.get(k, k)) for k in scal}
    types['mood'] = (S('enum'), 'mood')
    for d, b in (('amount', 'numeric'), ('amount2', 'numeric')): types[d] = (types[b][0], d)
    def arr(n): return (S('array', [types[n][0]], [oid[n]]), types[n][1] + '[]')
    for n in list(types): types[n + '[]'] = arr(n)
    types['ints'] = (types['int4[]'][0], 'ints')
    def rec(n, fs): types[n] = (S('record', [types[f][0] for f in fs], [oid[f if not f.endswith('[]') else '_' + f[:-2]] for f in fs]), n); types[n + '[]'] = arr(n)
    rec('pair', ['int4', 'text']); rec('nought', []); rec('dropped', ['int4', 'numeric', 'bytea'])
    types['dpair'] = (types['pair'][0], 'dpair'); types['dpair[]'] = arr('dpair')
    rec('deep', ['pair', 'pair[]', 'amount', 'amount2[]', 'mood', 'ints', 'timestamptz', 'mood[]']); rec('deeper', ['deep', 'deep[]', 'dpair', 'dpair[]'])
    types['hstore'] = (S('hstore'), 'hstore'); types['hstore[]'] = arr('hstore')
    samples = job['samples']; samples['enum'] = [list(b'glad'), list(b'sad'), list(b'it\'s "odd"')]; samples['name'] = [list(b'a'), list(b'x y')]
    st = {}
    def run(item):
        name, seed, count = item
        rng = random.Random(seed)
        t, sql = types[name]
        def gen(t, name=None, top=False):
            if not top and rng.random() < .2: return None
            k = t['k']
            if k == 'array':
                nd = rng.choice([0, 1, 1, 1, 2, 3]); dim = [rng.randrange(1, 4) for i in range(nd)]
                n = 1
                for x in dim: n *= x
                if nd == 0: return Array([])
                el = [gen(t['a'][0]) for i in range(n)]
                def nest(el, dim):
                    if len(dim) == 1: return el
                    m = len(el) // dim[0]; return [nest(el[i * m:(i + 1) * m], dim[1:]) for i in range(dim[0])]
                if rng.random() < .4:
                    lo = [rng.choice([-3, 0, 1, 2]) for d in dim]
                    return Array.from_elements(el, lowerbounds=lo, upperbounds=[l + d - 1 for l, d in zip(lo, dim)])
                return Array(nest(el, dim)) if rng.random() < .5 or nd > 1 and any(isinstance(e, (list, Array)) for e in el) else Array(nest(el, dim))
            if k == 'record': return tuple(gen(u) for u in t['a'])
            if k == 'hstore': return dict(sorted(dict((str(make(S('text'), rng.choice(samples['text']), rng)), rng.choice([None, '', 'v', 'NULL', '"', 'é\\', '=>'])) for i in range(rng.randrange(5))).items(), key=lambda p: (len(p[0].encode()), p[0].encode())))
            while True:
                v = rng.choice(samples[k])
                if k == 'numeric' and v[0] in (1, 2, 4) : continue # the domains are not negative
                x = make(t, v, rng)
                try: of(t, x); return x # only values of the client's class are compared
                except Exception: continue
        if sql not in st:
            st[sql] = (db.prepare('SELECT $1::%s, %s($1::%s), ($1::%s)::text' % (sql, SEND[t['k']], sql, sql)), db.prepare('SELECT $1::text::%s' % sql), db.typio.resolve(db.prepare('SELECT $1::%s' % sql).pg_parameter_types[0])[0]) if t['k'] in SEND else \
                (db.prepare('SELECT $1::%s, record_send(row($1::%s)), ($1::%s)::text' % (sql, sql, sql)), db.prepare('SELECT $1::text::%s' % sql), None)
        both, read, pack = st[sql]
        out = []
        for i in range(count):
            x = gen(t, top=True)
            def bad(key, m): return {'fail': {'key': '%s:%s' % (key, name), 'msg': '%s %r: %s' % (name, x, m)}}
            v = of(t, x)
            if t['k'] == 'hstore': x = dict(sorted(x.items(), key=lambda p: (len(p[0].encode()), p[0].encode()))); v = of(t, x)
            try: r = both.first(x)
            except E.Error as e: return bad('exchange', repr(e))
            try: back = of(t, r[0]); again = of(t, read.first(r[2]))
            except Wrong as e: return bad('class', 'came back as %s' % e)
            except E.Error as e: return bad('read', '%s: %r' % (r[2], e))
            if back != v: return bad('echo', 'came back as %r' % (r[0],))
            if again != v: return bad('read', 'the server\'s %s was received as %r' % (r[2], read.first(r[2])))
            if t['k'] in SEND:
                out.append([t, v, list(bytes(pack(x)))])
                out.append([t, v, list(r[1])])
            if t['k'] == 'record' and t['a'] and rng.random() < .3: # fields by name; those not given are NULL
                f = [c[0] for c in db.prepare('SELECT attname::text FROM pg_attribute WHERE attrelid = \'%s\'::regclass AND attnum > 0 AND NOT attisdropped ORDER BY attnum' % (sql if sql != 'dpair' else 'pair')).rows()]
                d = {n: e for n, e in zip(f, x) if rng.random() < .7}; y = tuple(d.get(n) for n in f)
                r = both.first(d)
                if of(t, r[0]) != of(t, y): return bad('dict', '%r came back as %r' % (d, r[0]))
                if [r[0][n] for n in f] != list(r[0]): return bad('names', 'the fields of %r by name are %r' % (r[0], [r[0][n] for n in f]))
        return {'steps': 2 * count, 'data': out}
    return run

def anonymous(job):
    "records without a declared type, and the classes statements announce"
    db = connect(job)
    from postgresql import exceptions as E
    from decimal import Decimal
    from postgresql.types import Array
    def run(item):
        sql, expect = item
        ps = db.prepare('SELECT ' + sql)
        def bad(key, m): return {'fail': {'key': '%s:%s' % (key, sql), 'msg': '%s: %s' % (sql, m)}}
        try: r = ps.first()
        except E.ColumnError as e:
            if expect == 'error': return {'steps': 1}
            return bad('refused', repr(e))
        if expect == 'error': return bad('accepted', 'gave %r' % (r,))
        want = eval(expect, {'Decimal': Decimal, 'Array': Array})
        if r != want or type(r) is not type(want) and not isinstance(r, tuple): return bad('value', 'gave %r, expected %r' % (r, want))
        try: c = ps.column_types[0]
        except Exception as e: return bad('column_types', 'column_types raised %r' % e)
        if r is not None and not isinstance(r, c): return bad('column_types', 'gave %r, announced %r' % (r, c))
        return {'steps': 2}
    return run
ANON = [("row(1,2)", "(1, 2)"), ("row(1,null)", "(1, None)"), ("row()", "()"), ("row(1.50, row('x'::text, null))", "(Decimal('1.50'), ('x', None))"), ("row(array[1,null], 'a'::mood)", "(Array([1, None]), 'a')".replace("'a'", "'glad'")), ("array[row(1,'x'::text), row(2,null)]", "Array([(1, 'x'), (2, None)])"),
    ("row('[1,5)'::int4range)", "error"), ("row(1, '5'::money)", "error"), ("row(null::int4range, 1)", "(None, 1)"), ("row('pg_class'::regclass)", "error"), ("row('x')", "('x',)"), ("row('{}'::json)", "('{}',)"), ("row('n'::name, 'v'::varchar, 'c'::bpchar)", "('n', 'v', 'c')"), ("array[row('[1,5)'::int4range)]", "error"),
    ("1::oid", "1"), ("'5'::xid", "5"), ("'(1,2)'::tid", "(1, 2)"), ("null", "None"), ("'a'::\"char\"", "b'a'"), ("row(1.5::amount2, row(1,'a')::dpair)", "(Decimal('1.5'), (1, 'a'))"), ("'[1,5)'::int4range", "'[1,5)'"), ("array['[1,5)'::int4range]", "'{\"[1,5)\"}'"), ("row(1,'[1,5)')::ranged", "'(1,\"[1,5)\")'"), ("array['glad'::mood]", "Array(['glad'])"), ("array[1::oid]", "Array([1])"), ("'1 2'::int2vector", "Array([1, 2])"), ("int4range(1,5)", "'[1,5)'"), ("array['$.a'::jsonpath]", "'{\"$.\\\\\"a\\\\\"\"}'"), ("'NaN'::numeric::text", "'NaN'")]
ANON = [(a.replace("'a'::mood", "'glad'::mood"), b) for a, b in ANON]

GROUPS = ['ints', 'numeric', 'floats', 'geometry', 'dates', 'times', 'network', 'bits', 'bytes']
NESTED = ['int4[]', 'text[]', 'numeric[]', 'bool[]', 'bytea[]', 'timestamptz[]', 'timetz[]', 'interval[]', 'uuid[]', 'inet[]', 'point[]', 'box[]', 'varbit[]', 'int2[]', 'int8[]', 'float8[]', 'date[]', 'varchar[]', 'oid[]', 'mood[]', 'char[]', 'pair', 'pair[]', 'nought', 'nought[]', 'dropped', 'dropped[]', 'dpair', 'dpair[]', 'deep', 'deep[]', 'deeper', 'deeper[]', 'ints', 'amount[]', 'amount2[]', 'hstore', 'hstore[]', 'mood', 'name[]', 'amount2']
def run(ctx):
    import concurrent.futures, collections
    from vlib import tlc, pool, pgserver
    digits, bits = (10, 10) if ctx.thorough else (7, 8)
    def explore(g): return tlc.run(ctx, 'Values', {'Groups': frozenset([g]), 'NumDigits': digits, 'Bits': bits}, invariants=['RoundTrip', 'Representable'])
    with concurrent.futures.ThreadPoolExecutor(5) as ex: res = list(ex.map(explore, GROUPS))
    cases = []
    for g, (st, tr, edges) in zip(GROUPS, res): cases += [[a['op'], a['v'], o] for s, a, o, s2 in edges]
    ctx.rng.shuffle(cases)
    kinds = collections.Counter(c[0] for c in cases); ctx.log('%d values of %d types' % (len(cases), len(kinds)))
    samples = {}
    for k, v, o in cases:
        if o['wire'] != [-1] and o['client'] == 'yes' and not (k == 'interval' and v[2]): samples.setdefault(k, []).append(v)
    samples = {k: vs[:60] for k, vs in samples.items()}
    ctx.pg = pgserver.Server(ctx); ctx.pg.databases(8)
    for i in range(8): ctx.pg.psql(SETUP, 'w%d' % i)
    def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]
    asked = []
    for pure in (False, True):
        pre = 'python:' if pure else ''
        part = cases if not pure or ctx.thorough else cases[::3]
        items = chunks(part, 40)
        pool.replay(ctx, 'checks.p17', items, {'pure': pure, 'sock': ctx.pg.sock}, key_prefix=pre + 'value:', limit=120, user='pgtest')
        for i in ctx.data:
            for k, v, b, x in ctx.data[i]: asked.append(({'t': S(k), 'v': v, 'b': b}, pre + 'value:packed:' + k, x))
        ctx.log('%svalues exchanged, %d packed differently' % (pre, len(asked)))
        ex = [e for e in EXTREME if not pure or ctx.thorough or e[1] in ('numeric', 'int4', 'int8', 'int4[]', 'oid')]
        pool.replay(ctx, 'checks.p17', ex, {'pure': pure, 'sock': ctx.pg.sock}, func='extreme', key_prefix=pre + 'extreme:', limit=60, user='pgtest')
        n = (12 if ctx.thorough else 2) if not pure else (6 if ctx.thorough else 1)
        items = [[t, '%d %s %d' % (ctx.seed, t, i), 12] for t in NESTED for i in range(n)]
        pool.replay(ctx, 'checks.p17', items, {'pure': pure, 'sock': ctx.pg.sock, 'samples': samples}, func='nested', key_prefix=pre + 'container:', limit=120, user='pgtest')
        for i in ctx.data:
            for t, v, b in ctx.data[i]: asked.append(({'t': t, 'v': v, 'b': b}, pre + 'container:bytes', ''))
        pool.replay(ctx, 'checks.p17', ANON, {'pure': pure, 'sock': ctx.pg.sock}, func='anonymous', key_prefix=pre + 'record:', limit=60, user='pgtest')
    ctx.log('%d representations for TLC' % len(asked))
    bad = tlc.evaluate(ctx, 'Values', [a[0] for a in asked], {'Groups': frozenset(), 'NumDigits': 1, 'Bits': 1})
    for i, verdict in sorted(bad.items())[:6]:
        c, key, x = asked[i]
        ctx.violation(key, '%s: %s' % (json.dumps(c)[:400], verdict[:300]), {'case': c, 'value': x})
    ctx.cases += len(asked)
    for c in cases[:3]: ctx.sample(c)
