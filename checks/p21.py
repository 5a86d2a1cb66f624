"""P21: quoting and splitting SQL text (specs/SqlLex.tla, specs/SqlText.tla)."""
TECHNIQUE = 'TLA+ model (SqlLex, SqlText) of how SQL text divides into literals, quoted identifiers, dollar-quoted bodies and unquoted text, of quoting, and of qualified names; TLC enumerates every text over quoting-relevant alphabets, checking that the division loses nothing and that quoted values keep their meaning, and each text with its expected division is given to the real functions; the server confirms what quoted values, names and scripts mean'
LEVEL_NOTE = 'Every text of up to 5 (thorough: 6) characters over {quotes, dollar, backslash, E, a letter, ;, newline} and of up to 5 fragments over delimiters; longer random texts judged by TLC. Letters are varied (ASCII, accented, underscore). Every value of up to 4 characters is quoted and read back by the server. Comments are not divided by this library and are not part of the property; standard_conforming_strings is on. Folding of names is checked for ASCII letters.'

def show(x): return ''.join(x)

def worker(job):
    """Divisions: every text with its parts and statements."""
    import random
    from postgresql import string as S
    def run(item):
        rng = random.Random(repr(item[0]['text']))
        def conv(x): return ''.join(x).replace('x', letter)
        def part(p): return conv(p['t']) if not p['q'] else (conv(p['q']), conv(p['t']))
        for o in item:
            letter = rng.choice(['x', '_', '\xe9', '\u20ac', '\U0001d54f'])
            t = conv(o['text']); want = [part(p) for p in o['parts']]
            try:
                got = list(S.split(t))
                if got != want: return {'fail': {'key': 'split', 'msg': 'split(%r) gave %r, expected %r' % (t, got, want)}}
                if S.unsplit(got) != t or S.unsplit(iter(S.split(t))) != t: return {'fail': {'key': 'unsplit', 'msg': 'unsplit(split(%r)) gave %r' % (t, S.unsplit(got))}}
                stm = [[part(p) for p in s] for s in o['stmts']]
                got = [list(x) for x in S.split_sql(t)]
                if got != stm: return {'fail': {'key': 'split_sql', 'msg': 'split_sql(%r) gave %r, expected %r' % (t, got, stm)}}
                got = list(S.split_sql_str(t))
                strs = [S.unsplit(x) for x in stm]
                if got != strs or ';'.join(got) != t: return {'fail': {'key': 'split_sql_str', 'msg': 'split_sql_str(%r) gave %r, expected %r' % (t, got, strs)}}
                # the terminator may be another one
                if ';' in t and ':' not in t and '::' not in t:
                    for sep in (':', ' :: '):
                        u = t.replace(';', sep)
                        got = list(S.split_sql_str(u, sep=sep))
                        exp = [x.replace(';', sep) for x in strs]
                        if got != exp: return {'fail': {'key': 'split_sql_str:sep', 'msg': 'split_sql_str(%r, %r) gave %r, expected %r' % (u, sep, got, exp)}}
            except Exception as e: return {'fail': {'key': 'split:exception', 'msg': '%r: %r' % (t, e)}}
        return {'steps': len(item)}
    return run

def recorder(job):
    """Divisions of longer texts, to be judged by TLC."""
    from postgresql import string as S
    def run(text):
        t = ''.join(text)
        def part(p): return {'q': [], 't': list(p)} if isinstance(p, str) else {'q': list(p[0]), 't': list(p[1])}
        ps = list(S.split(t)); st = list(S.split_sql(t))
        if S.unsplit(ps) != t or ';'.join(S.split_sql_str(t)) != t: return {'fail': {'key': 'unsplit', 'msg': 'joining the parts of %r gave %r' % (t, S.unsplit(ps))}}
        return {'steps': 1, 'data': {'text': text, 'parts': [part(p) for p in ps], 'stmts': [[part(p) for p in x] for x in st]}}
    return run

def quoter(job):
    """Quoted values, read back by the server."""
    import random
    from postgresql import string as S
    from . import live
    st = {}
    def run(item):
        if 'db' not in st: st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        db = st['db']
        rng = random.Random(repr(item[0]['text']) + str(job['seed']))
        lits = []; ids = []
        for o in item:
            letter = rng.choice(['x', '_', '\xe9', '\u20ac', '\U0001d54f', '\x01', '%', '`'])
            if o['needed'] is False and letter in '\x01%`\u20ac\U0001d54f': letter = 'x'
            def conv(x): return ''.join(x).replace('x', letter)
            t = conv(o['text'])
            for key, f, exp in (('quote_literal', S.quote_literal, o['lit']), ('quote_ident', S.quote_ident, o['ident'])):
                got = f(t)
                if got != conv(exp): return {'fail': {'key': key, 'msg': '%s(%r) gave %r, expected %r' % (key, t, got, conv(exp))}}
            if S.escape_literal(t) != conv(o['lit'])[1:-1] or S.escape_ident(t) != conv(o['ident'])[1:-1]: return {'fail': {'key': 'escape', 'msg': 'of %r' % t}}
            need = S.quote_ident_if_needed(t)
            if need not in (conv(o['ident']), t) or (o['needed'] and need == t): return {'fail': {'key': 'quote_ident_if_needed', 'msg': 'quote_ident_if_needed(%r) gave %r' % (t, need)}}
            lits.append((t, S.quote_literal(t)))
            ids.append((t, S.quote_ident(t))); ids.append((t, need))
        q = 'SELECT ' + ', '.join(x[1] for x in lits)
        got = [*db.query(q)[0]] if lits else []
        for (t, x), g in zip(lits, got):
            if g != t: return {'fail': {'key': 'literal:server', 'msg': 'the server reads %r as %r, expected %r' % (x, g, t)}}
        q = 'SELECT ' + ', '.join('1 AS ' + x[1] for x in ids)
        got = db.prepare(q).column_names
        for (t, x), g in zip(ids, got):
            if g != t: return {'fail': {'key': 'ident:server', 'msg': 'the server reads %r as %r, expected %r' % (x, g, t)}}
        # qualified names
        names = []
        for k in range(min(20, len(ids))):
            ps = [rng.choice(ids)[0] for i in range(rng.randint(1, 4))]
            a = S.qname(*ps); b = S.qname_if_needed(*ps); names.append((ps, a)); names.append((ps, b))
            for x in (a, b):
                for y in (x, ' ' + ' . '.join(S.quote_ident(p) for p in ps) + '\t'):
                    if S.split_qname(y) != ps: return {'fail': {'key': 'split_qname', 'msg': 'split_qname(%r) gave %r, expected %r' % (y, S.split_qname(y), ps)}}
            if S.split_ident(','.join(S.quote_ident(p) for p in ps)) != ps: return {'fail': {'key': 'split_ident', 'msg': repr(ps)}}
            if len(ps) > 1:
                m = S.split_qname(a, maxsplit=len(ps) - 1)
                if m != ps: return {'fail': {'key': 'split_qname:max', 'msg': 'split_qname(%r, maxsplit=%d) gave %r' % (a, len(ps) - 1, m)}}
        got = db.prepare('SELECT parse_ident(x) FROM unnest($1::text[]) WITH ORDINALITY AS t(x,n) ORDER BY n').column([x for _, x in names])
        for (ps, x), g in zip(names, got):
            if list(g) != ps: return {'fail': {'key': 'qname:server', 'msg': 'the server reads %r as %r, expected %r' % (x, list(g), ps)}}
        return {'steps': len(item)}
    return run

def namer(job):
    """Texts as qualified names and lists of names."""
    import random
    from postgresql import string as S
    from . import live
    st = {}
    def run(item):
        if 'db' not in st: st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        db = st['db']
        rng = random.Random(repr(item[0]['text']) + str(job['seed']))
        read = []
        for o in item:
            t = show(o['text'])
            for key, f, want in (('split_qname', S.split_qname, o['dot']), ('split_ident', S.split_ident, o['comma'])):
                try: got = f(t); ok = True
                except ValueError: got = []; ok = False
                except Exception as e: return {'fail': {'key': key + ':exception', 'msg': '%s(%r): %r' % (key, t, e)}}
                exp = [show(x) for x in want['names']]
                if ok != want['ok'] or got != exp: return {'fail': {'key': key, 'msg': '%s(%r) %s, expected %s' % (key, t, 'gave %r' % got if ok else 'was refused', exp if want['ok'] else 'a ValueError')}}
                if ok and key == 'split_qname':
                    if all(got): read.append((t, got))
                    for q in (S.qname, S.qname_if_needed):
                        if S.split_qname(q(*got)) != got: return {'fail': {'key': 'qname:rejoin', 'msg': '%r, joined %r' % (got, q(*got))}}
            for key, a, exp in (('dot', (t, '"', '.'), o['sep']), ('max', (t, '"', '.', 1), o['sep1']), ('long', (t.replace('"', "'").replace('.', '..'), "'", '..'), None)):
                got = S.split_using(*a)
                if exp is None: exp = o['sep']; got = [x.replace("'", '"').replace('..', '.') for x in got]
                exp = [show(x) for x in exp]
                if got != exp: return {'fail': {'key': 'split_using:' + key, 'msg': 'split_using%r gave %r, expected %r' % (a, got, exp)}}
            t2 = t.replace('"', "'")
            for a, exp in (((t2, "'", '..'), o['lit']), ((t2, "'", '..', 1), o['lit1'])):
                if '"' in t: break
                got = S.split_using(*a); exp = [show(x) for x in exp]
                if got != exp: return {'fail': {'key': 'split_using:sep', 'msg': 'split_using%r gave %r, expected %r' % (a, got, exp)}}
        if read:
            got = db.prepare('SELECT parse_ident(x) FROM unnest($1::text[]) WITH ORDINALITY AS t(x,n) ORDER BY n').column([x for x, _ in read])
            for (t, ps), g in zip(read, got):
                if list(g) != ps: return {'fail': {'key': 'names:server', 'msg': 'the server reads %r as %r, split_qname as %r' % (t, list(g), ps)}}
        return {'steps': len(item)}
    return run

def scripter(job):
    """Scripts of statements storing quoted values: whole, and statement by statement."""
    import random
    from postgresql import string as S
    from . import live
    st = {}
    def run(item):
        if 'db' not in st:
            st['db'] = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
            st['db'].execute('CREATE TEMP TABLE s (n serial, ";" text, v text, ";\'" text)')
        db = st['db']
        rng = random.Random(repr(item[-1]))
        for o in item:
            rows = []; text = ''
            for k, e in enumerate(o['script']):
                val, way, name = show(e['value']), show(e['way']), show(e['name'])
                name = name.lstrip('"') if name.startswith('"') else name
                q = show(o['names'][k]) if not show(e['name']).startswith('"') else S.quote_ident(name)
                rows.append([name, val])
                text += rng.choice(['', ' ', '\n']) + 'INSERT INTO s (' + q + ')' + rng.choice(['', ' ', '\n']) + 'VALUES (' + way + rng.choice([')', '::text)']) + ';'
            want = [tuple(v if c == n else None for c in (';', 'v', ";'")) for n, v in rows]
            look = 'SELECT ";", v, ";\'" FROM s ORDER BY n'
            db.execute('DELETE FROM s'); db.execute(text)
            got = [tuple(r) for r in db.query(look)]
            if got != want: return {'fail': {'key': 'script:server', 'msg': 'MODEL: %r stores %r, expected %r' % (text, got, want)}}
            ps = list(S.split_sql_str(text))
            if len(ps) != len(rows) + 1 or ps[-1] != '' or ';'.join(ps) != text: return {'fail': {'key': 'script:pieces', 'msg': '%r was split into %r' % (text, ps)}}
            db.execute('DELETE FROM s')
            for p in ps[:-1]: db.prepare(p)()
            got = [tuple(r) for r in db.query(look)]
            if got != want: return {'fail': {'key': 'script:meaning', 'msg': 'the statements of %r store %r, expected %r' % (text, got, want)}}
        return {'steps': len(item)}
    return run

def keyworder(job):
    """Key words as names of tables."""
    from postgresql import string as S
    from . import live
    def run(kind):
        db = live.connect(job['sock'], 'w%d' % job['worker'], live.Plan())
        bad = []
        for w in db.prepare('SELECT word FROM pg_get_keywords() WHERE catcode::text = $1 ORDER BY 1').column(kind):
            if S.split_qname(S.qname(w, w)) != [w, w]: return {'fail': {'key': 'qname:keyword', 'msg': w}}
            for q in (S.quote_ident, S.quote_ident_if_needed):
                try:
                    db.execute('CREATE TEMP TABLE %s (a int)' % q(w))
                    if not db.prepare('SELECT count(*) FROM pg_class WHERE relname = $1 AND relpersistence = \'t\'').first(w): raise Exception('another name')
                    db.execute('DROP TABLE pg_temp.%s' % S.quote_ident(w))
                except Exception as e:
                    if q is S.quote_ident: return {'fail': {'key': 'ident:keyword', 'msg': '%r %r' % (w, e)}}
                    bad.append(w)
        if bad: return {'fail': {'key': 'ifneeded:keyword' if kind in 'RT' else 'ifneeded:word', 'msg': 'quote_ident_if_needed does not quote the key words %s' % ' '.join(bad)}}
        return {'steps': 1}
    return run

def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

def run(ctx):
    from vlib import tlc, pool, pgserver
    T = ctx.thorough
    def c(*xs): return frozenset(tuple(x) for x in xs)
    def explore(alphabet, maxlen, spec, inv, parts=0, op='text'):
        _, _, edges = tlc.run(ctx, 'SqlText', {'Alphabet': alphabet, 'MaxLen': maxlen, 'MaxParts': parts}, spec=spec, invariants=inv, coverage_required=[op], heap='6g')
        return [e[2] for e in edges]
    pgserver.Server(ctx, options=['client_min_messages=error']); ctx.pg.databases(8)
    # --- divisions
    for alphabet, n in ((c("'", '"', '$', 'x', 'E', '\\', ';', '\n'), 6 if T else 5),
                        (c("$x$", "$x", "x$", "$", "'", ";", "$E$"), 7 if T else 5),
                        (c("E'", "e'", "''", "\\'", "\\\\", "'", ";", "xE'"), 6 if T else 5),
                        (c("'", "'a", "$$", "$1", "$1$", "1", '"', ";"), 6 if T else 4)):
        os_ = explore(alphabet, n, 'Spec', ['Whole'])
        ctx.rng.shuffle(os_)
        ctx.log('%d texts' % len(os_))
        pool.replay(ctx, 'checks.p21', chunks(os_, 250), {}, limit=60)
    frags = ["'", "''", '"', '""', "E'", "e'", "LIKE'", "\\'", '\\', "\\\\", '$$', '$a$', '$b$', '$ab$', 'a$', '$1', '$', ';', ';', ' ', '\n', 'select ', 'E', 'e', '1', 'x', "U&'", 'B\'', '--', '/*', '\xe9', '\u20ac']
    texts = []
    for i in range(30000 if T else 3000):
        fs = ctx.rng.sample(frags, ctx.rng.randint(3, 10))
        texts.append(list(''.join(ctx.rng.choice(fs) for k in range(ctx.rng.randint(5, 40)))))
    pool.replay(ctx, 'checks.p21', texts, {}, func='recorder', limit=60)
    data = ctx.data; idx = sorted(data)
    for i, v in tlc.evaluate(ctx, 'SqlText', [data[k] for k in idx], {'Alphabet': set(), 'MaxLen': 0, 'MaxParts': 0}).items():
        ctx.violation('split:random', '%r: %s' % (show(data[idx[i]]['text']), v), {'text': data[idx[i]]['text']})
    # --- quoting
    os_ = explore(c("'", '"', '\\', '$', 'x', 'A', '.', ';', ' ', '1'), 5 if T else 4, 'QSpec', ['Inert', 'Kept'], op='quote')
    ctx.rng.shuffle(os_)
    ctx.log('%d values' % len(os_))
    pool.replay(ctx, 'checks.p21', chunks(os_, 100), {'sock': ctx.pg.sock}, func='quoter', limit=60)
    pool.replay(ctx, 'checks.p21', ['U', 'C', 'T', 'R'], {'sock': ctx.pg.sock}, func='keyworder', limit=60)
    # --- names
    for alphabet, n in ((c('"', '.', 'a', 'A', ' ', '1'), 7 if T else 5), (c('"', ',', '.', '""', 'a'), 7 if T else 5)):
        os_ = explore(alphabet, n, 'NSpec', [], op='names')
        ctx.rng.shuffle(os_)
        ctx.log('%d names' % len(os_))
        pool.replay(ctx, 'checks.p21', chunks(os_, 150), {'sock': ctx.pg.sock}, func='namer', limit=60)
    # --- scripts
    os_ = explore(c('', "'", ';', '$$', "\\", "a;'", '$t$', '";', "\\';") , 0, 'SSpec', ['AllWays'], parts=2, op='script')
    ctx.rng.shuffle(os_)
    ctx.log('%d scripts' % len(os_))
    if not T: os_ = os_[:6000]
    pool.replay(ctx, 'checks.p21', chunks(os_, 40), {'sock': ctx.pg.sock}, func='scripter', limit=60)
    ctx.sample([{'script': [show(e['way']) for e in o['script']]} for o in os_[:3]])
