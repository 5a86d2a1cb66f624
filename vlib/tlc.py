"""Running TLC: exhaustive exploration with an edge dump, and evaluation of cases."""
import json, os, re, shutil, subprocess, time
from .core import VERIF, Machinery

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

def _val(v):
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (set, frozenset)):
        return '{' + ', '.join(_val(x) for x in sorted(v, key=repr)) + '}'
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(_val(x) for x in v) + '>>'
    if isinstance(v, dict):
        return '[' + ', '.join('%s |-> %s' % (k, _val(x)) for k, x in v.items()) + ']'
    raise TypeError(v)

def squeeze(out):
    ls = [l for l in out.splitlines() if l.strip() and not l.startswith(('Parsing file', 'Semantic processing', 'Linting'))]
    e = next((i for i, l in enumerate(ls) if 'rror' in l), 0)
    return '\n'.join(ls[e:])[:2500]

_n = [0]
def run(ctx, module, constants=None, invariants=(), properties=(), edges=True, spec='Spec', view=True,
        timeout=None, workers=1, env=None, coverage_required=(), simulate=None, heap='3g', constraint=None, post=None, allow_deadlock=True):
    """
    Explore `module` exhaustively.  Returns (states, transitions, edges) where edges is a
    list of [state, action, observation, state'] (JSON values) dumped by the module's
    `Edge` action constraint.
    """
    _n[0] += 1
    d = os.path.join(ctx.scratch, 'tlc%d-%s' % (_n[0], module))
    os.mkdir(d)
    for f in os.listdir(os.path.join(VERIF, 'specs')):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(VERIF, 'specs', f), d)
    cfg = ['SPECIFICATION ' + spec]
    seqdefs = []
    for k, v in (constants or {}).items():
        if isinstance(v, str) and v.startswith('='):
            cfg.append('CONSTANT %s <- %s' % (k, v[1:]))
        elif isinstance(v, (list, tuple, set, frozenset, dict)) or (isinstance(v, int) and v < 0):
            # cfg files know no sequences or negative numbers: define an operator in a wrapper module
            seqdefs.append((k, v))
        else:
            cfg.append('CONSTANT %s = %s' % (k, _val(v)))
    top = module
    if seqdefs:
        top = 'MC_' + module
        with open(os.path.join(d, top + '.tla'), 'w') as f:
            f.write('---- MODULE %s ----\nEXTENDS %s\n' % (top, module))
            for k, v in seqdefs:
                f.write('def_%s == %s\n' % (k, _val(v)))
                cfg.append('CONSTANT %s <- def_%s' % (k, k))
            f.write('====\n')
    for i in invariants:
        cfg.append('INVARIANT ' + i)
    for i in properties:
        cfg.append('PROPERTY ' + i)
    if view:
        cfg.append('VIEW View')
    if edges:
        cfg.append('ACTION_CONSTRAINT Edge')
    if constraint:
        cfg.append('CONSTRAINT ' + constraint)
    if post:
        cfg.append('POSTCONDITION ' + post)
    cfg.append('CHECK_DEADLOCK %s' % ('FALSE' if allow_deadlock else 'TRUE'))
    with open(os.path.join(d, 'mc.cfg'), 'w') as f:
        f.write('\n'.join(cfg) + '\n')
    ef = os.path.join(d, 'edges.txt')
    e = dict(os.environ, EDGES=ef)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-config', 'mc.cfg',
        '-workers', str(workers if not edges else 1), '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', '-seed', str(ctx.seed)]
    if simulate:
        cmd += ['-simulate', simulate]
    cmd += [top + '.tla']
    t = time.time()
    p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout or max(60, ctx.remaining()))
    out = p.stdout.decode(errors='replace')
    if p.returncode != 0:
        raise Machinery('TLC failed on %s (rc %d):\n%s' % (module, p.returncode, squeeze(out)))
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    trans, states = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    ctx.states += states
    ctx.transitions += trans
    el = []
    if edges and os.path.exists(ef):
        seen = set()
        with open(ef) as f:
            for l in f:
                l = l.rstrip('\n')
                if not l or l in seen:
                    continue
                seen.add(l)
                el.append(json.loads(json.loads(l)))
    ctx.log('TLC %s: %d states, %d transitions, %d edges, %.1fs' % (module, states, trans, len(el), time.time() - t))
    if not simulate:
        acts = {}
        for x in el:
            op = x[1]['op'] if isinstance(x[1], dict) else str(x[1])
            acts[op] = acts.get(op, 0) + 1
        missing = [c for c in coverage_required if not acts.get(c)]
        if missing:
            raise Machinery('vacuous exploration of %s: no transition of %s' % (module, missing))
        if el:
            ctx.cov.setdefault('action_counts', {})[module] = acts
    shutil.rmtree(os.path.join(d, 'meta'), ignore_errors=True)
    try: os.unlink(ef)
    except OSError: pass
    return states, trans, el

def evaluate(ctx, module, cases, constants=None, timeout=None, parts=None, heap='3g'):
    """
    Hand `cases` to TLC.  The module extends Cases conventions: it reads
    IOEnv.CASES (a JSON array), defines Verdict(c) (a string, "ok" if the
    specification allows the case) and writes the verdicts of the bad ones to IOEnv.VERDICTS
    as lines "<index> <verdict>", plus a final "done <n>".
    Returns {index: verdict} of the bad ones.
    """
    if not cases:
        return {}
    parts = parts or (1 if len(cases) < 400 else min(6, len(cases) // 200))
    procs = []
    for k in range(parts):
        _n[0] += 1
        d = os.path.join(ctx.scratch, 'ev%d-%s' % (_n[0], module))
        os.mkdir(d)
        for f in os.listdir(os.path.join(VERIF, 'specs')):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(VERIF, 'specs', f), d)
        idx = list(range(k, len(cases), parts))
        with open(os.path.join(d, 'cases.json'), 'w') as f:
            json.dump([cases[i] for i in idx], f)
        with open(os.path.join(d, 'mc.cfg'), 'w') as f:
            f.write('SPECIFICATION EvalSpec\nCHECK_DEADLOCK FALSE\n')
            for kk, v in (constants or {}).items():
                f.write('CONSTANT %s = %s\n' % (kk, _val(v)))
        e = dict(os.environ, CASES=os.path.join(d, 'cases.json'), VERDICTS=os.path.join(d, 'v.txt'))
        cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC', '-config', 'mc.cfg', '-workers', '1',
            '-metadir', os.path.join(d, 'meta'), '-noGenerateSpecTE', module + '.tla']
        lf = open(os.path.join(d, 'log'), 'w+b')
        procs.append((idx, d, lf, subprocess.Popen(cmd, cwd=d, env=e, stdout=lf, stderr=subprocess.STDOUT)))
        ctx.procs.append(procs[-1][-1])
    bad = {}
    t = time.time()
    for idx, d, lf, p in procs:
        p.wait(timeout=timeout or max(60, ctx.remaining()))
        lf.seek(0)
        out = lf.read().decode(errors='replace')
        if p.returncode != 0:
            raise Machinery('TLC evaluation of %s failed:\n%s' % (module, squeeze(out)))
        done = None
        with open(os.path.join(d, 'v.txt')) as f:
            for l in f:
                l = l.rstrip('\n')
                if not l: continue
                if l.startswith('"') and l.endswith('"'): l = l[1:-1].replace('\\"', '"')
                a, _, b = l.partition(' ')
                if a == 'done':
                    done = int(b)
                else:
                    bad[idx[int(a) - 1]] = b
        if done != len(idx):
            raise Machinery('TLC evaluated %r of %d cases of %s' % (done, len(idx), module))
        m = re.search(r'(\d+) states generated, (\d+) distinct', out)
        if m:
            ctx.states += int(m.group(2)); ctx.transitions += int(m.group(1))
    ctx.cases += len(cases)
    ctx.log('TLC evaluated %d cases of %s, %d bad, %.1fs' % (len(cases), module, len(bad), time.time() - t))
    return bad
