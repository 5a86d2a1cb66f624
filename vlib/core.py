"""
Check framework: context, scratch copy + build, violations, evidence.

A check module (checks/pNN.py) defines
    PROPERTY, TITLE, LEVEL, TECHNIQUE ...
    def run(ctx): ...
and is started by bin/check, which builds the scratch copy first.
"""
import hashlib, importlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable

def jdump(o):
    return json.dumps(o, sort_keys=True, separators=(',', ':'), default=repr)

class Machinery(Exception):
    "failure of the check itself, not of the code under test"

class Ctx:
    def __init__(self, prop, tier, seed, budget):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.budget = budget
        self.scratch = tempfile.mkdtemp(prefix='vf%s.' % prop, dir='/tmp')
        os.chmod(self.scratch, 0o755)
        self.rng = random.Random(seed)
        self.states = self.transitions = self.traces = self.steps = 0
        self.cases = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.violations = []   # (key, replay path, message)
        self.known = []
        self.findings = load_findings(prop)
        self.pg = None
        self.procs = []
        self.level = 'model_checking'
        self.src = None

    @property
    def thorough(self):
        return self.tier == 'thorough'
    def elapsed(self):
        return time.time() - self.t0
    def remaining(self):
        return self.budget - self.elapsed()
    def log(self, *a):
        print('[%6.1fs]' % self.elapsed(), *a, file=sys.stderr, flush=True)

    def build(self):
        "scratch copy of the working tree with the C extension rebuilt"
        dst = os.path.join(self.scratch, 'src')
        os.mkdir(dst)
        ign = shutil.ignore_patterns('*.so', '__pycache__', '*.pyc', 'test', 'sphinx', '*.rst')
        shutil.copytree(os.path.join(REPO, 'postgresql'), os.path.join(dst, 'postgresql'), ignore=ign, symlinks=True)
        for f in os.listdir(REPO):
            p = os.path.join(REPO, f)
            if os.path.isfile(p) and not f.startswith('.'):
                shutil.copy(p, dst)
        env = dict(os.environ, CFLAGS='-Wno-deprecated-declarations', PYTHONDONTWRITEBYTECODE='1', LC_ALL='C.UTF-8', PIP_NO_INDEX='1')
        r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], cwd=dst, env=env,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        so = [f for f in os.listdir(os.path.join(dst, 'postgresql', 'port')) if f.startswith('optimized') and f.endswith('.so')]
        if r.returncode or not so:
            raise Machinery('build failed:\n' + r.stdout.decode(errors='replace')[-3000:])
        subprocess.run(['chmod', '-R', 'a+rX', dst])
        self.src = dst
        return dst

    # -- results
    def sample(self, o):
        if len(self.samples) < 6:
            self.samples.append(o)

    def violation(self, key, message, replay):
        "key identifies the specific failing input / call site / history"
        for f in self.findings:
            if f.get('status') == 'known' and re.fullmatch(f['key'], key):
                if f not in self.known:
                    self.known.append(f)
                return
        for k, _, _ in self.violations:
            if k == key:
                return
        if len(self.violations) >= 20:
            self.violations.append((key, None, message))
            return
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(key.encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (self.prop, h))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'key': key, 'message': message, 'replay': replay, 'seed': self.seed, 'tier': self.tier}, f, indent=1, default=repr)
        self.violations.append((key, path, message))
        self.log('VIOLATION', key, message)

    def evidence(self):
        cov = {'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces, 'steps_replayed': self.steps,
            'cases_evaluated': self.cases,
            'samples': self.samples or ['none']}
        cov.update(self.cov)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
            'coverage': cov, 'assumptions': self.assumptions, 'wall_s': round(self.elapsed(), 2),
            'violations': len(self.violations)}
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=repr)
        os.replace(tmp, os.path.join(d, self.prop + '.json'))

    def cleanup(self):
        if self.pg is not None:
            try: self.pg.stop()
            except Exception: traceback.print_exc()
        for p in self.procs:
            if p.poll() is None:
                p.kill()
        shutil.rmtree(self.scratch, ignore_errors=True)

def load_findings(prop):
    r = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d['property'] == prop:
                    r.append(d)
    return r

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--budget', type=float)
    ap.add_argument('--keep', action='store_true')
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + a.property.lower())
    budget = a.budget or (getattr(mod, 'BUDGET', {}).get(tier) or (240 if tier == 'quick' else 780))
    ctx = Ctx(a.property.upper(), tier, seed, budget)
    rc = 2
    def term(*_):
        raise SystemExit(2)
    signal.signal(signal.SIGTERM, term)
    try:
        ctx.build()
        ctx.log('built')
        mod.run(ctx)
        ctx.evidence()
        for f in ctx.known:
            print('KNOWN-FINDING: property=%s %s' % (ctx.prop, f['what']))
        for key, path, msg in ctx.violations:
            if path:
                print('VIOLATION property=%s replay=%s' % (ctx.prop, path))
                print('  %s: %s' % (key[:300], str(msg)[:600]))
        rc = 1 if ctx.violations else 0
        print('%s %s: states=%d transitions=%d traces=%d steps=%d cases=%d violations=%d wall=%.1fs' % (
            ctx.prop, tier, ctx.states, ctx.transitions, ctx.traces, ctx.steps, ctx.cases, len(ctx.violations), ctx.elapsed()))
    except Machinery as e:
        print('CHECK-ERROR property=%s %s' % (ctx.prop, e))
        rc = 2
    except Exception as e:
        traceback.print_exc()
        rc = 2
    finally:
        if a.keep:
            print('scratch kept', ctx.scratch)
        else:
            ctx.cleanup()
    sys.stdout.flush()
    return rc
