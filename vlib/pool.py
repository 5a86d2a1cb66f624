import json, os, subprocess, sys, time
from .core import VERIF, PY, Machinery

def replay(ctx, modname, items, job=None, workers=8, limit=30, describe=None, key=None, func='worker', user=None,
        timeout=None, time_budget=None, key_prefix='', maxfail=6, env_extra=None):
    """
    Run items (JSON values) in worker processes; each item is one behaviour replayed on the
    real code.  Returns (completed, skipped).  Violations are recorded in ctx.
    """
    if not items:
        return 0, 0
    job = dict(job or {})
    workers = max(1, min(workers, len(items)))
    procs = []
    n = getattr(ctx, '_pooln', 0); ctx._pooln = n + 1
    timeout = timeout or max(30, ctx.remaining())
    for k in range(workers):
        idx = list(range(k, len(items), workers))
        j = dict(job, index=idx, items=[items[i] for i in idx], src=ctx.src, limit=limit, func=func,
            worker=k, seed=ctx.seed, tier=ctx.tier, maxfail=maxfail)
        if time_budget:
            j['time'] = time_budget
        d = os.path.join(ctx.scratch, 'pool%d' % n)
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o777)
        jf, of = os.path.join(d, 'job%d.json' % k), os.path.join(d, 'out%d.json' % k)
        with open(jf, 'w') as f:
            json.dump(j, f)
        env = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'HOME': d, 'TMPDIR': d,
            'PYTHONPATH': ctx.src, 'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0', 'VERIF_SEED': str(ctx.seed)}
        env.update(env_extra or {})
        cmd = [PY, '-X', 'faulthandler', os.path.join(VERIF, 'vlib', 'worker.py'), VERIF, modname, jf, of]
        if user:
            cmd = ['setpriv', '--reuid=' + user, '--regid=' + user, '--clear-groups'] + cmd
        ef = open(os.path.join(d, 'err%d' % k), 'w+b')
        p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=subprocess.STDOUT, start_new_session=True)
        ctx.procs.append(p)
        procs.append((k, p, of, ef, idx))
    end = time.time() + timeout
    completed = 0
    data = ctx.data = {} # what the behaviours recorded
    for k, p, of, ef, idx in procs:
        killed = False
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            killed = True
            try: os.killpg(p.pid, 9)
            except OSError: pass
            p.wait()
        cur = None; ended = False
        fatal = False
        if os.path.exists(of):
            with open(of) as f:
                for l in f:
                    try: r = json.loads(l)
                    except ValueError: continue
                    if 'start' in r:
                        cur = r['start']; continue
                    if r.get('end'):
                        ended = True; continue
                    i = r['i']; cur = None
                    if 'error' in r:
                        # An exception nobody anticipated: whether it is the harness's or the
                        # code's, the behaviour was not as specified.
                        fail = {'key': 'exception:' + r['error'].strip().splitlines()[-1][:160], 'msg': r['error']}
                        record(ctx, items[i], i, fail, key_prefix, describe, modname)
                        continue
                    if 'fail' in r:
                        record(ctx, items[i], i, r['fail'], key_prefix, describe, modname)
                        fatal = fatal or r.get('fatal')
                    completed += 1
                    if 'data' in r: data[i] = r['data']
                    ctx.traces += r.get('traces', 1)
                    ctx.steps += r.get('steps', 0)
                    for kk, v in (r.get('count') or {}).items():
                        ctx.cov[kk] = ctx.cov.get(kk, 0) + v
        ef.seek(0)
        err = ef.read().decode(errors='replace')
        if cur is not None and not ended:
            if killed and not fatal:
                fail = {'key': 'hang', 'msg': 'worker had to be killed after %.0fs\n%s' % (timeout, err[-2000:])}
            else:
                fail = {'key': 'crash', 'msg': 'worker died (rc %s)\n%s' % (p.returncode, err[-2000:])}
            record(ctx, items[cur], cur, fail, key_prefix, describe, modname)
        elif not ended and p.returncode != 0:
            raise Machinery('worker failed (rc %s): %s' % (p.returncode, err[-3000:]))
        ef.close()
    return completed, len(items) - completed

def record(ctx, item, i, fail, key_prefix, describe, modname):
    key = key_prefix + fail['key']
    ctx.violation(key, fail['msg'], {'module': modname, 'item': item, 'fail': fail})
