"""Runs replay items against the code under test, in its own process."""
import faulthandler, importlib, json, os, signal, sys, time, traceback

class Hang(BaseException):
    pass

def main():
    verif, modname, jobf, outf = sys.argv[1:5]
    with open(jobf) as f:
        job = json.load(f)
    sys.path.append(verif)
    if job.get('pure'):
        sys.modules['postgresql.port.optimized'] = None
    import postgresql
    if not os.path.abspath(postgresql.__file__).startswith(job['src']):
        raise SystemExit('wrong postgresql: ' + postgresql.__file__)
    out = open(outf, 'w', buffering=1)
    faulthandler.enable()
    mod = importlib.import_module(modname)
    limit = job.get('limit', 30)
    def alarm(*_):
        raise Hang('no progress for %ss' % limit)
    signal.signal(signal.SIGALRM, alarm)
    emit = lambda o: out.write(json.dumps(o, default=repr) + '\n')
    run = getattr(mod, job.get('func', 'worker'))(job)
    fails = 0
    deadline = time.time() + job.get('time', 1e9)
    for i, item in zip(job['index'], job['items']):
        if time.time() > deadline:
            break
        emit({'start': i})
        signal.setitimer(signal.ITIMER_REAL, limit)
        faulthandler.dump_traceback_later(limit + 20, exit=True)
        try:
            r = run(item) or {}
        except Hang as e:
            r = {'fail': {'key': 'hang', 'msg': 'hang: %s\n%s' % (e, traceback.format_exc()[-1500:])}, 'fatal': True}
        except MemoryError:
            raise
        except Exception as e:
            r = {'error': traceback.format_exc()[-3000:]}
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            faulthandler.cancel_dump_traceback_later()
        r['i'] = i
        emit(r)
        if 'fail' in r:
            fails += 1
            if fails >= job.get('maxfail', 6) or r.get('fatal'):
                break
    fin = getattr(run, 'finish', None)
    if fin:
        fin()
    emit({'end': True})
    out.flush()
    os._exit(0)

if __name__ == '__main__':
    main()
