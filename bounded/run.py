"""Run the bounded stand-in of one property: run.py PROP TIER SEED OUT.json [BUDGET seconds]

Exit 0 always when it worked; OUT.json tells what was tried and the failing inputs."""
import sys, os, json, time, signal, traceback, resource, multiprocessing as mp
sys.setrecursionlimit(5000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import cases
CASE_LIMIT = 45
STOP = mp.get_context('fork').Value('i', 0)


class CaseTimeout(Exception):
    pass


def _alarm(*a):
    raise CaseTimeout()


def run_case(setup, expr, expected, envcache):
    import env
    key = setup
    signal.alarm(CASE_LIMIT)
    try:
        ns = envcache.get(key) if 'hist' not in setup else None
        if ns is None:
            if 'hist' in setup and envcache.get('hist_prefix') is not None and setup.startswith(envcache['hist_prefix']):
                # continue the running history instead of replaying it from the start
                ns = envcache['hist_ns']
                rest = setup[len(envcache['hist_prefix']):]
                rest = '' if rest.strip() == envcache.get('hist_last', '').strip() else rest
            else:
                ns = dict(vars(env))
                rest = setup
            if rest:
                exec(rest, ns)
            if 'hist' in setup:
                envcache['hist_prefix'], envcache['hist_ns'], envcache['hist_last'] = setup, ns, expr
            else:
                envcache.clear()
                envcache[key] = ns
        v = eval(expr, ns)
        signal.alarm(0)
        if v == expected and type(v) is type(expected) or (not isinstance(v, bool) and not isinstance(expected, bool) and v == expected):
            return None
        return f"got {v!r}"
    except CaseTimeout:
        return f"no answer within {CASE_LIMIT} s"
    except MemoryError:
        return "out of memory"
    except RecursionError:
        signal.alarm(0)
        return "RecursionError"
    except Exception as e:
        signal.alarm(0)
        return f"raised {type(e).__name__}: {str(e)[:300]}"
    finally:
        signal.alarm(0)


def work(job):
    fn, args, deadline = job
    n = 0
    seen = set()
    fails = []
    sample = None
    cut = False
    signal.signal(signal.SIGALRM, _alarm)
    cache = {}
    try:
        for setup, expr, expected in getattr(cases, fn)(*args):
            if time.time() > deadline or STOP.value:
                cut = True
                break
            n += 1
            if not any(type(expected) is type(x) and expected == x for x in ({}, [], None)):
                seen.add(hash((setup, expr)))
            if sample is None and expected:
                sample = [setup, expr, repr(expected)[:300]]
            r = run_case(setup, expr, expected, cache)
            if r is not None:
                STOP.value = 1
                fails.append({"setup": setup, "expr": expr, "expected": repr(expected), "got": r[:2000]})
                break
    except Exception:
        return dict(job=[fn, list(args)], n=n, distinct=len(seen), fails=fails, sample=sample, cut=cut, error=traceback.format_exc()[-1500:])
    return dict(job=[fn, list(args)], n=n, distinct=len(seen), fails=fails, sample=sample, cut=cut, error=None)


def init():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.stdout = open(os.devnull, 'w')


def main():
    prop, tier, seed, out = sys.argv[1:5]
    budget = float(sys.argv[5]) if len(sys.argv) > 5 else 300
    t0 = time.time()
    res = dict(evaluations=0, distinct=0, fails=[], samples=[], cut=0, errors=[], jobs=0)
    try:
        import env                       # the real code is imported once, before the workers fork
    except Exception as e:
        res['fails'] = [{"setup": "import schubertpy", "expr": "0", "expected": "0", "got": f"import raised {type(e).__name__}: {e}"}]
        json.dump(res, open(out, 'w'))
        return
    J = [(f, a, t0 + budget) for f, a in cases.jobs(prop, tier, int(seed))]
    # a killed worker (out of memory) must not hang the pool: use futures
    from concurrent.futures import ProcessPoolExecutor
    from concurrent.futures.process import BrokenProcessPool
    with ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 4), initializer=init, mp_context=mp.get_context('fork')) as ex:
        futs = [(j, ex.submit(work, j)) for j in J]
        for j, f in futs:
            try:
                r = f.result()
            except BrokenProcessPool:
                if not any('worker died' in e for e in res['errors']):
                    res['errors'].append(f"worker died (out of memory?) in or near job {j[:2]}")
                continue
            except Exception as e:
                res['errors'].append(repr(e)[:500])
                continue
            res['jobs'] += 1
            res['evaluations'] += r['n']
            res['distinct'] += r['distinct']
            res['fails'] += r['fails']
            res['cut'] += bool(r['cut'])
            if r['error']:
                res['errors'].append(str(r['job']) + r['error'])
            if r['sample'] and len(res['samples']) < 5:
                res['samples'].append(r['sample'])
    res['wall_s'] = time.time() - t0
    json.dump(res, open(out, 'w'), indent=1)


if __name__ == '__main__':
    main()
