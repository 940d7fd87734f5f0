#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

1. extracts the functions the property depends on from /repo's current source, generates the
   proof obligations of their contracts (contracts/*.vrs) and lets Verus decide every one of them;
2. runs the bounded stand-ins (bounded/), which call the real code;
3. reports: exit 0 when every obligation is discharged and no bounded case fails, otherwise
   exit 1 with a VIOLATION line.  A concrete failing input makes a standalone replay script;
   a failed obligation without one makes a text with the obligation and the verifier's output.
"""
import sys, os, json, time, subprocess, threading, tempfile, shutil, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
sys.path.insert(0, os.path.join(VERIF, 'pyvc'))
sys.dont_write_bytecode = True
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', VERIF_REPO=REPO, PYTHONHASHSEED='0')
ENV.pop('PYTHONPATH', None)


def config():
    return json.load(open(os.path.join(VERIF, 'contracts', 'properties.json')))


def bounded(prop, tier, seed, out, budget, box):
    try:
        p = subprocess.run([PY, os.path.join(VERIF, 'bounded', 'run.py'), prop, tier, str(seed), out, str(budget)],
                           capture_output=True, text=True, env=ENV, timeout=budget + 150, cwd=VERIF)
        box['bounded'] = json.load(open(out)) if os.path.exists(out) else dict(fails=[], errors=['no result: ' + p.stderr[-1500:]], evaluations=0, distinct=0, samples=[], cut=0, jobs=0)
    except subprocess.TimeoutExpired:
        box['bounded'] = dict(fails=[], errors=['the bounded run did not end in time'], evaluations=0, distinct=0, samples=[], cut=0, jobs=0)
    except Exception as e:
        box['bounded'] = dict(fails=[], errors=[f'{type(e).__name__}: {e}'], evaluations=0, distinct=0, samples=[], cut=0, jobs=0)


REPLAY = '''#!/bin/sh
# replay of a failing input of property {prop}: exits 1 while the property is broken
cd {verif}/bounded && exec env VERIF_REPO="${{VERIF_REPO:-/repo}}" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg {py} - <<'REPLAY_END'
import sys
sys.setrecursionlimit(5000)
sys.path.insert(0, {verif!r} + '/bounded')
try:
    import env
    ns = dict(vars(env))
    setup = {setup!r}
    expr = {expr!r}
    expected = {expected}
    exec(setup, ns)
    got = eval(expr, ns)
except Exception as e:
    got = type(e).__name__ + ': ' + str(e)
    print('setup   ', {setup!r}); print('input   ', {expr!r}); print('expected', {expected!r}); print('raised  ', got)
    sys.exit(1)
print('setup   ', setup); print('input   ', expr); print('expected', expected); print('got     ', got)
sys.exit(0 if got == expected and type(got) is type(expected) or (not isinstance(got, bool) and not isinstance(expected, bool) and got == expected) else 1)
REPLAY_END
'''


def replay_of(prop, f):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((f['setup'] + f['expr']).encode()).hexdigest()[:10]
    path = os.path.join(d, f'{prop}-{h}.sh')
    open(path, 'w').write(REPLAY.format(prop=prop, verif=VERIF, py=PY, setup=f['setup'], expr=f['expr'], expected=f['expected']))
    os.chmod(path, 0o755)
    return path


def confirm(path, limit=120):
    """the failing input again, in a new process"""
    try:
        p = subprocess.run(['sh', path], capture_output=True, text=True, env=ENV, timeout=limit)
        return p.returncode == 1, p.stdout[-3000:] + p.stderr[-1000:]
    except subprocess.TimeoutExpired:
        return True, f'no answer within {limit} s'


def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                out.append(json.loads(l[8:]))
    return out


def main():
    prop = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough'):
        tier = os.environ['VERIF_TIER']
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    cfg = config()[prop]
    work = tempfile.mkdtemp(prefix=f'vp-{prop}-')
    try:
        rc = run(prop, tier, seed, cfg, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, cfg, work, t0):
    box = {}
    budget = 150 if tier == 'quick' else 420
    th = threading.Thread(target=bounded, args=(prop, tier, seed, os.path.join(work, 'b.json'), budget, box))
    th.start()
    import prove
    prove.REPO = REPO
    units = cfg.get('units', [])
    pr = None
    if units:
        try:
            pr = prove.prove(units, os.path.join(work, 'v'))
            for i, more in enumerate(cfg.get('also', [])):      # contracts that are a crate of their own
                merge(pr, prove.prove(more, os.path.join(work, f'v{i}')))
        except Exception as e:
            pr = dict(units=units, functions=[], lemmas=0, lemmas_verified=0, obligations=1, discharged=0, solver_s=0, wall_s=0, cmd='', verus=None, vacuity=None, obligation_names={},
                      failures=[dict(function='-', obligation='extraction of the functions under contract', detail=f'{type(e).__name__}: {e}', line='')], infra=None)
    for mod, on in (('memo', cfg.get('memo')), ('frames', cfg.get('frames'))):
        if on:
            try:
                r = __import__(mod).prove_memo(REPO, os.path.join(work, 'm')) if mod == 'memo' else __import__(mod).result(REPO)
            except Exception as e:
                r = dict(units=[mod], functions=[], lemmas=0, lemmas_verified=0, obligations=1, discharged=0, solver_s=0, wall_s=0, cmd='', verus=None, vacuity=None, obligation_names={},
                         failures=[dict(function='-', obligation=f'{mod} obligations', detail=f'{type(e).__name__}: {e}', line='')], infra=None)
            if pr is None:
                pr = r
            else:
                merge(pr, r)
                pr['cmd'] = ' ; '.join(x for x in (pr['cmd'], r['cmd']) if x)
                pr['verus'] = pr['verus'] or r['verus']
    if pr:
        if pr['infra'] and not pr['failures']:
            pr['failures'].append(dict(function='-', obligation='the verifier accepts the extracted functions', detail=pr['infra'], line=''))
    th.join()
    b = box['bounded']
    fails = list(b['fails'])
    pfail = pr['failures'] if pr else []
    extended = None
    if (pfail or b['errors']) and not fails:
        # the proof of the changed source fails: look harder for a failing input
        left = 420 - (time.time() - t0)
        if left > 60:
            box2 = {}
            bounded(prop, 'thorough', seed + 1, os.path.join(work, 'b2.json'), min(left, 240), box2)
            extended = box2['bounded']
            fails = list(extended['fails'])
    # known findings
    kn = [k for k in known() if k.get('property') == prop]
    hits, new = [], []
    for f in fails:
        k = next((k for k in kn if k.get('expr') == f['expr'] and k.get('setup', f['setup']) == f['setup']), None)
        (hits if k else new).append((k, f))
    for k in kn:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    violations = []
    for k, f in new[:3]:
        path = replay_of(prop, f)
        ok, text = confirm(path)
        if ok:
            violations.append((path, f, text))
    lines = []
    if violations:
        for path, f, text in violations[:1]:
            print(f"failing input: {f['setup']}\n    {f['expr']}\n    expected {f['expected'][:600]}\n    {f['got'][:600]}")
        for x in pfail[:5]:
            print(f"undischarged obligation: {x['obligation']}: {x['detail'].splitlines()[0][:300]}")
        lines.append(f"VIOLATION property={prop} replay={violations[0][0]}")
    elif pfail or b['errors'] or new:
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{prop}-obligation.txt')
        with open(path, 'w') as fh:
            fh.write(f'property {prop}: the following obligations generated from the current source were not discharged\n\n')
            for x in pfail:
                fh.write(f"obligation: {x['obligation']}\nfunction:   {x['function']}\nverifier:   {x['detail']}\nclause:     {x.get('line', '')}\n{x.get('rendered', '')}\n\n")
            for e in b['errors']:
                fh.write(f'bounded stand-in did not finish: {e}\n')
            for k, f in new:
                fh.write(f'input that failed once but not when repeated in a new process: {json.dumps(f)}\n')
            fh.write(f"\nverifier command: {pr['cmd'] if pr else '-'}\n")
            if extended:
                fh.write(f"search for a failing input: {extended['evaluations']} further concrete cases, none fails\n")
        for x in pfail[:5]:
            print(f"undischarged obligation: {x['obligation']}: {x['detail'].splitlines()[0][:300]}")
        for e in b['errors'][:3]:
            print('bounded stand-in:', e[-600:])
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
    ev = evidence(prop, tier, seed, cfg, pr, b, extended, violations, time.time() - t0, bool(lines))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if pr:
        print(f"{prop}: {pr['discharged']}/{pr['obligations']} obligations discharged by {'Verus/Z3' + (' and the frame checker' if cfg.get('frames') else '')} ({len(pr['functions'])} functions of /repo under contract, {pr['lemmas']} lemmas, solver {pr['solver_s']} s)")
    print(f"{prop}: bounded stand-in: {b['evaluations']} concrete cases on the real code, {len(fails)} failing; wall {time.time() - t0:.1f} s")
    for l in lines:
        print(l)
    return 1 if lines else 0


def merge(pr, r):
    have = {f['function'] for f in pr['functions']}
    new = [f for f in r['functions'] if f['function'] not in have]
    pr['functions'] = pr['functions'] + new
    for k in ('obligations', 'discharged', 'lemmas', 'lemmas_verified'):
        pr[k] += r[k]
    for k in ('solver_s', 'wall_s'):
        pr[k] = round(pr[k] + r[k], 2)
    pr['units'] = pr['units'] + r['units']
    pr['failures'] = pr['failures'] + r['failures']
    pr['infra'] = pr['infra'] or r['infra']
    pr['obligation_names'] = dict(pr['obligation_names'] or {}, **(r['obligation_names'] or {}))
    if isinstance(pr['vacuity'], dict) and isinstance(r['vacuity'], dict):
        pr['vacuity'] = {k: ((v + r['vacuity'][k]) if isinstance(v, (int, list)) and not isinstance(v, bool) and k in r['vacuity'] else v) for k, v in pr['vacuity'].items()}


def evidence(prop, tier, seed, cfg, pr, b, extended, violations, wall, bad):
    cov = {}
    level = cfg['level']
    if pr:
        cov.update(obligations=pr['obligations'], discharged=pr['discharged'], checker_cmd=pr['cmd'],
                   trusted_base=TRUSTED + cfg.get('trusted', []),
                   backend=f"Verus {pr['verus']} with its bundled Z3" + ('; frame obligations: pyvc/frames.py (abstract interpretation, no solver)' if cfg.get('frames') else ''), solver_s=pr['solver_s'], prove_wall_s=pr['wall_s'],
                   functions_under_contract=pr['functions'], lemmas=pr['lemmas'], lemmas_verified=pr['lemmas_verified'],
                   vacuity_guard=pr['vacuity'], undischarged=[{k: x.get(k) for k in ('function', 'obligation', 'detail')} for x in pr['failures']][:40],
                   proved=cfg.get('proved', []))
    cov['bounded_stand_in'] = dict(label='bounded: concrete cases run on the real code, not counted as proved', evaluations=b['evaluations'], distinct_nontrivial=b['distinct'],
                                   covers=cfg.get('bounded', ''), cut_short=b.get('cut', 0), samples=b['samples'], jobs=b.get('jobs'),
                                   extended_search=(dict(evaluations=extended['evaluations']) if extended else None))
    cov.update(evaluations=b['evaluations'], distinct_nontrivial=b['distinct'], samples=b['samples'] or ['none'],
               rule='bounded stand-in only: a case is one call of the real code with a given space, history and arguments; it is non-trivial when the expected answer is not zero, empty or None')
    return dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUMPTIONS + cfg.get('assumptions', []), wall_s=round(wall, 2), violations=(len(violations) or 1) if bad else 0)


TRUSTED = ['pyvc/translate.py: the extraction of Python functions into Verus and its meaning of the Python operations (pyvc/prelude.rs)',
           'Verus and Z3', 'prelude function `test` (external_body): passes the value of a ghost condition to a branch',
           'prelude axioms axiom_set_list and axiom_set_ints: list(set) has every element once, in an order left open',
           'prelude axiom axiom_schur: isSchur/toSchur recognise the sums that are one class with coefficient 1 and give that class']
ASSUMPTIONS = ['lists have value semantics in the proof; the extraction refuses functions that change a list that has a second name or came as an argument',
               'memo tables (hashable_lru_cache*) return what the decorated function returns (property C13 covers them)',
               'linear combinations are finite sums of terms coefficient * power of q, q1, q2 * class; the arithmetic of sympy on them, sympy.expand included, is taken as exact; LinearCombination.apply / apply_lc as the linear extension (property C11)',
               'functions marked `fun` in the contracts are deterministic: two calls with equal arguments give equal values',
               'float: only N / 2 in dualize_index_inner, taken as exact (true for |N| < 2**53)',
               'Python integers are mathematical integers (they are); recursion depth and memory are unbounded']

if __name__ == '__main__':
    main()
