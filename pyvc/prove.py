"""Build the proof obligations of a set of units from /repo's current source and let Verus decide them.

    python3 pyvc/prove.py UNIT... [--keep FILE.rs] [--json OUT] [--only FN]
"""
import sys, os, json, subprocess, re, time, tempfile, shutil, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import translate as T

REPO = os.environ.get('VERIF_REPO', '/repo')
VERUS = os.environ.get('VERUS', 'verus')
RLIMIT = os.environ.get("PYVC_RLIMIT", "60")
EXTERNS = []


def closure(units, names):
    out = []

    def go(n, path=()):
        if n in path:
            raise ValueError('cyclic units ' + n)
        if n in out:
            return
        if n not in units:
            raise ValueError('no unit ' + n)
        for u in units[n].uses:
            go(u, path + (n,))
        out.append(n)
    for n in names:
        go(n)
    return out


def ext_fn(spec):
    """a function whose body could not be translated: its contract only (its obligations count as failed)"""
    rt = T.vt(spec.ret) if not spec.exc else f'Out<{T.vt(spec.ret)}>'
    params = ', '.join(f'Ghost({p}): Ghost<{T.vt(t)}>' for p, t in spec.params)
    req, ens, dec = T.split_contract(spec.contract)
    L = ['#[verifier::external_body]', f'pub fn {spec.name}({params}) -> (result_: Ghost<{rt}>)']
    if req:
        L += ['    requires'] + [f'        ({r}),' for r in req]
    if ens:
        L += ['    ensures'] + [f'        ({{ let result = result_@; {e} }}),' for e in ens]
    return L + ['{ unimplemented!() }']


def fun_axiom(spec):
    """the value of a verified function as a function of its arguments"""
    ps = ', '.join(f'{p}: {T.vt(t)}' for p, t in spec.params)
    req, ens, dec = T.split_contract(spec.contract)
    L = [f'pub uninterp spec fn {spec.fun}({ps}) -> {T.vt(spec.ret)};', '#[verifier::external_body]', f'pub proof fn axiom_{spec.fun}({ps})']
    if req:
        L += ['    requires'] + [f'        ({r}),' for r in req]
    L += ['    ensures'] + [f'        ({{ let result = {spec.fun}({", ".join(p for p, t in spec.params)}); {e} }}),' for e in ens]
    return L + ['{}']


def vac_fn(lines, name):
    """copy of a translated function without postconditions where no return may be reachable"""
    out, i = [], 0
    text = [t for t, n in lines]
    s = '\n'.join(text)
    head, body = s.split('\n{\n', 1)
    head = re.sub(r'\bpub fn ' + re.escape(name) + r'\(', f'pub fn {name}__vac(', head)
    m = re.search(r'\n    ensures\n', head)
    if m:
        rest = head[m.end():]
        d = re.search(r'\n    decreases .*$', '\n' + rest)
        head = head[:m.start()] + (d.group(0) if d else '')
    body = body.replace('return Ghost(', 'assert(false); return Ghost(')
    return head + '\n{\n' + body


def build(names, skip=(), vac=False, only=None, strings=None, drops=None):
    """-> (text, line notes, per function info)"""
    units = T.read_units(os.path.join(VERIF, 'contracts'))
    order = closure(units, names)
    src = T.Source(REPO)
    tables = {}
    for n in order:     # a unit sees the contracts of the units it uses
        tables[n] = T.Table()
        for m in closure(units, [n]):
            for fn in units[m].fns:
                tables[n].put(fn)
    strings = {} if strings is None else strings
    for s in ('A', 'B', 'C', 'D', 'Gr', 'IG', 'OG'):
        strings.setdefault(s, len(strings) + 1)
    out, notes, info = [], {}, {}
    externs = EXTERNS
    externs.clear()

    def put(t, note=None, fn=None):
        for l in t.split('\n'):
            out.append(l)
            notes[len(out)] = (note, fn)
    put('#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unreachable_code, non_snake_case, unused_braces, unused_labels)]')
    put('pub mod prelude {')
    put(open(os.path.join(HERE, 'prelude.rs')).read(), None, 'prelude')
    put('}')
    put('pub use prelude::*;')
    for n in order:
        u = units[n]
        put(f'pub mod unit_{n} {{')
        put('use vstd::prelude::*; use crate::*; verus! {')
        put('broadcast use crate::prelude::group_ext' + (', crate::prelude::group_fs;' if 'FS' in str([f.ret for f in u.fns]) else ';'))
        for kind, x in u.order:
            if kind == 'raw':
                put(x, None, f'lemmas of {n}')
                continue
            fn = x
            key = f'{fn.path}::{fn.label}'
            if fn.extern:
                externs.append(key)
                put('\n'.join(ext_fn(fn) + fun_axiom(fn)), None, key)
                continue
            fn.drops = (drops or {}).get(key, set())
            info[key] = {'unit': n, 'obligations': [], 'error': None, 'lines': None, 'name': fn.name}
            start = len(out) + 1
            if key in skip:
                info[key]['error'] = skip[key]
                put('\n'.join(ext_fn(fn)), None, key)
            else:
                try:
                    tr, lines = T.translate(src, tables[n], fn, strings)
                    info[key]['obligations'] = tr.obl
                    info[key]['src'] = T.ast.unparse(tr.fn)
                    if vac:
                        put(vac_fn(lines, fn.name), None, key)
                        put('\n'.join(ext_fn(fn)), None, key)
                    else:
                        for t, note in lines:
                            put(t, note, key)
                except T.Unsupported as e:
                    info[key]['error'] = 'outside the subset: ' + str(e)
                    put('\n'.join(ext_fn(fn)), None, key)
                except Exception as e:      # malformed change: report, never crash
                    info[key]['error'] = f'extraction failed: {type(e).__name__}: {e}'
                    put('\n'.join(ext_fn(fn)), None, key)
            if fn.fun:
                put('\n'.join(fun_axiom(fn)), None, key)
            info[key]['lines'] = (start, len(out))
        put('} }')
        put(f'pub use unit_{n}::*;')
    put('fn main() {}')
    text = '\n'.join(out)
    text = re.sub(r'str!"([^"]*)"', lambda m: f'{strings.setdefault(m.group(1), len(strings) + 1)}int', text)
    return text, notes, info, order


def run_verus(path, extra=(), timeout=600, rlimit=RLIMIT):
    t = time.time()
    cmd = [VERUS, path, '--output-json', '--time-expanded', '--error-format=json', '--rlimit', rlimit, '--num-threads', '8', '--multiple-errors', '8', *extra]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return None, [], time.time() - t, 'timeout', cmd
    errs = []
    for l in p.stderr.split('\n'):
        if l.startswith('{'):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') == 'error':
                errs.append(d)
    try:
        res = json.loads(p.stdout)
    except ValueError:
        res = None
    return res, errs, time.time() - t, p.stderr, cmd


def locate(d, notes):
    """the note and function an error belongs to, and the line"""
    best = None
    spans = sorted(d.get('spans', []), key=lambda s: (not s.get('is_primary')))
    fnkey, note, line = None, None, None
    for s in spans:
        n = notes.get(s['line_start'])
        if n and n[1] and fnkey is None:
            fnkey, line = n[1], s['line_start']
        if n and n[0] and note is None:
            note = n[0]
            line = s['line_start']
    return fnkey, note, line


def is_verification_error(d):
    return not d.get('code') and re.search(r'not satisfied|assertion failed|might fail|could not|rlimit|Resource limit|possible arithmetic|invariant|recommendation|decreases|loop|postcondition|precondition|unreachable', d['message']) is not None and \
        not re.search(r'mismatched|cannot find|expected', d['message'])


def dropped(errs, notes, text, info, drops, hints_only=False):
    """the hints and invariants that errors are about are noted in drops; -> whether one of them is new"""
    tl = text.splitlines()
    new = False
    for e in errs:
        k, note, line = locate(e, notes)
        if k not in info or not note or not line:
            continue
        if re.search(r': hint ', note):
            d = note + '|' + tl[line - 1].strip()
        elif not hints_only and re.search(r'loop \d+ (invariant: |terminates)', note):
            d = note
        else:
            continue
        if d not in drops.setdefault(k, set()):
            drops[k].add(d)
            new = True
    return new


def prove(names, workdir, vac=True):
    """-> result dictionary"""
    t0 = time.time()
    skip = {}
    os.makedirs(workdir, exist_ok=True)
    f = os.path.join(workdir, 'crate.rs')
    tries = 0
    drops = {}
    solver = 0
    while True:
        tries += 1
        text, notes, info, order = build(names, skip, drops=drops)
        open(f, 'w').write(text)
        res, errs, dt, raw, cmd = run_verus(f)
        vr = (res or {}).get('verification-results')
        hard = [e for e in errs if not is_verification_error(e)]
        soft_seen = vr is not None and vr.get('encountered-vir-error') is False and 'verified' in vr and (vr['verified'] + vr['errors'] > 0)
        if soft_seen or not errs:
            break
        # type errors in the text made from the source: those functions are undischarged
        bad = {}
        if dropped(errs, notes, text, info, drops) and tries < 10:
            continue        # a proof aid that does not fit the code is left out
        for e in errs:
            k, note, line = locate(e, notes)
            if k in info and k not in skip:
                bad[k] = 'outside the subset: ' + e['message'].split('\n')[0] + (f' at {text.splitlines()[line - 1].strip()[:160]}' if line else '')
        if not bad or tries > 20:
            break
        skip.update(bad)
    if errs and soft_seen:
        # a hint whose own assertion fails may be superfluous: the function is tried without it
        more = {k: set(v) for k, v in drops.items()}
        if dropped(errs, notes, text, info, more, hints_only=True):
            t2, n2, i2, o2 = build(names, skip, drops=more)
            f2 = os.path.join(workdir, 'crate2.rs')
            open(f2, 'w').write(t2)
            r2, e2, dt2, raw2, cmd2 = run_verus(f2)
            v2 = (r2 or {}).get('verification-results')
            if v2 and v2.get('encountered-vir-error') is False and v2.get('verified', 0) > 0 and v2['errors'] < vr['errors']:
                text, notes, info, order, res, errs, raw, cmd, vr, f, drops = t2, n2, i2, o2, r2, e2, raw2, cmd2, v2, f2, more
    failures = []
    for k, i in info.items():
        if i['error']:
            failures.append({'function': k, 'obligation': f'{k}: the body is within the verified subset', 'detail': i['error']})
    infra = None
    if res is None or not soft_seen and errs or vr is None:
        infra = 'verus gave no result: ' + '; '.join(e['message'] for e in errs[:3]) + (raw[-2000:] if not errs else '')
    elif vr.get('verified', 0) == 0:
        infra = 'verus verified nothing'
    # a proof found with another random seed of the solver is a proof
    retried = {}
    tl = text.splitlines()

    def owner(line):
        while line and line > 0:
            m = re.match(r'\s*(?:pub )?(?:broadcast )?(?:proof )?fn (\w+)', tl[line - 1])
            if m:
                return m.group(1)
            line -= 1
    if errs and not infra:
        mods = set()
        for e in errs:
            k, note, line = locate(e, notes)
            for j in range((line or 0) - 1, -1, -1):
                m = re.match(r'pub mod (unit_\w+)', tl[j])
                if m:
                    mods.add(m.group(1))
                    break
        for seed in (1, 2):
            if not mods or time.time() - t0 > 240:
                break
            r2, e2, dt2, raw2, _ = run_verus(f, ['--smt-option', f'smt.random_seed={seed}'] + [y for x in sorted(mods) for y in ('--verify-only-module', x)], timeout=200)
            try:
                for mod in r2['times-ms']['smt']['smt-run-module-times']:
                    for fb in mod.get('function-breakdown', []):
                        if fb.get('success'):
                            retried[fb['function'].split('::')[-1]] = fb
            except (KeyError, TypeError):
                pass
            if all(owner((locate(e, notes)[2] or 0)) in retried for e in errs if not e['message'].startswith('aborting due')):
                break
    byfn = {}
    for e in errs:
        if e['message'].startswith('aborting due'):
            continue
        if retried and owner(locate(e, notes)[2] or 0) in retried:
            continue
        k, note, line = locate(e, notes)
        ltext = text.splitlines()[line - 1].strip() if line else ''
        failures.append({'function': k or '?', 'obligation': note or f'{k}: {e["message"]}', 'detail': e['message'], 'line': ltext[:300], 'rendered': e.get('rendered', '')[:1500]})
    # per function times
    fdet = {}
    try:
        for mod in res['times-ms']['smt']['smt-run-module-times']:
            for fb in mod.get('function-breakdown', []):
                fdet[fb['function']] = retried.get(fb['function'].split('::')[-1], fb) if not fb.get('success') else fb
    except (KeyError, TypeError):
        pass
    funcs = []
    nobl = ndis = 0
    failfn = {x['function'] for x in failures}
    for k, i in info.items():
        fb = next((v for n, v in fdet.items() if n.split('::')[-1] == i['name']), None)
        ob = len(i['obligations']) if not i['error'] else 1
        bad = len({x['obligation'] for x in failures if x['function'] == k})
        ok = (k not in failfn) and fb is not None and fb.get('success', False)
        if not ok and k not in failfn and not infra:
            failures.append({'function': k, 'obligation': f'{k}: all obligations', 'detail': 'not reported as verified'})
            bad = ob
        nobl += ob
        ndis += ob if ok else max(0, ob - max(bad, 1))
        funcs.append({'function': k, 'unit': i['unit'], 'obligations': ob, 'verified': ok, 'time_ms': (fb or {}).get('time-micros', 0) / 1000.0, 'rlimit': (fb or {}).get('rlimit', 0)})
    lem = [(n, v) for n, v in fdet.items() if not n.split('::')[-1].startswith('py_') and n.split('::')[-1] != 'main']
    nobl += len(lem)
    ndis += sum(1 for n, v in lem if v.get('success'))
    solver = sum(v.get('time-micros', 0) for v in fdet.values()) / 1e6
    out = {'units': order, 'functions': funcs, 'lemmas': len(lem), 'lemmas_verified': sum(1 for n, v in lem if v.get('success')),
           'obligations': nobl, 'discharged': ndis, 'failures': failures, 'infra': infra, 'solver_s': round(solver, 3), 'wall_s': None,
           'cmd': ' '.join(cmd[:1] + ['<crate extracted from /repo>.rs'] + cmd[2:]), 'verus': ((res or {}).get('verus') or {}).get('version'), 'vacuity': None, 'externs': list(EXTERNS),
           'obligation_names': {k: i['obligations'] for k, i in info.items()}}
    if vac and not failures and not infra:
        text2, notes2, info2, _ = build(names, skip, vac=True, drops=drops)
        f2 = os.path.join(workdir, 'vacuity.rs')
        open(f2, 'w').write(text2)
        res2, errs2, dt2, raw2, _ = run_verus(f2, rlimit='10')
        reach = set()
        for e in errs2:
            for s in e.get('spans', []):
                n = notes2.get(s['line_start'])
                if n and n[1] in info2 and ('assertion failed' in e['message'] or 'esource limit' in e['message']):
                    reach.add(n[1])
        miss = [k for k in info2 if k not in reach]
        out['vacuity'] = {'functions_with_reachable_return': len(reach), 'of': len(info2), 'unreachable': miss}
        for k in miss:
            failures.append({'function': k, 'obligation': f'{k}: contract is not vacuous (some return is reachable)', 'detail': 'no return is reachable under the precondition and the invariants'})
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('units', nargs='+')
    ap.add_argument('--keep')
    ap.add_argument('--json')
    ap.add_argument('--novac', action='store_true')
    a = ap.parse_args()
    wd = tempfile.mkdtemp(prefix='pyvc')
    try:
        r = prove(a.units, wd, not a.novac)
        if a.keep:
            shutil.copy(os.path.join(wd, 'crate.rs'), a.keep)
        if a.json:
            json.dump(r, open(a.json, 'w'), indent=1)
        for x in r['failures']:
            print('FAIL', x['obligation'], '\n    ', x['detail'], '\n    ', x.get('line', ''))
        if r['infra']:
            print('INFRA', r['infra'])
        for x in r['functions']:
            print(('ok  ' if x['verified'] else 'BAD ') + x['function'], x['obligations'], f"{x['time_ms']:.0f}ms")
        print(f"{r['discharged']}/{r['obligations']} obligations, lemmas {r['lemmas_verified']}/{r['lemmas']}, solver {r['solver_s']} s, wall {r['wall_s']} s, vacuity {r['vacuity']}")
    finally:
        shutil.rmtree(wd)


if __name__ == '__main__':
    main()
