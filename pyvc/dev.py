"""dev.py UNIT [--fn NAME] [--time]: verify one unit only (its dependencies are assumed), with readable errors"""
import sys, os, json, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prove as P
u = sys.argv[1]
text, notes, info, order = P.build([u])
f = '/tmp/w/dev_%s.rs' % u
os.makedirs('/tmp/w', exist_ok=True)
open(f, 'w').write(text)
for k, i in info.items():
    if i['error']:
        print('UNSUPPORTED', k, i['error'])
extra = ['--verify-only-module', 'unit_' + u]
if '--fn' in sys.argv:
    extra += ['--verify-function', sys.argv[sys.argv.index('--fn') + 1]]
res, errs, dt, raw, cmd = P.run_verus(f, extra)
for e in errs:
    k, note, line = P.locate(e, notes)
    if e['message'].startswith('aborting'):
        continue
    print('FAIL', k, '|', note)
    print(e.get('rendered', '')[:1200])
if res is None:
    print(raw[-3000:])
else:
    print(res.get('verification-results'), round(dt, 1))
    if '--time' in sys.argv:
        fs = []
        for mod in res['times-ms']['smt']['smt-run-module-times']:
            for fb in mod.get('function-breakdown', []):
                fs.append((fb.get('time', 0), fb['function']))
        for x in sorted(fs)[-10:]:
            print(x)
