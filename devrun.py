"""development helper: devrun.py MODULE [contract...]"""
import engine, sys, importlib, time, json
from engine import dsl, run
mods = sys.argv[1].split(',')
for m in mods: importlib.import_module('contracts.' + m)
names = [a for a in sys.argv[2:] if not a.startswith('-')]
v = '-v' in sys.argv
nosym = '-c' in sys.argv
done = set()
for c in dsl.CONTRACTS:
    if names and c.name not in names: continue
    if c.name in done: continue
    done.add(c.name)
    r = run.concrete_trials(c, 1, c.trials, 5)
    print(f'== {c.prop} {c.name}: concrete ok={r["ok"]} skip={r["skip"]}', 'FAIL' if r['fail'] else '', flush=True)
    if r['fail']: print(r['fail']['obligation'], r['fail']['detail'], str(r['fail']['inputs'])[:600], r['fail']['trace'])
    if not c.sym or nosym: continue
    s = run.run_symbolic(c, c.budget, v)
    bad = {k: o for k, o in s['obligations'].items() if o['proved'] < o['paths']}
    print(f'   sym {s["status"]} {s["reason"]} paths={s["paths"]} obl={len(s["obligations"])} bad={len(bad)} {s["wall"]:.1f}s', flush=True)
    for k, o in bad.items():
        print('     ', k, 'refuted' if o['refuted'] else 'unknown', json.dumps(o['refuted'][:1], default=str)[:4700 if v else 700] if o['refuted'] else o['unknown'][:2])
