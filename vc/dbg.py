"""developer helper: python -m vc.dbg C11 [contract name]"""
import sys, json, subprocess, os
from vc.main import _env, PY, VERIF
a = sys.argv
cmd = [PY, '-m', 'vc.main', 'sym', a[1], '--out', f'/tmp/dbg_{os.getpid()}.json'] + (['--only', a[2]] if len(a) > 2 else [])
p = subprocess.run(cmd, cwd=VERIF, env=_env(), capture_output=True, text=True)
print(p.stdout[-2000:], p.stderr[-3000:])
for r in json.load(open(f'/tmp/dbg_{os.getpid()}.json')):
    print(f"{r['name']}: paths {r['paths']} checks {r['checks']} wall {r['wall_s']} solver {r['solver_s']} {r['undecided']} missing {r['missing_covers']}")
    if r['error']: print(r['error'][-1500:])
    for o in r['obls']:
        if o['status'] != 'proved': print('   ', o['label'], o['status'], o['reason'], json.dumps(o['models'][:2])[:1500])
os.unlink(f'/tmp/dbg_{os.getpid()}.json')
