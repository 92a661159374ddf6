"""writes CONTRACTS.md: every contract with its targets, bound and the callees it uses by contract (run with /opt/venv/bin/python)"""
import importlib, os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(1, '/repo/src')
from vc import spec, main
sys.path.append(main.Z3SITE)
spec.MODE = 'concrete'
out = ['# Contracts', '', 'Generated by `mkcontracts.py` from `vc/props`. *unbounded*: every obligation is discharged for all inputs; otherwise the bound is stated. '
       '*helper*: contract of a private helper, its failure alone is no alarm. *confirm*: the proof uses invariants or callee contracts, a refuted obligation counts once reproduced on the real code. *run time*: executed on the real code only.', '']
for i in range(1, 100):
    p = f'C{i:02d}'
    if not os.path.exists(f'vc/props/{p.lower()}.py'):
        continue
    importlib.import_module(f'vc.props.{p.lower()}')
    out += [f'## {p}', '']
    for k in spec.CONTRACTS.get(p, []):
        kind = 'unbounded' if not k.bounded else 'bounded: ' + k.bounded
        if not k.sym:
            kind = 'run time, ' + kind
        flags = ''.join([', helper' if k.aux else '', ', confirm' if k.confirm else ''])
        out.append(f'- **{k.name}** ({kind}{flags})' + (f' — {k.note}' if k.note else ''))
        if k.targets:
            out.append('  - on ' + ', '.join(f'`{t.replace("pymgrid.", "", 1)}`' for t in k.targets))
        if k.callees:
            out.append('  - callees by contract: ' + ', '.join(k.callees))
    out.append('')
open('CONTRACTS.md', 'w').write('\n'.join(out))
