"""writes MANIFEST.json from properties.jsonl and the contract files present"""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
TECH = ("contract-based deductive verification: pre/postconditions on the real functions, verification conditions "
        "generated from /repo's source by exhaustive path-wise symbolic execution and discharged by z3; "
        "counter-models replayed on the unmodified code")
NOTES = json.load(open(os.path.join(here, 'level_notes.json')))
NA = NOTES.get('not_applicable', {})
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(here, 'vc', 'props', i.lower() + '.py')) and i not in NA:
        n = NOTES[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i} --tier quick', thorough_cmd=f'./check {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=n.get('technique', TECH), level=n.get('level', 'proof'), level_note=n['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='No hooks are needed in /repo: contracts are sidecar files in vc/props, the source is read from the working tree on every run. '
               'fix: commits in /repo are listed in known_findings.jsonl.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
