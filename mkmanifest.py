"""Writes MANIFEST.json from the checks that exist in sim/props and the reasons below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
NOTES = {}
exec(open(os.path.join(HERE, 'notes.py')).read(), NOTES)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'sim/props', i.lower() + '.py')) and i in NOTES['CHECKS']:
        tech, lvl, note = NOTES['CHECKS'][i]
        checks.append(dict(property=i, quick_cmd='%s check.py %s' % (PY, i), thorough_cmd='%s check.py %s --tier thorough' % (PY, i),
                           technique='deterministic simulation with fault injection: ' + tech, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason=NOTES['NA'].get(i, 'check not built yet')))
m = dict(version=1, setup_cmd=PY + ' setup_check.py',
         hooks=dict(guard='PYHALO_SIM', enable='no hooks were needed: every seam (numpy generator, h5py, file system, line-level interruption) is reached from outside; /repo is imported from its working tree', source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
