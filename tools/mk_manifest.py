"""Writes /verif/MANIFEST.json from plans.py and properties.jsonl."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from monitors import plans

props = [json.loads(l) for l in open('/verif/properties.jsonl')]
checks, na = [], []
for q in props:
  pid = q['id']
  if pid in plans.PLANS:
    pl = plans.PLANS[pid]
    checks.append(dict(
        property=pid, quick_cmd='python3 monitors/run.py %s' % pid,
        thorough_cmd='python3 monitors/run.py %s --tier thorough' % pid,
        evidence_file='evidence/%s.json' % pid,
        technique=pl['technique'], level=pl['level'], level_note=pl['rule']))
  else:
    na.append(dict(property=pid, reason='check not built yet'))
m = dict(version=1, setup_cmd='python3 monitors/setup.py', checks=checks, not_applicable=na)
with open('/verif/MANIFEST.json', 'w') as f:
  json.dump(m, f, indent=1)
  f.write('\n')
print(len(checks), len(na))
