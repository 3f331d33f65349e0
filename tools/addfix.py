"""addfix.py PID COMMIT WHAT: record a repaired defect (used by hand only)."""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
pid, h, w = sys.argv[1:4]
k['findings'].append({'property': pid, 'key': 'fix-' + h, 'status': 'fixed', 'commit': h,
                      'what': 'fixed: property=%s %s %s' % (pid, h, w)})
json.dump(k, open(p, 'w'), indent=1)
