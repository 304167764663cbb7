import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/t.json'))
miss=[x for x in b if x not in t['passed']]
print('stable', len(b), 'missing', miss)
