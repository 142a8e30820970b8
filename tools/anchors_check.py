import json, os
for l in open('/verif/properties.jsonl'):
    p = json.loads(l)
    a = p['anchors']
    for f in a['files'] + [m['where'] for m in a['mechanism']] + [s['where'] for s in a['state']]:
        if not os.path.exists('/repo/' + f):
            print(p['id'], f)
