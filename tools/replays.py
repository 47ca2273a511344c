import json, glob, sys
for p in sorted(glob.glob('/verif/.replays/%s-*.json' % sys.argv[1])):
    d = json.load(open(p)); r = d['record']
    print(d['clauses'], d['key'], d['similar'], r.get('cfg', ''), str(r.get('st', ''))[-250:])
    print('   ', json.dumps(r)[:int(sys.argv[2]) if len(sys.argv) > 2 else 300])
