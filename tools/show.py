"""show.py Cxx: the failing cases of the last run's replays"""
import json, sys, glob, collections
for f in sorted(glob.glob('/verif/.replays/%s-*.json' % sys.argv[1])):
    j = json.load(open(f)); r = j['record']
    print(f, j['clauses'], j['key'], j['similar'], {k: (v if len(str(v)) < 300 else '...') for k, v in r.items()})
