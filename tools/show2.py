import json,sys,glob
for f in sorted(glob.glob(f'/verif/evidence/replay/{sys.argv[1]}*.json')):
    r=json.load(open(f)); print('==',r['verdict'], r['scenario']['args'])
    for s,e in zip(r['scenario']['steps'], r['trace']['events']): print(json.dumps(s)[:700],'\n   ->',json.dumps({k:v for k,v in e.items() if k not in s})[:900])
