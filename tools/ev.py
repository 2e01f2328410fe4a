import json,sys
for p in sys.argv[1:]:
    d=json.load(open('evidence/%s.json'%p)); print(p, d['wall_s'])
    for k,v in d['coverage']['per_sub'].items(): print('  ',k,v)
