import json,sys
for P in sys.argv[1:]:
    d=json.load(open(f'evidence/{P}.json')); c=d['coverage']
    print(P,d['wall_s'],'s; harnesses',c['harnesses'],'ok',c['harnesses_discharged'],'slowest:',sorted(((v['ms'] or -1)//1000,k) for k,v in c['per_harness'].items())[-5:])
