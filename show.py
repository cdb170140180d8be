import json,sys
r=json.load(open(sys.argv[1]))
print(r['kind'],'|',r['detail'])
p=r['plan']
print({k:v for k,v in p.items() if k not in('cfg',)})
c=p.get('cfg')
if c:
    used={i for m in c['models'] for i in m['sigs']}
    for i in sorted(used): print(i,json.dumps(c['signals'][i]))
    print(c['models'],c['lnl'],[(s['kind'],s['fit'],s['wideband'],s['decj'],s['sort']) for s in c['psrs']])
print(*(r['trace'] or [])[-14:],sep='\n')
