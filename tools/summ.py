import json,sys,collections
d=json.load(open(sys.argv[1]))
g=collections.OrderedDict()
for f in d:
    k=(f['op'],f['kind'])
    g.setdefault(k,[]).append(f)
for k,v in g.items():
    print(k,len(v),'isa',sorted(collections.Counter(f['isa'] for f in v).items()),'T',sorted(collections.Counter(f['T'] for f in v).items())[:12],'abi',sorted(collections.Counter(f['abi'] for f in v).items())[:14])
    f=v[0]; print('    ',f['isa'],f['T'],f.get('U'),f['abi'],f['why'][:300]); print('    ',f['inputs'][:300])
    if len(sys.argv)>2: print(f['outputs'][:int(sys.argv[2])])
