import json,sys
for p in sys.argv[1:]:
    d=json.load(open('/verif/evidence/%s.json'%p))
    for h in d['coverage']['harnesses']:
        print(p,h['harness'],h['kind'],h.get('status'),'obl',h.get('obligations'),'paths',h.get('paths'),'s',h.get('secs'),'conc',h['concrete_samples'],h['concrete_discarded'],h.get('reason','')[:100])
