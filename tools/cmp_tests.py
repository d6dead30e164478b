import json,sys
t=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(t['passed']); m=[x for x in b['stable'] if x not in p]
print(len(p),'passed; stable missing:',len(m),m[:10])
sys.exit(bool(m))
