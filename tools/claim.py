#!/usr/bin/env python3
"""claim.py ID NOTE [TECHNIQUE]: lists a property as claimed and regenerates the manifest."""
import json,sys,subprocess,os
d=os.path.dirname(os.path.abspath(__file__))
p=d+'/claims.json'; c=json.load(open(p))
tech=sys.argv[3] if len(sys.argv)>3 else "abstract interpretation of the SSA form (trace-partitioned, symbolic heap); rule over the events and the state of every path"
c[sys.argv[1]]={"technique":tech,"note":sys.argv[2]}
c=dict(sorted(c.items()))
json.dump(c,open(p,'w'),indent=1)
for s in('gen_properties.py','gen_manifest.py'): subprocess.check_call([sys.executable,d+'/'+s])
