#!/usr/bin/env python3
# usage: claim.py ID "technique" [extra note]   -- adds a claim and regenerates MANIFEST.json
import json,sys,os,subprocess
d=os.path.dirname(os.path.abspath(__file__))
f=os.path.join(d,'claims.json')
c=json.load(open(f))
note="Decided for the current source; nothing is executed. Trusts the documented behaviour of standard library and dependency calls, which are modelled as uninterpreted values with declared effects."
if len(sys.argv)>3: note=sys.argv[3]+" "+note
c['claimed'][sys.argv[1]]={"technique":sys.argv[2],"note":note}
json.dump(c,open(f,'w'),indent=1,sort_keys=True)
subprocess.check_call([sys.executable,os.path.join(d,'manifest.py')])
