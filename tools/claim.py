#!/usr/bin/env python3
"""claim.py ID PKG RULE [key=value…]: register a property's check and rewrite the manifest (development tool)"""
import json, sys, subprocess, os
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=R+'/harness/packages.json'; d=json.load(open(p))
e={"pkg":sys.argv[2],"rule":sys.argv[3]}
for kv in sys.argv[4:]:
    k,v=kv.split('='); e[k]=json.loads(v)
d[sys.argv[1]]=e
json.dump({k:d[k] for k in sorted(d)},open(p,'w'),indent=1)
c=R+'/tools/claimed.txt'; s=set(open(c).read().split())|{sys.argv[1]}
open(c,'w').write(' '.join(sorted(s))+'\n')
subprocess.check_call([sys.executable,R+'/tools/props.py'])
