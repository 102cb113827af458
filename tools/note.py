#!/usr/bin/env python3
# note.py <id> <technique> <note>: record the manifest texts of a claimed property
import json,sys,os
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'levelnotes.json'); d=json.load(open(p))
d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
json.dump(dict(sorted(d.items())),open(p,'w'),indent=1)
