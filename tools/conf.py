"""tools/conf.py ID '{"builds":...}' : add/replace an entry of harness/conf.json"""
import json, sys
p='/verif/harness/conf.json'; c=json.load(open(p)); c[sys.argv[1]]=json.loads(sys.argv[2])
json.dump(dict(sorted(c.items())),open(p,'w'),indent=1)
