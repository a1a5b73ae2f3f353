"""tools/fixed.py PROP COMMIT KEY 'what failed' : record a repaired defect in known_findings.jsonl"""
import json, sys
p, c, k, w = sys.argv[1:5]
f = '/verif/known_findings.jsonl'
with open(f, 'a') as h:
    h.write(json.dumps(dict(status="fixed", property=p, commit=c, key=k, what=w, line="fixed: property=%s %s %s" % (p, c, w))) + "\n")
