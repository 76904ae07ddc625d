import json,sys
p='/verif/known_findings.json';d=json.load(open(p))
k=[k for k in d if any('fixed:' in str(x) for x in d[k])][0]
d[k].append(sys.argv[1]);json.dump(d,open(p,'w'),indent=1);open(p,'a').write('\n')
