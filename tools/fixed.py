# fixed.py PROPERTY TEXT: append a "fixed" entry for /repo's HEAD
import json, subprocess, sys
p='/verif/known_findings.json'; k=json.load(open(p)); h=subprocess.check_output(['git','-C','/repo','rev-parse','--short','HEAD'],text=True).strip()
k['fixed'].append("fixed: property=%s %s %s"%(sys.argv[1], sys.argv[3] if len(sys.argv)>3 else h, sys.argv[2])); json.dump(k,open(p,'w'),indent=1)
