import json,subprocess,sys
d=json.load(open('known_findings.json'))
h=subprocess.run(['git','-C','/repo','rev-parse','--short','HEAD'],capture_output=True,text=True).stdout.strip()
p,w=sys.argv[1:3]
d['findings'].append({'property':p,'status':'fixed','commit':h,'what':'fixed: property=%s %s %s'%(p,h,w)})
json.dump(d,open('known_findings.json','w'),indent=1)
