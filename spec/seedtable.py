# prints the table of planted bugs for DESIGN.md
import json,glob,os
print('| bug | property | breaks |\n|---|---|---|')
for d in sorted(glob.glob(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))+'/seeded/*')):
    m=json.load(open(d+'/meta.json')); print('| %s | %s | %s |'%(os.path.basename(d),m['property'],m['what_it_breaks']))
