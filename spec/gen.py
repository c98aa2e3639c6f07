#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/props.py."""
import json,os,sys
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode=True
sys.path.insert(0,os.path.join(V,'spec'))
from props import P
ids=[p['id'] for p in P]; assert len(set(ids))==len(ids)
P.sort(key=lambda p:(p['id'][0]!='P',p['id']))
with open(V+'/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        a={'files':p['files'],'mechanism':[{'name':n,'where':w} for n,w in p['mech']]}
        if p['state']: a['state']=p['state']
        assert p['statement'].count('. ')<=2,p['id']
        f.write(json.dumps({'id':p['id'],'title':p['title'],'statement':p['statement'],'quantifier':{'over':p['over'],'text':p['qtext']},'why_tests_cant':p['why'],'anchors':a})+'\n')
m={'version':1,'setup_cmd':'python3 engine/setup.py',
 'checks':[{'property':p['id'],'quick_cmd':'./check %s quick'%p['id'],'thorough_cmd':'./check %s thorough'%p['id'],'technique':p['technique'],'level':'other','level_note':p['note']} for p in P if not p['na']],
 'not_applicable':[{'property':p['id'],'reason':p['na']} for p in P if p['na']],
 'notes':'Static analysis only: every check re-reads the headers of /repo through clang and never runs them. No hooks in /repo.'}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
try:
    import jsonschema
    jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(V+'/properties.jsonl'): jsonschema.validate(json.loads(l),s)
    print('valid',len(P))
except ImportError: print('not validated')
