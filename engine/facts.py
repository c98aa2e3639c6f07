"""Fact base of one translation unit, as produced by dump_facts."""
import json, re
from functools import lru_cache

class Fn:
    __slots__ = ('id','q','file','line','endline','params','rc','static','const','virt','over','acc','mk','ck','nt','ta',
                 'blocks','entry','exit','x','tries','order','lastq','raw','evalblock','crossuse','tdset','target','rty','dflt','impl','backheads','nblocks_preds')
    def __init__(s, j):
        s.raw = None
        for k in ('id','q','file','line','endline','params','rty'): setattr(s, k, j.get(k))
        s.rc=j.get('rc',0); s.static=j.get('static',0); s.const=j.get('const',0); s.virt=j.get('virt',0); s.over=j.get('over',[])
        s.acc=j.get('acc'); s.mk=j.get('mk'); s.ck=j.get('ck'); s.nt=j.get('nt',0); s.ta=j.get('ta'); s.dflt=j.get('dflt',0); s.impl=j.get('impl',0)
        s.entry=j['entry']; s.exit=j['exit']
        s.blocks={b['b']:b for b in j['blocks']}
        s.x={e['i']:e for e in j['x']}
        s.tries={t['id']:t['h'] for t in j['tries']}
        s.lastq=s.q.rsplit('::',1)[-1]
        s.evalblock=None

    ctor=property(lambda s: s.mk=='ctor')
    dtor=property(lambda s: s.mk=='dtor')
    method=property(lambda s: bool(s.mk))
    implicit=property(lambda s: bool(s.impl))

    def prep(s):
        if s.evalblock is not None: return
        s.evalblock={}; s.tdset={}; s.target={}; s.crossuse=set()
        for b in s.blocks.values():
            for el in b['e']:
                if isinstance(el,int): s.evalblock.setdefault(el,b['b'])
                elif el['k']=='tdtor': s.tdset[el['e']]=el
                elif el['k']=='init':
                    if el.get('n'): s.target[el['e']]=('field',el['n'])
                    else: s.target[el['e']]=('base',)
        for b in s.blocks.values():
            for el in b['e']:
                if isinstance(el,int):
                    for c in children(s.x[el]):
                        if s.evalblock.get(c,b['b'])!=b['b']: s.crossuse.add(c)
                elif 'e' in el and s.evalblock.get(el['e'],b['b'])!=b['b']: s.crossuse.add(el['e'])
            t=b.get('term')
            if t and 'cond' in t and s.evalblock.get(t['cond'],b['b'])!=b['b']: s.crossuse.add(t['cond'])
        # a sub-expression used only through an on-demand evaluated node (default argument etc.)
        for e in s.x.values():
            if e['i'] not in s.evalblock:
                for c in children(e):
                    if c in s.evalblock: s.crossuse.add(c)
            if e['k']=='decl':
                for v in e['v']:
                    if 'e' in v: s.target[v['e']]=('var',v['d'])
            elif e['k']=='new' and e.get('e'): s.target[e['e']]=('new',e['i'])
            elif e['k']=='ret' and e.get('e'): s.target.setdefault(e['e'],('ret',))
        # loop heads
        color={}; s.backheads=set()
        st=[(s.entry,iter([x for x in s.blocks[s.entry]['s'] if x is not None and x>=0]))]; color[s.entry]=1
        while st:
            b,it=st[-1]
            for n in it:
                if n not in color:
                    color[n]=1; st.append((n,iter([x for x in s.blocks[n]['s'] if x is not None and x>=0]))); break
                elif color[n]==1: s.backheads.add(n)
            else:
                color[b]=2; st.pop()
        # conditional operators pass targets to the branches
        for e in s.x.values():
            if e['k']=='cond' and e['i'] in s.target:
                s.target[e['x']]=s.target[e['i']]; s.target[e['y']]=s.target[e['i']]
            if e['k']=='ctor' and e.get('cp') and e['a'] and e['i'] in s.target:
                # elided copies in this mode still show as constructors of constructors
                c=s.x[e['a'][0]]
                if c['k']=='ctor' and not c.get('lv'): s.target.setdefault(c['i'],s.target[e['i']])

def children(e):
    k=e['k']; r=[]
    for f in ('b','e','x','y','c','o','ce'):
        v=e.get(f)
        if isinstance(v,int) and v: r.append(v)
    if k!='ref' or True:
        for v in e.get('a',()) or ():
            if isinstance(v,int) and v: r.append(v)
    if k=='decl':
        for v in e['v']:
            if v.get('e'): r.append(v['e'])
    if k=='lambda':
        for c in e['cp']:
            if c.get('e'): r.append(c['e'])
    return r

class Facts:
    def __init__(s, path):
        d=json.load(open(path))
        s.fns={}; s.byq={}; s.recs={}; s.types={}
        for j in d['fns']:
            f=Fn(j); s.fns[f.id]=f; s.byq.setdefault(f.q,[]).append(f)
        for ch in d['chunks']:
            for r in ch['recs']: s.recs[r['id']]=r
            for t in ch['types']: s.types[t['i']]=t
        s.recbyq={}
        for r in s.recs.values(): s.recbyq.setdefault(r['q'],[]).append(r)
        s.files=d['files']
        cst={}; 
        for r in s.recs.values():
            for fl in r.get('fields',()):
                t=s.types.get(fl['ty'],{})
                cst.setdefault(fl['n'],[]).append(bool(t.get('const') or t.get('ref')))
        s.constfields={n for n,l in cst.items() if all(l)}
        s.overriders={}
        for f in s.fns.values():
            for o in f.over: s.overriders.setdefault(o,set()).add(f.id)
        s._bases={}
        s.methods_of={}
        for f in s.fns.values():
            if f.rc: s.methods_of.setdefault(f.rc,[]).append(f)

    def canon(s, recq, roles):
        """Private fields may be renamed freely: a field of record `recq` with a canonical name is kept, for every canonical
        name which is absent the first other field of the given type takes the role. roles: [(canonical, type regex)]"""
        for r in s.recbyq.get(recq,()):
            fl=r.get('fields') or []
            if not fl: continue
            names=[f['n'] for f in fl]; canon=[c for c,_ in roles]; ren={}
            for c,rx in roles:
                if c in names: continue
                for f in fl:
                    t=re.sub(r'\bconst\b|&|mutable','',s.tystr(f['ty'])).strip()
                    if f['n'] not in canon and f['n'] not in ren and re.search(rx,t): ren[f['n']]=c; break
            if not ren: continue
            for f in fl: f['n']=ren.get(f['n'],f['n'])
            for g in s.fns.values():
                for e in g.x.values():
                    if e['k']=='mem' and e.get('rc')==r['id'] and e['n'] in ren: e['n']=ren[e['n']]
                if g.rc==r['id']:
                    for b in g.blocks.values():
                        for el in b['e']:
                            if not isinstance(el,int) and el.get('k') in('init','mdtor') and el.get('n') in ren: el['n']=ren[el['n']]

    def ty(s,i): return s.types.get(i,{'s':''})
    def tystr(s,i): return s.types[i]['s'] if i in s.types else ''

    def bases(s, rid):
        """all transitive base record ids, incl. itself"""
        if rid in s._bases: return s._bases[rid]
        out=[rid]; seen={rid}; q=[rid]
        while q:
            r=s.recs.get(q.pop())
            if not r: continue
            for b in r.get('bases',()):
                if b not in seen: seen.add(b); out.append(b); q.append(b)
        s._bases[rid]=out
        return out

    def all_overriders(s, fid):
        out=set(); q=[fid]
        while q:
            x=q.pop()
            for o in s.overriders.get(x,()):
                if o not in out: out.add(o); q.append(o)
        return out

    def find(s, q, **kw):
        """functions by qualified name (template arguments ignored); suffix match when q starts with '::' """
        if q.startswith('*'):
            suf=q[1:]
            r=[f for n,fs in s.byq.items() if n.endswith(suf) for f in fs]
        else: r=list(s.byq.get(q,()))
        for k,v in kw.items():
            if k=='full': r=[f for f in r if v in s.recs.get(f.rc,{}).get('full','')]
            elif k=='nparams': r=[f for f in r if len(f.params)==v]
            else: r=[f for f in r if getattr(f,k)==v]
        return r
    def recfull(s, f): return s.recs.get(f.rc,{}).get('full','') if f.rc else ''
    def display(s,f):
        r=s.recfull(f)
        base=f.q
        if r and len(r)<160: base=r+'::'+f.lastq
        return base
