"""The containers of the storage, shared by P12, P13 and P16: symbolic effects of the mutators, the rollback closures and the replay handlers."""
from rulelib import *
import lib,re
from P10 import deep
NS='current::storage::container::'
KINDS={'GenericDictionary':'dict','GenericManyToMany':'mm','GenericOneToMany':'om','GenericOneToOne':'oo'}
ASSUME=['std containers keep their contracts','the keys of an entry do not change while it is stored','memory allocation does not fail']
def strip(t):
    if not isinstance(t,tuple): return t
    if t and t[0]=='old' and len(t)==3: return strip(t[2])
    if t and t[0]=='c' and isinstance(t[1],str):
        if t[1].startswith('ctor:') and len(t)==3: return strip(t[2])
        if t[1] in('std::move','std::forward') and len(t)==3: return strip(t[2])
        if t[1].startswith('std::') and len(t)==4 and t[1].endswith('make_pair'): return('il',strip(t[2]),strip(t[3]))
    if t and t[0]=='cpy' and len(t)==2: return strip(t[1])
    return tuple(strip(x) for x in t)
def full(eng,st,t,n=0):
    """t with the locals replaced by their values"""
    if n>14 or not isinstance(t,tuple): return t
    if t[0] in('v','t'):
        v=deep(eng,st,t)
        if v!=t: return full(eng,st,v,n+1)
        a=eng.lookup(st,('f',t,'first')); b=eng.lookup(st,('f',t,'second'))
        if a!=('f',t,'first') and b!=('f',t,'second'): return('il',full(eng,st,a,n+1),full(eng,st,b,n+1))
        return t
    if t[0]=='f':
        v=deep(eng,st,t)
        if v!=t: return full(eng,st,v,n+1)
        b=full(eng,st,t[1],n+1)
        if isinstance(b,tuple) and b[0]=='il' and len(b)==3 and t[2] in('first','second'): return b[1 if t[2]=='first' else 2]
        return('f',b,t[2])
    return tuple(full(eng,st,x,n+1) if isinstance(x,tuple) else x for x in t)
OPS={'==':lambda a,b:a==b,'!=':lambda a,b:a!=b,'<':lambda a,b:a<b,'<=':lambda a,b:a<=b}
def zerotest(f,names):
    """(call,True when the fact f says that the call returns zero) for a fact about a call of one of the names"""
    def iscall(x): return isinstance(x,tuple) and x and x[0]=='c' and isinstance(x[1],str) and x[1].rsplit('::',1)[-1] in names
    if f[0] in('T','F'):
        x=strip(f[1])
        return(x,f[0]=='F') if iscall(x) else None
    if f[0] not in OPS: return None
    a,b=strip(f[1]),strip(f[2])
    la,lb=litv(a),litv(b)
    if iscall(a) and isinstance(lb,(int,float)): v=[OPS[f[0]](n,lb) for n in(0,1,2)]; x=a
    elif iscall(b) and isinstance(la,(int,float)): v=[OPS[f[0]](la,n) for n in(0,1,2)]; x=b
    else: return None
    if v==[True,False,False]: return x,True
    if v==[False,True,True]: return x,False
    return None
class Con:
    """one instantiation of a container, and the roles of its fields"""
    def __init__(s,F,r):
        s.F=F; s.rec=r; s.kind=KINDS[r['q'].rsplit('::',1)[-1]]
        s.maps=[]; s.journal=None
        fs=[(f['n'],F.types[f['ty']]['s']) for f in r['fields']]
        for n,t in fs:
            if 'MutationJournal' in t and t.rstrip().endswith('&'): s.journal=n
        if s.journal is None: raise Broken('%s: no journal'%r['q'])
        ms=[(n,t) for n,t in fs if re.match(r'(const )?std::(unordered_)?map<',t)]
        lm=[n for n,t in ms if re.search(r'map<.*?, std::chrono::duration<',t) and 'unique_ptr' not in t and 'CSI_' not in t]
        if len(lm)!=1: raise Broken('%s: the timestamps of the last modifications: %s'%(r['q'],lm))
        s.lm=lm[0]; ms=[(n,t) for n,t in ms if n!=s.lm]
        s.fwd=s.tr=None
        def pick(l,what):
            if len(l)!=1: raise Broken('%s: no unique %s: %s'%(r['q'],what,l))
            return l[0]
        if s.kind=='dict': s.map=pick([n for n,t in ms],'map of the elements')
        else:
            s.map=pick([n for n,t in ms if re.search(r'map<std::pair<',t) and 'map<std::pair<' in t[:40]],'map of the elements')
            s.fwd=pick([n for n,t in ms if n!=s.map and re.match(r'std::(unordered_)?map<int,',t)],'index by row')
            s.tr=pick([n for n,t in ms if n!=s.map and re.match(r'std::(unordered_)?map<std::basic_string',t)],'index by column')
        s.fields=[n for n in(s.map,s.lm,s.fwd,s.tr) if n]
    # ---- canonical terms
    def finds(s,t):
        """(field,key) of an iterator term"""
        if isinstance(t,tuple) and t[0]=='c' and t[1].rsplit('::',1)[-1] in('find','lower_bound') and len(t)==4 and isinstance(t[2],tuple) and t[2][0]=='f' and t[2][1]==THIS and t[2][2] in s.fields: return t[2][2],t[3]
        return None
    def ends(s,t):
        if isinstance(t,tuple) and t[0]=='c' and t[1].rsplit('::',1)[-1] in('end','cend') and len(t)==3 and isinstance(t[2],tuple) and t[2][0]=='f' and t[2][1]==THIS: return t[2][2]
        return None
    def canon(s,t):
        """('obj',key) for a stored element, ('lm',key) for a stored timestamp, ('ptr',key) for the pointer to a stored element"""
        if not isinstance(t,tuple): return t
        t=strip(t)
        return s.canon_(t)
    def canon_(s,t):
        if not isinstance(t,tuple) or not t: return t
        if t[0]=='c' and isinstance(t[1],str) and t[1].rsplit('::',1)[-1] in('make_unique','make_shared') and len(t)==3: return('new',s.canon_(t[2]))
        if t[0]=='c' and isinstance(t[1],str) and t[1].rsplit('::',1)[-1]=='get' and len(t)==3: return s.canon_(t[2])
        if t[0]=='f':
            if isinstance(t[1],tuple) and t[1][0]=='*':
                r=s.finds(t[1][1])
                if r:
                    f,k=r; k=s.canon_(k)
                    if t[2]=='first': return k
                    if f==s.lm: return('lm',k)
                    if s.kind=='dict': return('obj',k)
                    if f==s.map: return('ptr',k)
                    raw=('*',t)
                    if s.kind in('oo','om') and f==s.tr: return('ptr',('il',('f',('raw',f,k),'row'),k))
                    if s.kind=='oo' and f==s.fwd: return('ptr',('il',k,('f',('raw',f,k),'col')))
            b=s.canon_(t[1])
            if isinstance(b,tuple) and b[0]=='il' and t[2] in('first','second'): return b[1 if t[2]=='first' else 2]
            if isinstance(b,tuple) and b[0]=='obj' and isinstance(b[1],tuple):
                if s.kind=='dict':
                    if t[2]=='key': return b[1]
                elif b[1][0]=='il':
                    if t[2]=='row': return b[1][1]
                    if t[2]=='col': return b[1][2]
                elif t[2] in('row','col'): return ('f',b[1],'first' if t[2]=='row' else 'second')
            return('f',b,t[2])
        if t[0]=='*':
            x=s.canon_(t[1])
            if isinstance(x,tuple) and x[0]=='ptr': return('obj',x[1])
            if isinstance(x,tuple) and x[0]=='new': return x[1]
            return('*',x)
        if t[0]=='il' and len(t)==3:
            a,b=s.canon_(t[1]),s.canon_(t[2])
            if isinstance(a,tuple) and isinstance(b,tuple) and a[0]=='f' and b[0]=='f' and a[1]==b[1] and a[2]=='first' and b[2]=='second': return a[1]
            return('il',a,b)
        return tuple(s.canon_(x) if isinstance(x,tuple) else x for x in t)
    def presence(s,facts,res=lambda t:t):
        """{(field,key): bool} known of the state on entry"""
        p={}
        for f in facts:
            if f[0] in('==','!=') :
                a,b=strip(res(f[1])),strip(res(f[2]))
                for x,y in((a,b),(b,a)):
                    r=s.finds(x)
                    if r and s.ends(y)==r[0]: p[(r[0],s.canon_(r[1]))]=f[0]=='!='
            z=zerotest(tuple(res(y) if isinstance(y,tuple) else y for y in f),('count','contains'))
            if z:
                x=z[0]
                if len(x)==4 and isinstance(x[2],tuple) and x[2][0]=='f' and x[2][1]==THIS and x[2][2] in s.fields: p[(x[2][2],s.canon_(x[3]))]=not z[1]
        # an element found through an index is in the map; an element in the map has a timestamp
        for (f,k),v in list(p.items()):
            if not v: continue
            if s.kind in('oo','om') and f==s.tr: p[(s.map,('il',('f',('raw',f,k),'row'),k))]=True
            if s.kind=='oo' and f==s.fwd: p[(s.map,('il',k,('f',('raw',f,k),'col')))]=True
        for (f,k),v in list(p.items()):
            if v and f==s.map: p.setdefault((s.lm,k),True)
        for (f,k),v in list(p.items()):
            if not v and f==s.lm: p.setdefault((s.map,k),False)
        return p
    def cfacts(s,facts): return p
class Rec(Rule):
    """records, per path, the effects on the containers: ('set',field,keys,value) ('put',field,key,value) ('del',field,keys) ('patch',key,value) ('log',event,closure) ('?',text)"""
    cap=400; out_cap=400; keep_root_facts=True
    opaque=('current::CURRENT_ASSERTION','CURRENT_ASSERT','current::time')
    def __init__(s,con,fn): s.con=con; s.fn=fn; s.outs=[]; s.n=0; s.name='storage'
    def init(s): return ((),(),frozenset())
    def inline(s,eng,fn): return not(fn.lastq=='operator=' and fn.implicit) and fn.lastq!='PatchWith'
    def R(s,eng,st,rule,m): eng.report(s.fr0,s.fn.line,m,st,rule=rule)
    def place(s,eng,st,loc,refs):
        """(field,keys) of a container or of a slot"""
        c=s.con
        l=strip(loc)
        for r,f,ks in refs:
            if r==l: return f,ks
        if isinstance(l,tuple) and l[0]=='f' and l[1]==THIS and l[2] in c.fields: return l[2],()
        if isinstance(l,tuple) and l[0]=='f' and l[2]=='second' and isinstance(l[1],tuple) and l[1][0]=='*':
            it=full(eng,st,l[1][1]); r=c.finds(strip(it))
            if r: return r[0],(c.canon_(strip(r[1])),)
            it=strip(it)
            if isinstance(it,tuple) and it[0]=='c' and it[1].rsplit('::',1)[-1]=='find' and len(it)==4:
                p=s.place(eng,st,it[2],refs)
                if p: return p[0],p[1]+(c.canon(full(eng,st,it[3])),)
        return None
    def key(s,eng,st,a): return s.con.canon(full(eng,st,a))
    def on(s,eng,st,ev):
        c=s.con
        eff,refs,pres=st.rs
        if ev.k in('write','call') and ev.q!='': 
            p=frozenset(s.con.presence(st.facts,lambda t: full(eng,st,t) if isinstance(t,tuple) else t).items())
            tgt={(x[1],x[2]) for x in eff if x[0] in('set','put','del')}
            p=frozenset(x for x in p if (x[0][0],(x[0][1],)) not in tgt)
            if not p<=pres: pres=pres|p; st.rs=(eff,refs,pres); st._k=None
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='branch':
            for f in norm(strip(full(eng,st,ev.val)),ev.pol):
                z=zerotest(f,('empty',)); zs=zerotest(f,('size',))
                t,em=(z[0],not z[1]) if z else zs if zs else (None,None)
                if t is not None and len(t)==3:
                    p=s.place(eng,st,strip(t[2]),refs)
                    if p and p[1]: return (eff+(('chk',p[0],p[1],em),),refs,pres)
            return
        if ev.k=='called' and n in('operator[]','at') and ev.recv is not None and ev.args:
            p=s.place(eng,st,ev.recv,refs)
            if p and ev.val is not None:
                v=strip(ev.val)
                return (eff,tuple(r for r in refs if r[0]!=v)+((v,p[0],p[1]+(s.key(eng,st,ev.args[0]),)),),pres)
        if ev.k=='called' and n in('emplace','try_emplace','insert_or_assign','insert','emplace_hint','erase','clear','swap','extract','merge') and ev.recv is not None:
            p=s.place(eng,st,ev.recv,refs)
            if not p: return
            s.n+=1
            a=list(ev.args or ())
            if n=='erase' and len(a)==1:
                k=strip(full(eng,st,a[0])); r=c.finds(k)
                if r: e=('del',p[0],(c.canon_(r[1]),))
                elif isinstance(k,tuple) and k[0]=='c' and k[1].rsplit('::',1)[-1]=='find' and len(k)==4: e=('del',p[0],p[1]+(c.canon_(k[3]),))
                else: e=('del',p[0],p[1]+(c.canon_(k),))
                return (eff+(e,),refs,pres)
            if n in('insert_or_assign','emplace','try_emplace') and len(a)==2:
                k=s.key(eng,st,a[0]); v=c.canon(full(eng,st,a[1]))
                if n!='insert_or_assign' and c.presence(st.facts,lambda t: full(eng,st,t) if isinstance(t,tuple) else t).get((p[0],k)) is not False and not any(e[0]=='del' and e[1]==p[0] and e[2]==p[1]+(k,) for e in eff): e=('?',n)
                else: e=('set',p[0],p[1]+(k,),v)
                return (eff+(e,),refs,pres)
            return (eff+(('?','a call of '+n),),refs,pres)
        if ev.k=='write' or ev.k=='call' and n=='operator=' and ev.recv is not None and ev.args:
            l=strip(ev.loc if ev.k=='write' else ev.recv)
            v_=ev.val if ev.k=='write' else ev.args[0]
            p=s.place(eng,st,l,refs)
            if p and p[1]:
                s.n+=1
                return (eff+(('set',p[0],p[1],c.canon(full(eng,st,v_))),),refs,pres)
            if isinstance(l,tuple) and not is_loc_root_local(l):
                o=c.canon(full(eng,st,l))
                if isinstance(o,tuple) and o[0]=='obj': return (eff+(('put',c.map,(o[1],),c.canon(full(eng,st,v_))),),refs,pres)
                x=o
                while isinstance(x,tuple) and x and x[0] in('f','*'):
                    x=x[1]
                    if isinstance(x,tuple) and x and x[0]=='obj': return (eff+(('?','a write to a part of a stored element'),),refs,pres)
            if p and not p[1]: return (eff+(('?','an assignment of '+p[0]),),refs,pres)
        if ev.k=='call' and n=='PatchWith' and ev.recv is not None:
            p=s.place(eng,st,ev.recv,refs)
            o=c.canon(full(eng,st,ev.recv))
            k=p[1][0] if p and p[1] else o[1] if isinstance(o,tuple) and o[0]=='obj' else None
            if k is not None:
                s.n+=1
                return (eff+(('patch',k,c.canon(full(eng,st,ev.args[0]))),),refs,pres)
        if ev.k=='call' and ev.fn is not None and s.islog(ev.fn) and ev.recv is not None and c.journal in path_fields(ev.recv):
            s.n+=1
            a=ev.args
            d={}
            b=strip(a[0])
            src=a[0]
            v=deep(eng,st,src)
            for l in(src,v):
                for fld_ in('us','data','key','patch'):
                    x=eng.lookup(st,('f',l,fld_))
                    if x!=('f',l,fld_): d.setdefault(fld_,c.canon(full(eng,st,x)))
            clo=deep(eng,st,a[1])
            if isinstance(clo,tuple) and clo and clo[0]=='clo': clo=clo[:4]+(tuple((x[0],x[1],full(eng,st,x[2]) if x[1]!='r' else x[2])+tuple(x[3:]) for x in clo[4]),)+clo[5:]
            ty=ev.fn.params[0].get('ty') if ev.fn.params else None
            return (eff+(('log',s.evtype(ev.fn),tuple(sorted(d.items())),clo,ev.line),),refs,pres)
        # reading an element, or a timestamp, which is gone or was changed
        gone=[(e[1],e[2][0]) for e in eff if e[0] in('del','set','put') and e[1] in(c.map,c.lm)]+([(c.map,e[1]) for e in eff if e[0]=='patch'] if ev.k!='access' else [])
        if gone and (ev.k=='access' or ev.k=='lambda' or ev.k=='call' and ev.args):
            ts=[ev.loc] if ev.k=='access' else [x[2] for x in ev.clo[4]] if ev.k=='lambda' else list(ev.args)
            for t in ts:
                if t is None or ev.k=='access' and is_loc_root_local(t): continue
                x=c.canon(full(eng,st,t)) if ev.k!='access' else c.canon(t)
                while isinstance(x,tuple) and x and x[0] in('f','*') and ev.k=='access': x=x[1]
                if isinstance(x,tuple) and x and (x[0]=='obj' or x[0]=='lm' and ev.k=='access') and ({'obj':c.map,'lm':c.lm}[x[0]],x[1]) in gone:
                    eng.report(ev.fr,ev.line,'%s is used after it was changed or removed'%('an element' if x[0]=='obj' else 'the timestamp of an element'),st,rule='dangling')
    def islog(s,fn): return 'MutationJournal::' in fn.q and len(fn.params)==2
    def evtype(s,fn):
        for p in fn.params:
            t=s.con.F.types[p['ty']]['s'] if 'ty' in p else ''
            return t
    def end(s,eng,st,out):
        if out[0]!='ret': return
        pr=dict(st.rs[2])
        if not st.rs[0]: pr.update(s.con.presence(st.facts,lambda t: full(eng,st,t) if isinstance(t,tuple) else t))
        # an element has a timestamp: paths on which it does not are infeasible (P13 shows that this is kept)
        if any(v is True and pr.get((s.con.lm,k)) is False for (f,k),v in pr.items() if f==s.con.map): return
        w=World(s.con,pr)
        if any(v is False and nested(s.con,f) and w.init(f,(k,)) not in(None,'ABSENT') for (f,k),v in pr.items()): return
        s.outs.append((st,st.rs[0],pr))
def val(con,v):
    """the value, regardless of where it is kept"""
    if isinstance(v,tuple) and v and v[0] in('new','ptr'):
        return v[1] if v[0]=='new' else('obj',v[1])
    return v
def subst(t,m):
    if not isinstance(t,tuple): return t
    for a,b in m:
        if t==a: return b
    return tuple(subst(x,m) for x in t)
def containers(F):
    r=[]
    for q in KINDS:
        for x in F.recs.values():
            if x['q']==NS+q and x.get('fields'): r.append(Con(F,x))
    return r
def methods(F,con): return [f for f in F.fns.values() if f.rc==con.rec['id'] and not f.implicit and f.blocks]
def runfn(F,con,fn):
    r=Rec(con,fn); e=Engine(F,r); e.run(fn)
    return r,e
def runclo(F,con,fn,clo):
    r=Rec(con,fn); r.fr0=None; e=Engine(F,r); e.run_closure(clo)
    return r,e
def ptype(F,fn,i=0):
    t=F.types[fn.params[i]['ty']]['s'] if fn.params and i<len(fn.params) else ''
    return re.sub(r'^const |[ &]+$','',t)
def comp(K,i):
    """the row (1) or the column (2) of a key"""
    if isinstance(K,tuple) and K[0]=='il' and len(K)==3: return K[i]
    return('f',K,'first' if i==1 else 'second')
def mkkey(r,c):
    if isinstance(r,tuple) and isinstance(c,tuple) and r[0]=='f' and c[0]=='f' and r[1]==c[1] and r[2]=='first' and c[2]=='second': return r[1]
    return('il',r,c)
class World:
    """the state on entry, as far as it is known"""
    def __init__(s,con,pres):
        s.con=con; s.p=pres
        s.kp={k:v for (f,k),v in pres.items() if f==con.map}
    def init(s,f,ks):
        c=s.con
        def m(K):
            v=s.kp.get(K)
            if v is None and (s.p.get((c.fwd,comp(K,1))) is False or s.p.get((c.tr,comp(K,2))) is False): v=False
            return('obj',K) if v else 'ABSENT' if v is False else None
        if f==c.map: return m(ks[0])
        if f==c.lm:
            v=s.p.get((f,ks[0]))
            return('lm',ks[0]) if v else 'ABSENT' if v is False else None
        if f==c.fwd and len(ks)==2: return m(mkkey(ks[0],ks[1]))
        if f==c.tr and len(ks)==2: return m(mkkey(ks[1],ks[0]))
        i=1 if f==c.fwd else 2
        for K,v in s.kp.items():
            if v and comp(K,i)==ks[0]: return('obj',K)
        v=s.p.get((f,ks[0]))
        return 'ABSENT' if v is False else None
    def distinct(s,K1,K2):
        if s.kp.get(K1) is not None and s.kp.get(K2) is not None and s.kp[K1]!=s.kp[K2]: return True
        if s.con.kind=='dict': return False
        for M in(mkkey(comp(K1,1),comp(K2,2)),mkkey(comp(K2,1),comp(K1,2))):
            if s.kp.get(M) is False and(s.kp.get(K1) or s.kp.get(K2)): return True
        return False
    def cdistinct(s,a,b,i):
        """two rows (i=1) or columns"""
        for K1 in s.kp:
            for K2 in s.kp:
                if comp(K1,i)==a and comp(K2,i)==b and comp(K1,3-i)==comp(K2,3-i) and s.kp[K1]!=s.kp[K2]: return True
        return False
    def slots_distinct(s,f,a,b):
        c=s.con
        if f in(c.map,c.lm): return s.distinct(a[0],b[0])
        if len(a)==2 and len(b)==2:
            return s.distinct(mkkey(*(a if f==c.fwd else a[::-1])),mkkey(*(b if f==c.fwd else b[::-1])))
        return s.cdistinct(a[0],b[0],1 if f==c.fwd else 2)
def simplify(con,t):
    return con.canon_(t) if isinstance(t,tuple) else t
def apply(con,w,st,effs,rep):
    """st: {(field,keys): value|'ABSENT'}; w: World for what is not in st"""
    st=dict(st)
    def now(f,ks):
        v=st.get((f,ks))
        return v if v is not None else w.init(f,ks)
    for e in effs:
        if e[0]=='set': st[(e[1],e[2])]=e[3]
        elif e[0]=='put': st[(e[1],e[2])]=('new',e[3]) if con.kind!='dict' else e[3]
        elif e[0]=='del':
            if e[1] in(con.fwd,con.tr) and nested(con,e[1]) and len(e[2])==1: continue
            st[(e[1],e[2])]='ABSENT'
        elif e[0]=='patch': st[(con.map,(e[1],))]=('patched',val(con,now(con.map,(e[1],))),e[2])
        elif e[0]=='?': rep('the effect of %s on the container cannot be followed'%e[1])
    return st
def nested(con,f): return con.kind=='mm' or con.kind=='om' and f==con.fwd
def feasible(con,w,S,pres):
    """can a path which needs pres be taken in the state S?"""
    for (f,k),v in pres.items():
        x=S.get((f,(k,))); x=w.init(f,(k,)) if x is None else x
        if nested(con,f) and x is None or nested(con,f) and x=='ABSENT':
            # an outer slot is there when one of its inner slots is
            if any(g==f and len(ks)==2 and ks[0]==k and y!='ABSENT' for (g,ks),y in S.items()): x=True
        if x is not None and (x!='ABSENT')!=v: return False
    return True
def eventfields(con,log): return dict(log[2])
def replay(con,w,S,log,handlers,rep):
    """the state after the event of a log record is applied in state S; None when there is no handler"""
    ty=re.sub(r'^const |[ &]+$','',log[1]); h=handlers.get(ty)
    if h is None: return None
    fields=eventfields(con,log); res=[]
    pn=h[1]
    m=[(('f',pn,k),v) for k,v in fields.items()]
    for effs,pres in h[0]:
        if not feasible(con,w,S,{(f,simplify(con,subst(k,m))):v for (f,k),v in pres.items()}): continue
        e2=[tuple(simplify(con,subst(y,m)) if isinstance(y,tuple) and not(i==2 and e[0] in('set','put','del')) else tuple(simplify(con,subst(z,m)) for z in y) if isinstance(y,tuple) else y for i,y in enumerate(e)) for e in effs]
        res.append(apply(con,w,S,e2,rep))
    return res
class Analysis:
    def __init__(s,F,con):
        s.F=F; s.con=con; s.mut=[]; s.handlers={}; s.engines=[]; s.acc=[]
        for fn in methods(F,con):
            if fn.ctor or fn.dtor or fn.static: continue
            if fn.const: s.acc.append(fn); continue
            if fn.acc: continue
            r,e=runfn(F,con,fn); s.engines.append((fn,e,r))
            logs=any(x[0]=='log' for _,ef,_ in r.outs for x in ef)
            if fn.lastq=='operator()' and not logs and len(fn.params)==1:
                s.handlers[ptype(F,fn)]=([(ef,pr) for _,ef,pr in r.outs],('p',0,fn.params[0]['n']),fn,e,r)
            elif logs or any(x[0] not in('chk',) for _,ef,_ in r.outs for x in ef): s.mut.append((fn,e,r))
    def name(s,fn): return s.F.recfull(fn).split('::container::')[-1].split('<')[0]+'::'+fn.lastq
def fmtk(t): return fmt(t) if isinstance(t,tuple) else str(t)
