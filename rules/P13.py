"""The containers of the storage (storage/container/*.h): the indexes by row and by column, the map of the elements and the
timestamps agree after every mutation and after every replayed event. Each function which changes a container is interpreted
symbolically; provided that the maps agree before, on every path every slot of an index which concerns a touched element refers to
that very element, or is absent together with it, no row or column of the index is left empty, the uniqueness of the rows or
columns of one-to-many and one-to-one holds, and every touched element gets a timestamp. The const accessors look up the map
they are about under the key they are given."""
from storage import *
def slot(con,f,K):
    r,c=comp(K,1),comp(K,2)
    a,b=(r,c) if f==con.fwd else (c,r)
    return (f,(a,b)) if nested(con,f) else (f,(a,))
def ident(con,v):
    """which object a pointer or an owner refers to"""
    if isinstance(v,tuple) and v and v[0]=='ptr': return('obj',v[1])
    return v
def check(c,F,con):
    A=Analysis(F,con)
    L=[(fn,e,r,True) for fn,e,r in A.mut]+[(h[2],h[3],h[4],False) for h in A.handlers.values()]
    if len(A.handlers)<2: raise Broken('%s: the handlers of the events: %s'%(con.rec['q'],list(A.handlers)))
    for fn,e,r,live in L:
        for st,eff,pres in r.outs:
            def rep(m,rule='index'): r.R(e,st,rule,m)
            w=World(con,pres); S=apply(con,w,{},eff,rep)
            put={x[2][0] for x in eff if x[0]=='put'}
            for (f,ks),v in S.items():
                if f!=con.map: continue
                K=ks[0]
                if v!='ABSENT' and (con.lm,(K,)) not in S or S.get((con.lm,(K,)))=='ABSENT': rep('an element is changed and its timestamp is not')
                if v=='ABSENT' and (con.lm,(K,)) not in S: rep('an element is removed and its timestamp is not updated')
                if con.kind=='dict': continue
                for g in(con.fwd,con.tr):
                    sl=slot(con,g,K); x=S.get(sl)
                    i=1 if g==con.fwd else 2
                    if v!='ABSENT':
                        if K in put and x is None: continue
                        if isinstance(v,tuple) and v[0]=='patched': continue
                        if x is None or x=='ABSENT' or ident(con,x)!=ident(con,v): rep('%s does not refer to the element of %s'%(g,con.map))
                    else:
                        if x is None:
                            p=w.init(*sl)
                            if p is not None and p!='ABSENT' and ident(con,p)!=('obj',K): continue
                            if p!='ABSENT': rep('the element is removed from %s, and %s still refers to it'%(con.map,g))
                        elif x!='ABSENT' and not any(q[0]==con.map and y!='ABSENT' and ident(con,y)==ident(con,x) and comp(q[1][0],i)==ks_comp(con,sl,g) for q,y in S.items()):
                            rep('%s refers to something else than an element of %s'%(g,con.map))
            if con.kind!='dict':
                for (f,ks),v in S.items():
                    if f not in(con.fwd,con.tr) or v=='ABSENT' and len(ks)==1 and nested(con,f): continue
                    live_=[q[1][0] for q,y in S.items() if q[0]==con.map and y!='ABSENT' and slot(con,f,q[1][0])==(f,ks)]
                    dead=[q[1][0] for q,y in S.items() if q[0]==con.map and y=='ABSENT' and slot(con,f,q[1][0])==(f,ks)]
                    if v!='ABSENT' and not live_: rep('%s has a slot for an element which is not in %s'%(f,con.map))
                    if v=='ABSENT' and not dead: rep('a slot of %s is removed, and its element is not removed from %s'%(f,con.map))
                # uniqueness
                if live:
                    for (f,ks),v in S.items():
                        if f!=con.map or v=='ABSENT': continue
                        K=ks[0]
                        if w.init(f,ks) not in(None,'ABSENT'): continue
                        for g,i in((con.fwd,1),(con.tr,2)):
                            if nested(con,g): continue
                            p=w.init(*slot(con,g,K))
                            if p is None: rep('an element is added while another one may have the same %s'%('row' if i==1 else 'column'),'unique')
                            elif p!='ABSENT' and S.get((con.map,(p[1],)))!='ABSENT': rep('an element is added while another one has the same %s'%('row' if i==1 else 'column'),'unique')
                # no empty row or column
                for n,x in enumerate(eff):
                    if x[0]=='del' and x[1] in(con.fwd,con.tr) and nested(con,x[1]):
                        after=[y for y in eff[n+1:] if y[0]=='chk' and y[1]==x[1] and y[2]==x[2][:1]]
                        if len(x[2])==2:
                            if not after: rep('an element is removed from %s, and it is not checked whether the rest is empty'%x[1],'empty')
                            elif after[0][3] and not any(y[0]=='del' and y[1]==x[1] and y[2]==x[2][:1] for y in eff[n+1:]): rep('%s is left with an empty entry'%x[1],'empty')
                        else:
                            b=[y for y in eff[:n] if y[1]==x[1] and y[0] in('chk','set','del') and y[2][:1]==x[2]]
                            if not b or b[-1][0]!='chk' or not b[-1][3]: rep('a part of %s is removed which may have elements'%x[1],'empty')
        c.from_engine(e); c.obligation('index',A.name(fn)+' '+con.rec['full'][-60:],n=max(1,len(r.outs)))
    for fn in A.acc: accessor(c,F,con,A,fn)
def ks_comp(con,sl,g): return sl[1][0]
# ---- accessors
class Acc(Rec):
    """the value returned on each path, with the arguments of the constructors which make it"""
    def init(s): return ((),(),frozenset(),())
    def inline(s,eng,fn): return fn.rc==s.con.rec['id'] or 'sfinae' in fn.q and not fn.ctor
    def nv(s,t):
        if not isinstance(t,tuple): return t
        if len(t)==4 and t[0]=='v':
            for i,p in enumerate(s.fn.params):
                if p['n']==t[3]: return('p',i,p['n'])
        return tuple(s.nv(x) for x in t)
    def pr(s,eng,st): return frozenset(s.con.presence([s.nv(tuple(full(eng,st,x) if isinstance(x,tuple) else x for x in f)) for f in st.facts]).items())
    def on(s,eng,st,ev):
        eff,refs,pres,ct=st.rs
        p=s.pr(eng,st)|pres
        if ev.k=='call' and ev.recv is not None and ev.args is not None and (ev.q or '').rsplit('::',1)[-1]==(ev.q or '').rsplit('::',2)[-2]:
            ct=tuple(x for x in ct if x[0]!=ev.recv)+((ev.recv,('il' if (ev.q or '').startswith('std::pair::') and len(ev.args)==2 else 'made',)+tuple(s.nv(full(eng,st,a)) for a in ev.args)),)
        if ev.k=='ret' and isinstance(ev.val,tuple) and not any(x[0]==ev.val for x in ct): ct=ct+((ev.val,s.ex(s.nv(full(eng,st,ev.val)),dict(ct))),)
        if (p,ct)!=(pres,st.rs[3]): return (eff,refs,p,ct)
    def ex(s,t,ct,n=0):
        if not isinstance(t,tuple) or n>8: return t
        if t in ct and ct[t]!=t: return s.ex(ct[t],ct,n+1)
        return tuple(s.ex(x,ct,n+1) for x in t)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        ct=dict(st.rs[3])
        t=out[1]
        if isinstance(t,tuple): t=s.ex(t,ct) if t in ct else s.ex(s.nv(full(eng,st,t)),ct)
        s.outs.append((st,t,dict(st.rs[2]|s.pr(eng,st))))
def accessor(c,F,con,A,fn):
    n=fn.lastq; ps=[('p',i,p['n']) for i,p in enumerate(fn.params)]
    key=None
    if ps: key=ps[0] if len(ps)==1 else mkkey(ps[0],ps[1])
    what={'Has':('has',con.map),'operator[]':('obj',con.map),'Get':('obj',con.map),'LastModified':('lm',con.lm),'GetEntryFromRow':('slot',con.fwd),'GetEntryFromCol':('slot',con.tr),
          'DoesNotConflict':('free',None),'Empty':('mention',con.map),'Size':('mention',con.map),'begin':('mention',con.map),'end':('mention',con.map),'Rows':('mention',con.fwd),'Cols':('mention',con.tr),'Row':('sub',con.fwd),'Col':('sub',con.tr)}.get(n)
    if what is None: return
    r=Acc(con,fn); e=Engine(F,r); e.run(fn)
    k,f=what
    if not r.outs: raise Broken('%s: no path of %s'%(con.rec['q'],n))
    for st,t,p in r.outs:
        def rep(m): r.R(e,st,'accessor',m)
        t0=con.canon(t)
        if k=='mention':
            if not mentions_kind(t,lambda x: x==('f',THIS,f)) or any(mentions_kind(t,lambda x,g=g: x==('f',THIS,g)) for g in con.fields if g!=f): rep('%s is not about %s'%(n,f))
            want={'Empty':('empty',),'Size':('size',),'begin':('begin','cbegin'),'end':('end','cend')}.get(n)
            if want and not mentions_kind(t,lambda x: isinstance(x,tuple) and x and x[0]=='c' and isinstance(x[1],str) and x[1].rsplit('::',1)[-1] in want) and not(n in('Empty','Size') and mentions_kind(t,lambda x: isinstance(x,tuple) and x and x[0]=='c' and isinstance(x[1],str) and x[1].rsplit('::',1)[-1] in('size','empty'))): rep('%s does not return %s of %s'%(n,want[0],f))
            continue
        if k in('has','free'):
            b=None if not isinstance(t,tuple) else litv(t)
            ident_=[(con.map,key)] if k=='has' else [(g,comp(key,i)) for g,i in((con.fwd,1),(con.tr,2)) if not nested(con,g)]
            q=dict(p)
            if b is None:
                q2=dict(p); q2.update(con.presence(norm(t,True))); b=True
                tested=[x for x in ident_ if q2.get(x) is not None]
                neg=con.presence(norm(t,False))
                if not(norm(t,True)) : rep('%s returns something which is not a lookup'%n); continue
                q=q2
            if k=='has':
                if q.get((f,key))!=bool(b): rep('%s does not tell whether the key is in %s'%(n,f))
            elif b and not all(q.get(x) is False for x in ident_): rep('%s can be true while there is a conflict'%n)
            elif not b and not any(q.get(x) for x in ident_): rep('%s can be false without a conflict'%n)
            continue
        v=p.get((f,key)) if k!='slot' and k!='sub' else p.get((f,ps[0]))
        if v is None:
            rep('%s does not look the key up in %s'%(n,f)); continue
        want=('obj',key) if k=='obj' else ('lm',key) if k=='lm' else ('slot',f,ps[0])
        if k in('obj','lm'):
            has=mentions_kind(t0,lambda x: x==want or k=='obj' and (x==('ptr',key) or x==('&',want)))
            other=mentions_kind(t0,lambda x: isinstance(x,tuple) and x and x[0] in('obj','ptr','lm') and x!=want and x!=('ptr',key))
        else:
            it=lambda x: isinstance(x,tuple) and len(x)==4 and x[0]=='c' and con.finds(x)==(f,ps[0])
            has=mentions_kind(t,it); other=mentions_kind(t,lambda x: isinstance(x,tuple) and len(x)==4 and x[0]=='c' and con.finds(x) is not None and not it(x))
        if v and (not has or other): rep('%s does not return what %s has under the key'%(n,f))
        if not v and (has or other): rep('%s returns an element although there is none'%n)
        if not v and k in('obj','lm','slot') and not mentions_kind(t,lambda x: x==('null',)): rep('%s does not return an empty optional when there is no element'%n)
    c.from_engine(e); c.obligation('accessor',A.name(fn)+' '+con.rec['full'][-60:])
def run(c):
    F=lib.facts('w_storage.cc')
    P=lib.facts('w_storage.cc',('-DCURRENT_STORAGE_PATCH_SUPPORT',))
    for con in containers(F): check(c,F,con)
    for con in containers(P):
        if con.kind=='dict': check(c,P,con)
    c.floor('index',60); c.floor('accessor',60)
