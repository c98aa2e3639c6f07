"""Owned and borrowed objects (bricks/sync/owned_borrowed.h). The keys of the borrowers are treated as linear resources: a
key is fresh when registered, is held by exactly one borrower object, moves with it, and is erased exactly once; the maps
are touched under the mutex of the instance only; the last borrower notifies the destructor before it releases that mutex;
the destructor of the instance marks it as being destroyed, calls every callback with no lock held and returns only once no
borrower is left; the exclusive accessors hold the mutex."""
from rulelib import *
import lib
ASSUME=['a moved-from, null or destroyed borrower is not used','the callbacks do not throw']
N='current::sync::'
def fieldsof(F,recq,pred):
    for r in F.recs.values():
        if r['q']==recq and r.get('fields'): return [f['n'] for f in r['fields'] if pred(F.types[f['ty']]['s'])]
    raise Broken('record %s not found'%recq)
def one(F,recq,what,pred):
    x=fieldsof(F,recq,pred)
    if len(x)!=1: raise Broken('%s: no unique field: %s (%s)'%(recq,what,x))
    return x[0]
def key0(o): return ('x','the key of '+('this' if o==THIS else 'the argument'))
def inst0(o): return ('x','the instance of '+('this' if o==THIS else 'the argument'))
class Roles:
    def __init__(s,F):
        u=N+'impl::UniqueInstance'; w=N+'WeakBorrowed'
        s.map=one(F,u,'the borrowers',lambda t:'map<' in t)
        s.cnt=one(F,u,'the counter',lambda t:t in('unsigned long','size_t','std::size_t'))
        s.mtx=one(F,u,'the mutex',lambda t:t=='std::mutex')
        s.cv=one(F,u,'the condition variable',lambda t:'condition_variable' in t)
        s.des=one(F,u,'being destroyed',lambda t:'atomic' in t and 'bool' in t)
        s.p=one(F,w,'the instance',lambda t:t.rstrip().endswith('*') or 'instance_t' in t)
        s.key=one(F,w,'the key',lambda t:t in('unsigned long','size_t','std::size_t'))
def deep(eng,st,t,n=8):
    for _ in range(n):
        if not isinstance(t,tuple): return t
        if t[0]=='c' and isinstance(t[1],str) and t[1].startswith('ctor:') and len(t)==3: t=t[2]; continue
        v=eng.lookup(st,t) if t[0] in('v','t','f','*') else t
        if v is None or v==t: return t
        t=v
    return t
class Base(Rule):
    cap=200; out_cap=400
    opaque=('current::CURRENT_ASSERTION','CURRENT_ASSERT')
    def __init__(s,fn,ro,F): s.fn=fn; s.ro=ro; s.F=F; s.n=0; s.name='borrow'; s.fr0=None
    def stable(s,eng,loc): return isinstance(loc,tuple) and loc[0]=='f' and loc[2] in(s.ro.key,s.ro.p)
    def rep(s,eng,st,ev,rule,m): eng.report(ev.fr,ev.line,m,st,rule=rule)
    def R(s,eng,st,rule,m): eng.report(s.fr0,s.fn.line,m,st,rule=rule)
    def inst(s,loc,names):
        """the instance whose field (one of names) loc is, or is a part of"""
        x=loc
        while isinstance(x,tuple):
            if x[0]=='f' and x[2] in names: return x[1]
            if x[0] in('f','*','&'): x=x[1]
            elif x[0]=='c' and len(x)>2: x=x[2]
            else: return None
    def locked(s,eng,st,i):
        return any(m==('f',i,s.ro.mtx) or isinstance(m,tuple) and m[0]=='f' and m[2]==s.ro.mtx and deep(eng,st,m[1])==deep(eng,st,i) for m in st.held)
    def guard(s,eng,st,ev):
        for loc in [ev.loc,ev.recv]:
            if ev.k in('access','write','call') and loc is not None:
                if ev.k=='call' and ev.q and not ev.q.startswith('std::'): continue
                i=s.inst(loc,(s.ro.map,s.ro.cnt))
                if i is None or s.fn.ctor and i==THIS and 'UniqueInstance' in s.fn.q: continue
                x=loc
                s.n+=1
                if not s.locked(eng,st,i): s.rep(eng,st,ev,'locked','the borrowers of an instance are accessed without its mutex')
class Ledger(Base):
    # rs: (fresh keys ((key term,instance)), erased keys, callback-of-key updates, pending notify, flags)
    def init(s): return ((),(),(),None,frozenset())
    def rename_rs(s,rs,ren): return (tuple((ren(k),i) for k,i in rs[0]),tuple(ren(k) for k in rs[1]),tuple((ren(k),ren(v) if isinstance(v,tuple) else v) for k,v in rs[2]),rs[3],rs[4])
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        s.guard(eng,st,ev)
        fresh,era,cb,pend,fl=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        std=(ev.q or '').startswith('std::')
        if ev.k=='call' and std and ev.recv is not None and s.inst(ev.recv,(s.ro.map,)) is not None and ev.recv[0]=='f':
            i=s.inst(ev.recv,(s.ro.map,))
            if n in('operator[]','emplace','insert','try_emplace','insert_or_assign','emplace_hint'):
                k=deep(eng,st,ev.args[0]) if ev.args else None
                c=('f',i,s.ro.cnt)
                cur=eng.lookup(st,c)
                held=s.keyheld(eng,st,k)
                if not held:
                    if not(k==cur and isinstance(cur,tuple) and cur[0]=='b' and cur[1]=='+' and ('lit',1) in cur or k==cur and isinstance(cur,tuple) and cur[0]=='b' and cur[1]=='+'):
                        s.rep(eng,st,ev,'fresh-key','a borrower is registered under a key which is not known to be fresh and non-zero')
                    if (k,i) in fresh: s.rep(eng,st,ev,'fresh-key','two borrowers are registered under the same key')
                    return (fresh+((k,i),),era,cb+((k,deep(eng,st,ev.args[1]) if len(ev.args)>1 else None),),pend,fl|{('el',n)})
                return (fresh,era,cb+((k,deep(eng,st,ev.args[1]) if len(ev.args)>1 else None),),pend,fl)
            if n in('erase','extract'):
                a=deep(eng,st,ev.args[0]) if ev.args else None
                k=s.keyof(eng,st,a)
                if k in era: s.rep(eng,st,ev,'end-once','a borrower is unregistered twice')
                return (fresh,era+(k,),cb,i,fl)
            if n=='clear': s.rep(eng,st,ev,'end-once','the borrowers are dropped')
        if ev.k=='write' and n=='operator=' and cb and cb[-1][1] is None:
            return (fresh,era,cb[:-1]+((cb[-1][0],deep(eng,st,ev.val)),),pend,fl)
        if ev.k=='notify' and ev.loc is not None and s.inst(ev.loc,(s.ro.cv,)) is not None:
            i=s.inst(ev.loc,(s.ro.cv,))
            if not s.locked(eng,st,i): s.rep(eng,st,ev,'last-borrower','the destructor of the instance is notified after the mutex was released, when the instance may be destroyed already')
            return (fresh,era,cb,None,fl)
        if ev.k=='branch' and pend is not None:
            pol=ev.pol; v=ev.val
            while isinstance(v,tuple) and v[0]=='!': v=v[1]; pol=not pol
            v2=deep(eng,st,v)
            for v in (v,v2):
                if isinstance(v,tuple) and v[0]=='c' and v[1].endswith('::empty') and s.inst(v[2],(s.ro.map,)) is not None and not pol: return (fresh,era,cb,None,fl)
                if isinstance(v,tuple) and v[0]=='b' and 'size' in repr(v) and s.ro.map in repr(v):
                    z=v[1]=='==' and pol or v[1]=='!=' and not pol or v[1]=='>' and not pol
                    if not z: return (fresh,era,cb,None,fl)
        if ev.k=='unlock' and pend is not None and isinstance(ev.m,tuple) and ev.m[0]=='f' and ev.m[2]==s.ro.mtx:
            s.rep(eng,st,ev,'last-borrower','the mutex is released after a borrower was unregistered without the destructor having been notified, although it may be the last one')
            return (fresh,era,cb,None,fl)
        # use of the instance after the last borrower was unregistered
        return
    def keyof(s,eng,st,a):
        """the key an iterator (or key) passed to erase stands for"""
        x=a
        for _ in range(6):
            if not isinstance(x,tuple): return x
            if x[0]=='c' and x[1].rsplit('::',1)[-1] in('find','lower_bound') and len(x)>3: return deep(eng,st,x[3])
            if x[0]=='c' and len(x)==3: x=deep(eng,st,x[2]); continue
            return x
        return x
    def keyheld(s,eng,st,k):
        """the key is the one some borrower held at entry"""
        x=k
        while isinstance(x,tuple) and x[0]=='old': x=x[2]
        if isinstance(x,tuple) and x[0]=='f' and x[2]==s.ro.key or x in(key0(THIS),key0(None)): return True
        if isinstance(x,tuple) and x[0]=='p' and 'UniqueInstance' in s.fn.q: return True      # the key is given
        return False
    def objs(s):
        """the borrower objects the function deals with: (term, it held a key at entry)"""
        r=[]
        if 'UniqueInstance' not in s.fn.q : r.append((THIS,not s.fn.ctor))
        return r
    def end(s,eng,st,out):
        if out[0]!='ret': return
        fresh,era,cb,pend,fl=st.rs
        ro=s.ro; fn=s.fn
        cls=fn.q.rsplit('::',2)[-2]
        if 'Owned' in cls and not 'Borrowed' in cls: return s.owned(eng,st)
        if cls=='UniqueInstance' or not(fn.method or fn.ctor or fn.dtor): return
        keyof=lambda o: deep(eng,st,eng.lookup(st,('f',o,ro.key)))
        insto=lambda o: deep(eng,st,eng.lookup(st,('f',o,ro.p)))
        k=keyof(THIS)
        r=s.rhsterm(eng,st)
        def zero(t): return litv(t)==0 or truth_of(st.facts,t) is False
        def null(t): return t==('null',) or litv(t)==0 or truth_of(st.facts,t) is False or any(f[0]=='==' and {f[1],f[2]}=={t,('null',)} for f in st.facts)
        same=r is not None and any(op=='==' and b is not None and {a,b}=={('&',THIS),('&',r)} for op,a,b in st.facts)
        held=[] if fn.dtor else [(THIS,k)]
        inits=[] if fn.ctor else [(key0(THIS),inst0(THIS))]
        if r is not None and not same:
            inits.append((key0(r),inst0(r))); held.append((r,keyof(r)))
        s.n+=1
        for i,p in inits:
            if zero(i) or null(p): continue
            hs=[o for o,x in held if x==i]
            er=[x for x in era if x==i]
            if len(er)>1: s.R(eng,st,'end-once','a borrow is ended twice')
            elif er and hs: s.R(eng,st,'linear-key','a borrow which was ended is still held, and would be ended again')
            elif not er and len(hs)>1: s.R(eng,st,'linear-key','two objects hold the same borrow, which would be ended twice')
            elif not er and not hs: s.R(eng,st,'linear-key','a borrow is lost: its key is neither held by an object nor unregistered, so the owner would wait for it for ever')
        for key,i in fresh:
            hs=[o for o,x in held if x==key]
            if len(hs)!=1: s.R(eng,st,'linear-key','a borrower is registered but %s'%('its key is held by no object, so the owner would wait for it for ever' if not hs else 'two objects hold its key'))
        ks=[i for i,p in inits]
        for o,x in held:
            if zero(x): continue
            if x not in ks and not any(x==key for key,i in fresh): s.R(eng,st,'linear-key','an object holds a key which was not registered')
            p=insto(o)
            own=[pp for kk,pp in inits if kk==x]+[deep(eng,st,('&',i)) if i[0]!='*' else i[1] for key,i in fresh if key==x]
            if null(p) and not any(null(q) for q in own): s.R(eng,st,'linear-key','an object holds a key but no instance')
            elif own and p not in own: s.R(eng,st,'linear-key','an object holds a key of another instance')
        moved=fn.q.endswith('operator=') or fn.ctor
        if r is not None and not same and not null(inst0(r)) and moved and not fn.dtor:
            if any(x==key0(r) for o,x in held if o==THIS) and not null(insto(r)): s.R(eng,st,'moved-away','the object moved away from is still reported as valid')
            if null(insto(THIS)) or zero(k): s.R(eng,st,'linear-key','the object does not borrow the instance')
            elif insto(THIS)!=inst0(r): s.R(eng,st,'linear-key','the instance borrowed is not the one of the object it is borrowed from')
        if fn.q.endswith('operator=') and r is None and not zero(k): s.R(eng,st,'end-once','the borrow does not end')
        # the callback
        want=None
        if fn.ctor or fn.q.endswith('operator='):
            if cls=='BorrowedWithCallback' and fn.ctor: want='param'
            if cls=='BorrowedOfGuaranteedLifetime' and r is not None: want='fn'
            if want and not zero(k) and not same and not null(inst0(r)):
                v=cb[-1][1] if cb else None
                ok=want=='param' and v is not None and mentions_kind(v,lambda t: isinstance(t,tuple) and len(t)>1 and (t[0]=='p' and t[1]==len(fn.params)-1 or t[0]=='v' and len(t)>2 and t[2]==fn.params[-1].get('d'))) or want=='fn' and v is not None and 'InvariantErrorCallback' in repr(v)
                if not ok: s.R(eng,st,'callback','the borrower is not registered with its own callback')
    def rhsterm(s,eng,st):
        for i,p in enumerate(s.fn.params):
            t=s.F.tystr(p['ty'])
            if ('Borrowed' in t or 'Owned<' in t) and 'Construct' not in t: return ('p',i,p['n'])
        return None
    def owned(s,eng,st):
        ro=s.ro; fn=s.fn
        if fn.dtor: return
        p=deep(eng,st,eng.lookup(st,('f',THIS,ro.p)))
        s.n+=1
        if 'movable_instance_' not in repr(p) and '&' not in repr(p)[:6]: s.R(eng,st,'owner','the owner does not refer to the instance it owns')
        k=deep(eng,st,eng.lookup(st,('f',THIS,ro.key)))
        if fn.ctor and litv(k)!=0: s.R(eng,st,'owner','the owner counts as a borrower')
        r=s.rhsterm(eng,st)
        if r is not None:
            q=deep(eng,st,eng.lookup(st,('f',r,ro.p)))
            if q!=('null',) and litv(q)!=0: s.R(eng,st,'owner','the owner moved away from still refers to the instance')
class Dtor(Base):
    first={}
    def loopvar(s,eng,st,fr,h,L,v,sym):
        if v==sym or isinstance(v,tuple) and v[0]=='b' and sym in v: return
        s.first=dict(s.first); s.first[sym]=v if v==('lit',0) or s.first.get(sym,v)==v else ('no',)
    # rs: (marked, collected '?','deref','ok', call state, waited)
    def init(s): return (0,None,None,0)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        s.guard(eng,st,ev)
        m,c,k,w=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='write' and ev.loc==fld(s.ro.des): return (1 if litv(ev.val)==1 else 0,c,k,w)
        if ev.k=='call' and n in('begin','cbegin') and ev.recv==fld(s.ro.map):
            if not m: s.rep(eng,st,ev,'destruction','the borrowers are notified before the instance is marked as being destroyed')
            return (m,'need',k,w)
        if ev.k=='call' and n in('push_back','emplace_back','push','insert') and ev.recv is not None and ev.recv[0]=='v' and any('second' in path_fields(a) or 'second' in repr(deep(eng,st,a)) for a in ev.args or ()):
            return (m,'ok',k,w)
        if ev.k=='call' and n=='operator++' and c in('need','ok') and ('tree' in ev.q or 'map' in ev.q.lower()):
            if c=='need': s.rep(eng,st,ev,'destruction','the callback of a borrower is skipped')
            return (m,'need',k,w)
        if ev.k=='branch' and c in('need','ok') and isinstance(ev.val,tuple) and s.ro.map in repr(ev.val) and ev.pol is False and '!=' in repr(ev.val):
            return (m,'all',k,w)
        if ev.k=='call' and n in('begin','cbegin') and c=='all' and ev.recv is not None and ev.recv[0]=='v': return (m,c,'need',w)
        if ev.k=='call' and (ev.q or '').startswith('std::function') and n=='operator()':
            if st.held: s.rep(eng,st,ev,'destruction','a callback is called with a lock held')
            if w: s.rep(eng,st,ev,'destruction','a callback is called after waiting for the borrowers')
            return (m,c,'ok',w)
        if ev.k=='call' and n=='operator++' and k in('need','ok') and c=='all':
            if k=='need': s.rep(eng,st,ev,'destruction','a callback is not called')
            return (m,c,'need',w)
        if ev.k=='branch' and k in('need','ok') and c=='all' and ev.pol is False and '!=' in repr(ev.val) and s.ro.map not in repr(ev.val): return (m,c,'all',w)
        if ev.k=='branch' and c=='all' and k!='all' and isinstance(ev.val,tuple) and ev.val[0]=='b' and 'size' in repr(ev.val) and s.ro.map not in repr(ev.val) and any(isinstance(x,tuple) and x[0]=='lh' for x in ev.val[2:]):
            if k=='need': s.rep(eng,st,ev,'destruction','a callback is not called')
            lh=[x for x in ev.val[2:] if isinstance(x,tuple) and x[0]=='lh'][0]
            if s.first.get(lh,('lit',0))!=('lit',0): s.rep(eng,st,ev,'destruction','a callback is skipped')
            stay=(ev.val[1] in('<','!='))==bool(ev.pol)
            return (m,c,'need' if stay else 'all',w)
        if ev.k=='cvwait':
            if c!='all' or k!='all': s.rep(eng,st,ev,'destruction','waiting for the borrowers before their callbacks have been called')
            return (m,c,k,1)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        m,c,k,w=st.rs
        s.n+=1
        if c!='all' or k!='all': s.R(eng,st,'destruction','the callbacks of the borrowers are not all called')
        if not any(f[0]=='T' and isinstance(f[1],tuple) and f[1][0]=='c' and f[1][1].endswith('::empty') and f[1][2]==fld(s.ro.map) or f[0]=='==' and s.ro.map in repr(f) and 'size' in repr(f) and ('lit',0) in f for f in st.facts): s.R(eng,st,'destruction','the destructor may return while borrowers are left')
class Use(Base):
    def init(s): return 0
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        s.guard(eng,st,ev)
        if ev.k=='call' and (ev.q or '').startswith('std::function') and (ev.q or '').endswith('operator()') and ev.fr.depth==0:
            s.n+=1
            if not any(isinstance(m,tuple) and m[0]=='f' and m[2]==s.ro.mtx for m in st.held): s.rep(eng,st,ev,'exclusive','the object is used exclusively without the mutex of the instance')
            return 1
    def end(s,eng,st,out):
        if out[0]=='ret' and not st.rs: s.R(eng,st,'exclusive','the functor is not called')
class Valid(Base):
    def init(s): return 0
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
    def end(s,eng,st,out):
        if out[0]!='ret': return
        s.n+=1
        v=deep(eng,st,out[1])
        if litv(v)==0 or truth_of(st.facts,v) is False: return
        t=repr(v)
        nn=any(f[0] in('T','!=') and f[1]==fld(s.ro.p) for f in st.facts) or any(f[0]=='!=' and fld(s.ro.p) in f for f in st.facts)
        nd=any(f[0]=='F' and isinstance(f[1],tuple) and s.ro.des in repr(f[1]) for f in st.facts)
        pol=isinstance(v,tuple) and (v[0]=='!' and s.ro.des in t or v[0]=='b' and v[1] in('==','!=') and s.ro.des in t)
        pp=isinstance(v,tuple) and (v==fld(s.ro.p) or v[0]=='b' and v[1]=='!=' and fld(s.ro.p) in v[2:])
        if not (nn or pp): s.R(eng,st,'valid','an object which was moved away may be reported as valid')
        if not (nd or pol): s.R(eng,st,'valid','an object whose owner is being destroyed may be reported as valid')

def run(c):
    F=lib.facts('w_sync.cc')
    ro=Roles(F)
    fam=('impl::UniqueInstance::','WeakBorrowed::','Owned::','Borrowed::','BorrowedWithCallback::','BorrowedOfGuaranteedLifetime::')
    fs=[f for f in F.fns.values() if f.q.startswith(N) and f.q[len(N):].startswith(fam) and '(lambda)' not in f.q and not f.implicit]
    c.need(fs,'owned and borrowed objects')
    eng=Engine(F,Base(fs[0],ro,F))
    called=set()
    for f in fs: called|=eng.callees(f)
    for f in fs:
        n=f.q.rsplit('::',1)[-1]
        cls=f.q.rsplit('::',2)[-2]
        if n.startswith('~UniqueInstance'): r=Dtor(f,ro,F); rule='destruction'
        elif n=='ExclusiveUse': r=Use(f,ro,F); rule='exclusive'
        elif n in('IsValid',): r=Valid(f,ro,F); rule='valid'
        elif n in('operator*','operator->','operator-conv'): continue
        elif cls=='UniqueInstance' and f.ctor: continue
        elif cls=='WeakBorrowed' and f.id in called and not f.ctor and not f.dtor or cls=='UniqueInstance' and f.id in called: continue
        else: r=Ledger(f,ro,F); rule='ledger'
        e=Engine(F,r); st=e.new_state()
        for o in[THIS]+([r.rhsterm(e,st)] if isinstance(r,Ledger) else []):
            if o is None or cls=='UniqueInstance' or o==THIS and (f.ctor or cls=='Owned' or not isinstance(r,Ledger)): continue
            st.store[('f',o,ro.key)]=key0(o); st.store[('f',o,ro.p)]=inst0(o)
        e.run(f,st=st)
        c.from_engine(e); c.obligation(rule,F.recfull(f)[:120]+'::'+F.display(f))
    for k,n in(('destruction',1),('exclusive',4),('valid',1),('ledger',16)): c.floor(k,n)
