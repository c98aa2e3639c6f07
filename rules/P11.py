"""Waitable atomics and termination signals. The data of a waitable atomic, its reference counter and its destruction flag
are accessed under the mutex of the object only; whoever changes the data notifies every waiter after the change; a wait
returns true only if the predicate was seen to hold under the mutex; the clients of an intrusive waitable atomic are counted
exactly, are refused once it is being destroyed, and its destructor returns only once there is none; a termination signal
notifies after it was set, a wait for it re-checks its conditions, and a bulk notifier wakes every registered signal."""
from rulelib import *
import lib
from P10 import one,fieldsof,deep
ASSUME=['the functor passed to PotentiallyMutableUse changes the data only if it returns true','MarkAsUnmodified is called only if the data was not changed','the client objects obey the C++ object lifetime rules']
N='current::'
W=N+'WaitableAtomicImpl::'
class Roles:
    def __init__(s,F):
        b=W+'BasicImpl'; i=W+'IntrusiveImpl'
        s.data=one(F,b,'the data',lambda t:'mutex' not in t and 'condition_variable' not in t)
        s.mtx=one(F,b,'the mutex',lambda t:'mutex' in t)
        s.cv=one(F,b,'the condition variable',lambda t:'condition_variable' in t)
        s.cv2=one(F,i,'the condition variable',lambda t:'condition_variable' in t)
        s.cnt=one(F,i,'the reference counter',lambda t:t in('unsigned long','size_t','std::size_t'))
        s.des=one(F,i,'being destroyed',lambda t:'atomic' in t and 'bool' in t)
        s.dp=one(F,i,'the custom destructor',lambda t:t.endswith('*'))
        s.obj=one(F,N+'IntrusiveClient','the object',lambda t:t.endswith('*'))
        t=N+'WaitableTerminateSignal'
        s.stop=one(F,t,'the flag',lambda x:'bool' in x)
        s.tcv=one(F,t,'the condition variable',lambda x:'condition_variable' in x)
        t=N+'WaitableTerminateSignalBulkNotifier'
        s.bm=one(F,t,'the mutex',lambda x:'mutex' in x)
        s.bs=one(F,t,'the signals',lambda x:'set' in x or 'vector' in x or 'list' in x)
class Base(Rule):
    cap=200; out_cap=400
    keep_root_facts=True
    opaque=('current::CURRENT_ASSERTION','CURRENT_ASSERT')
    def __init__(s,fn,ro,F): s.fn=fn; s.ro=ro; s.F=F; s.n=0; s.name='atomic'
    def rep(s,eng,st,ev,rule,m): eng.report(ev.fr,ev.line,m,st,rule=rule)
    def R(s,eng,st,rule,m): eng.report(s.fr0,s.fn.line,m,st,rule=rule)
    def owner(s,loc,names):
        x=loc
        while isinstance(x,tuple):
            if x[0]=='f' and x[2] in names: return x[1]
            if x[0] in('f','*'): x=x[1]
            elif x[0]=='c' and len(x)>2: x=x[2]
            else: return None
    def holds(s,st,o,m): return ('f',o,m) in st.held
    def guard(s,eng,st,ev):
        if s.fn.ctor and 'Accessor' not in s.fn.q: return
        ops=[]
        if ev.k in('access','write'): ops=[ev.loc]
        elif ev.k=='call': ops=([] if (ev.q or '').startswith(N) else [ev.recv]+([] if s.forward(ev) else list(ev.args or ())))
        for loc in ops:
            o=s.owner(loc,(s.ro.data,))
            if o is None: continue
            s.n+=1
            if not s.holds(st,o,s.ro.mtx): s.rep(eng,st,ev,'locked','the data of a waitable atomic is accessed without its mutex')
        if ev.k in('access','write') and isinstance(ev.loc,tuple) and ev.loc[0]=='f' and ev.loc[2]==s.ro.cnt:
            s.n+=1
            if not s.holds(st,ev.loc[1],s.ro.mtx): s.rep(eng,st,ev,'locked','the clients of a waitable atomic are counted without its mutex')
        if ev.k=='write' and isinstance(ev.loc,tuple) and ev.loc[0]=='f' and ev.loc[2]==s.ro.des:
            s.n+=1
            if not s.holds(st,ev.loc[1],s.ro.mtx): s.rep(eng,st,ev,'locked','a waitable atomic is marked as being destroyed without its mutex: a waiter may miss it')
        for loc in ops:
            o=s.owner(loc,(s.ro.bs,))
            if o is not None and ev.k in('access','write','call') and not s.holds(st,o,s.ro.bm):
                s.n+=1; s.rep(eng,st,ev,'locked','the signals of a bulk notifier are accessed without its mutex')
    def forward(s,ev): return (ev.q or '').rsplit('::',1)[-1] in('move','forward','addressof','ref','cref')
class Change(Base):
    """data changed => everybody is notified after that. rs: (dirty objects, calls of functors with the data)"""
    def init(s): return ((),())
    def on(s,eng,st,ev):
        s.guard(eng,st,ev)
        d,f=st.rs
        if ev.k=='write':
            o=s.owner(ev.loc,(s.ro.data,))
            if o is not None and not(s.fn.ctor) and o not in d: return (d+(o,),f)
        if ev.k=='call' and not(ev.q or '').startswith(N) or ev.k=='called':
            n=(ev.q or '').rsplit('::',1)[-1]
            loc=ev.recv
            for i,a in enumerate([ev.recv]+list(ev.args or ())):
                o=s.owner(a,(s.ro.data,))
                if o is None: continue
                if i==0:
                    m=s.F.fns.get(ev.e.get('f')) if ev.e else None
                    if ev.e and ev.e.get('cm') or n in('operator*','operator->','size','empty','begin','end','find'): continue
                    if ev.e is None: continue
                pk=(ev.e or {}).get('pk',[])
                off=1 if ev.k=='call' and ev.e and len(pk)==len(ev.args or ()) else 0
                j=i-1
                if i>0 and not(0<=j<len(pk) and pk[j]==2): continue
                if n=='operator()': f=f+((o,ev.val),)
                if o not in d: d=d+(o,)
                return (d,f)
        if ev.k=='notify':
            o=s.owner(ev.loc,(s.ro.cv,))
            if o is not None:
                if not ev.all: s.rep(eng,st,ev,'notify-all','only one of the waiters is notified')
                return (tuple(x for x in d if x!=o),f)
    def end(s,eng,st,out):
        s.n+=1
        d,f=st.rs
        for o in d:
            if s.fn.q.endswith('::PotentiallyMutableUse') and s.unmodified(st,out): continue
            s.R(eng,st,'notify','the data may have been changed without the waiters being notified')
    def unmodified(s,st,out):
        # the functor returned false
        return out[0]=='ret' and any(v is not None and truth_of(st.facts,v) is False for o,v in st.rs[1])
class WaitR(Base):
    """rs: the result of the last evaluation of the predicate under the current critical section"""
    def init(s): return (None,0)
    def on(s,eng,st,ev):
        s.guard(eng,st,ev)
        if ev.k=='called' and (ev.q or '').endswith('operator()') and any(s.owner(a,(s.ro.data,)) is not None for a in ev.args or ()): return (ev.val,1)
        if ev.k=='call' and (ev.q or '').startswith('std::function') and any(s.owner(a,(s.ro.data,)) is not None for a in ev.args or ()): return ('seen',1)
        if (ev.k=='cvagain' or ev.k=='cvwait' and not ev.pred) and 'IntrusiveImpl' in s.fn.q:
            if not any(f[0]=='F' and f[1]==fld(s.ro.des) for f in st.facts): s.rep(eng,st,ev,'wait','a wait may go on although the object is being destroyed, and never end')
        if ev.k in('cvwait',): return (None,1)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        s.n+=1
        v=deep(eng,st,out[1]) if isinstance(out[1],tuple) else out[1]
        tv=truth_of(st.facts,v) if v is not None else None
        def pred(f): return isinstance(f,tuple) and f[0]=='c' and f[1].endswith('operator()') and s.ro.data in repr(f)
        def old(t):
            while isinstance(t,tuple) and t[0]=='old': t=t[2]
            return t
        held=any(f[0]=='T' and pred(f[1]) for f in st.facts) or pred(v)
        des=fld(s.ro.des)
        destr=any(f[0]=='T' and old(f[1])==des for f in st.facts)
        notdes=any(f[0]=='F' and old(f[1])==des for f in st.facts) or isinstance(v,tuple) and v[0]=='!' and old(v[1])==des
        intr='IntrusiveImpl' in s.fn.q
        timed=s.fn.q.endswith('WaitFor')
        if tv is not False and not(isinstance(v,tuple) and v[0]=='!' and destr):
            if not held and not(intr and isinstance(v,tuple) and v[0]=='!' and old(v[1])==des and s.either(st,pred,des)): s.R(eng,st,'wait','a wait may report success although the predicate was not seen to hold')
            if intr and not notdes: s.R(eng,st,'wait','a wait may report success although the object is being destroyed')
        if tv is not True and not timed:
            if not(intr and (destr or isinstance(v,tuple) and v[0]=='!' and old(v[1])==des)): s.R(eng,st,'wait','a wait may fail although the object is not being destroyed')
    def either(s,st,pred,des):
        return any(f[0]=='T' and (pred(f[1]) or f[1]==des) for f in st.facts)
class Count(Base):
    """the reference counter; rs: (net change, last write was a decrease which has not been notified, marked, notified)"""
    def init(s): return (0,None,0,0,0,0)
    def stable(s,eng,loc): return s.fn.ctor and path_root(loc)==THIS   # nobody else knows the object yet
    def on(s,eng,st,ev):
        s.guard(eng,st,ev)
        net,pend,mark,noti,cust,dec=st.rs
        ro=s.ro
        if ev.k in('write','init') and isinstance(ev.loc,tuple) and ev.loc[0]=='f' and ev.loc[2]==ro.cnt:
            v=ev.val
            if ev.k=='init':
                if litv(v) is None: s.rep(eng,st,ev,'count','the reference counter does not start from a known value')
                return (net+(litv(v) or 0),pend,mark,noti,cust,dec)
            if isinstance(v,tuple) and v[0]=='b' and v[1] in '+-' and litv(v[3])==1: d=1 if v[1]=='+' else -1
            elif litv(v) is not None and litv(eng.lookup(st,ev.loc)) is not None: d=litv(v)-litv(eng.lookup(st,ev.loc))
            else: s.rep(eng,st,ev,'count','the reference counter is changed by other than one'); return
            if d not in(1,-1): s.rep(eng,st,ev,'count','the reference counter is changed by other than one')
            return (net+d,ev.loc[1] if d<0 else pend,mark,noti,cust,dec)
        if ev.k=='write' and ev.loc==fld(ro.des): return (net,pend,1 if litv(ev.val)==1 else 0,0,cust,dec)
        if ev.k=='notify':
            o=s.owner(ev.loc,(ro.cv2,))
            if o is not None:
                if pend is not None and not s.holds(st,o,ro.mtx): s.rep(eng,st,ev,'last-client','the destructor is notified after the mutex was released, when the object may be destroyed already')
                return (net,None,mark,noti,cust,dec)
            if s.owner(ev.loc,(ro.cv,)) is not None: return (net,pend,mark,1 if ev.all else 0,cust,dec)
        if ev.k=='unlock' and pend is not None and isinstance(ev.m,tuple) and ev.m[0]=='f' and ev.m[2]==ro.mtx:
            s.rep(eng,st,ev,'last-client','a client leaves without the destructor being notified under the mutex')
            return (net,None,mark,noti,cust,dec)
        if ev.k=='call' and (ev.q or '').endswith('::WaitableAtomicDestructing'):
            if st.held: s.rep(eng,st,ev,'destructor','the custom destructor is called with a lock held')
            if not mark: s.rep(eng,st,ev,'destructor','the custom destructor is called before the object is marked as being destroyed')
            return (net,pend,mark,noti,cust+1,dec)
        if ev.k=='cvwait' and s.fn.dtor:
            if not mark: s.rep(eng,st,ev,'destructor','the destructor waits for the clients before the object is marked as being destroyed')
            if not noti: s.rep(eng,st,ev,'destructor','the destructor waits for the clients before the waiters are notified')
            if net!=-1: s.rep(eng,st,ev,'destructor','the destructor waits for the clients although the object still counts itself')
            if any(op=='!=' and {fld(ro.dp),('null',)}=={a,b} for op,a,b in st.facts) and not cust: s.rep(eng,st,ev,'destructor','the destructor waits for the clients before the custom destructor is called')
    def end(s,eng,st,out):
        if out[0]!='ret': return
        net,pend,mark,noti,cust,dec=st.rs
        ro=s.ro; fn=s.fn; n=fn.q.rsplit('::',1)[-1]
        s.n+=1
        des=fld(ro.des)
        def old(t):
            while isinstance(t,tuple) and t[0]=='old': t=t[2]
            return t
        isdes=lambda pol: any(f[0]==('T' if pol else 'F') and old(f[1])==des for f in st.facts)
        if fn.ctor:
            if net!=1: s.R(eng,st,'count','the object does not count itself exactly once')
        elif fn.dtor:
            z=any(f[0]=='==' and set(map(old,f[1:]))=={fld(ro.cnt),('lit',0)} or f[0]=='F' and f[1]==fld(ro.cnt) for f in st.facts) or any(f[0]=='<=' and old(f[1])==fld(ro.cnt) and f[2]==('lit',0) for f in st.facts)
            if not z: s.R(eng,st,'destructor','the destructor may return while clients are left')
            if not mark or not noti: s.R(eng,st,'destructor','the waiters are not told that the object is being destroyed')
            if net!=-1: s.R(eng,st,'count','the object does not stop counting itself exactly once')
            nn=any(op=='!=' and {fld(ro.dp),('null',)}=={a,b} or op=='T' and a==fld(ro.dp) for op,a,b in st.facts)
            if nn and cust!=1: s.R(eng,st,'destructor','the custom destructor is not called exactly once')
        elif n=='RefCounterTryIncrease':
            t=truth_of(st.facts,out[1])
            if t is None: s.R(eng,st,'count','the result of registering a client is not decided by the destruction flag')
            elif t and (net!=1 or not isdes(False)): s.R(eng,st,'count','a client is registered %s'%('without being counted exactly once' if net!=1 else 'although the object may be being destroyed'))
            elif not t and net!=0: s.R(eng,st,'count','a client which was refused is counted')
            elif not t and not isdes(True): s.R(eng,st,'count','a client is refused although the object is not being destroyed')
        elif n=='RefCounterDecrease':
            if net!=-1: s.R(eng,st,'count','a client which leaves is not discounted exactly once')
        elif n=='IsDestructing':
            if old(deep(eng,st,out[1]))!=des and truth_of(st.facts,out[1]) is None: s.R(eng,st,'count','whether the object is being destroyed is not reported')
class Client(Base):
    opaque=Base.opaque+(W,N+'IntrusiveClient::Interface')
    def init(s): return (0,0,None)
    def inline(s,eng,fn): return not fn.q.startswith(W)
    def on(s,eng,st,ev):
        i,d,v=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and n=='RefCounterTryIncrease': return (i+1,d,ev.val or ('x',))
        if ev.k=='called' and n=='RefCounterDecrease': return (i,d+1,ev.recv)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        i,d,v=st.rs
        fn=s.fn; ro=s.ro; o=fld(ro.obj)
        s.n+=1
        cur=deep(eng,st,eng.lookup(st,o))
        null=cur==('null',) or litv(cur)==0 or truth_of(st.facts,cur) is False or any(f[0]=='==' and {f[1],f[2]}=={cur,('null',)} for f in st.facts)
        if fn.ctor and fn.params and '&&' in s.F.tystr(fn.params[0]['ty']):
            r=deep(eng,st,eng.lookup(st,('f',('p',0,fn.params[0]['n']),ro.obj)))
            if i or d: s.R(eng,st,'client','moving a client changes the number of clients')
            if not(r==('null',) or litv(r)==0): s.R(eng,st,'client','a client which was moved away would leave once more')
            if cur!=('f',('p',0,fn.params[0]['n']),ro.obj) and 'rhs' not in repr(cur) and fn.params[0]['n'] not in repr(cur): s.R(eng,st,'client','moving a client loses it')
        elif fn.ctor:
            yes=v is not None and truth_of(st.facts,v) is True; no=v is not None and truth_of(st.facts,v) is False
            if d: s.R(eng,st,'client','a new client leaves')
            if i>1: s.R(eng,st,'client','a client is registered twice')
            if yes and null or not null and not yes: s.R(eng,st,'client','a client %s'%('which was registered would never leave' if yes else 'which was refused or not registered would leave'))
        elif fn.dtor:
            nul0=any(f[0]=='==' and {f[1],f[2]}=={o,('null',)} or f[0]=='F' and f[1]==o for f in st.facts)
            if not nul0 and d!=1: s.R(eng,st,'client','a client does not leave exactly once')
            if nul0 and d: s.R(eng,st,'client','a null client leaves')
        elif fn.q.endswith('operator-conv'):
            if not(litv(out[1])==0 or isinstance(out[1],tuple) and (out[1][0]=='!' and 'IsDestructing' in repr(out[1]) or any(f[0]=='F' and 'IsDestructing' in repr(f[1]) for f in st.facts))): s.R(eng,st,'client','a client of an object being destroyed may be reported as valid')
class Signal(Base):
    """set, then notify everybody"""
    def init(s): return (0,0)
    def on(s,eng,st,ev):
        a,b=st.rs
        if ev.k=='write' and ev.loc==fld(s.ro.stop): return (1 if litv(ev.val)==1 else 0,0)
        if ev.k=='notify' and ev.loc==fld(s.ro.tcv):
            if not ev.all: s.rep(eng,st,ev,'notify-all','only one of the waiters is notified')
            return (a,1)
    def end(s,eng,st,out):
        s.n+=1
        a,b=st.rs
        if s.fn.q.endswith('SignalExternalTermination') and not a: s.R(eng,st,'signal','the termination flag is not set')
        if not b: s.R(eng,st,'signal','the waiters are not notified after the event')
class Until(Base):
    def init(s): return ()
    def on(s,eng,st,ev):
        if ev.k=='cvwait' and not(ev.timed or ev.how in('wait_for','wait_until') or 'wait_' in (ev.q or '')):
            s.rep(eng,st,ev,'bounded-wait','a wait without a time limit may miss a termination which is signalled outside the mutex')
    def end(s,eng,st,out):
        if out[0]!='ret': return
        s.n+=1
        def old(t):
            while isinstance(t,tuple) and t[0]=='old': t=t[2]
            return t
        stop=fld(s.ro.stop)
        ok=any(f[0]=='T' and (old(f[1])==stop or path_root(old(f[1]))!=THIS) for f in st.facts)   # the termination, or something which only the condition reads
        if not ok: s.R(eng,st,'until','a wait may end although neither its condition holds nor a termination was signalled')
        v=deep(eng,st,out[1]) if isinstance(out[1],tuple) else out[1]
        if old(v)!=stop and truth_of(st.facts,v) is None: s.R(eng,st,'until','the wait does not report whether a termination was signalled')
        if truth_of(st.facts,v) is True and not any(f[0]=='T' and old(f[1])==stop for f in st.facts): s.R(eng,st,'until','a termination is reported which was not signalled')
class Bulk(Base):
    """rs: (loop phase, insertions, erasures)"""
    def init(s): return (None,(),())
    def on(s,eng,st,ev):
        s.guard(eng,st,ev)
        lo,i,e=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='call' and s.owner(ev.recv,(s.ro.bs,)) is not None and ev.recv[0]=='f':
            if not s.holds(st,s.owner(ev.recv,(s.ro.bs,)),s.ro.bm): s.rep(eng,st,ev,'locked','the signals of a bulk notifier are accessed without its mutex')
            if n in('begin','cbegin'): return ('need',i,e)
            a=deep(eng,st,ev.args[0]) if ev.args else None
            if n in('insert','emplace'): return (lo,i+((s.owner(ev.recv,(s.ro.bs,)),a),),e)
            if n=='erase': return (lo,i,e+((s.owner(ev.recv,(s.ro.bs,)),a),))
        if ev.k=='notify' and lo=='need' and s.ro.tcv in path_fields(ev.loc): return ('ok',i,e)
        if ev.k=='call' and n=='operator++' and lo in('need','ok'):
            if lo=='need': s.rep(eng,st,ev,'bulk','a registered signal is not notified')
            return ('need',i,e)
        if ev.k=='branch' and lo in('need','ok') and isinstance(ev.val,tuple) and s.ro.bs in repr(ev.val):
            stay=('!=' in repr(ev.val))==bool(ev.pol)
            if stay: return ('need',i,e)
            return ('all',i,e)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        s.n+=1
        lo,i,e=st.rs
        n=s.fn.q.rsplit('::',1)[-1]
        if n=='NotifyAllOfExternalWaitableEvent' and lo!='all': s.R(eng,st,'bulk','not every registered signal is notified')
        if n in('RegisterPendingNotifier','UnRegisterPendingNotifier'):
            w=i if n[0]=='R' else e
            if len(w)!=1 or w[0][1]!=('&',('p',0,s.fn.params[0]['n'])): s.R(eng,st,'bulk','the signal is not %s'%('registered' if n[0]=='R' else 'unregistered'))
        if n=='Scope':
            if len(i)!=1: s.R(eng,st,'bulk','the scope does not register its signal')
            else:
                o,a=i[0]
                fs=[deep(eng,st,eng.lookup(st,k)) for k in list(st.store) if k[0]=='f' and k[1]==THIS]
                if ('&',o) not in fs or a not in fs: s.R(eng,st,'bulk','the scope will not unregister the signal it has registered')
        if n=='~Scope':
            if len(e)!=1: s.R(eng,st,'bulk','the scope does not unregister its signal')

def run(c):
    F=lib.facts('w_sync.cc')
    ro=Roles(F)
    fs=[f for f in F.fns.values() if not f.implicit and '(lambda)' not in f.q and (f.q.startswith((W,N+'IntrusiveClient::',N+'WaitableTerminateSignal')))]
    c.need(fs,'waitable atomics and termination signals')
    for f in fs:
        n=f.q.rsplit('::',1)[-1]
        if f.q.startswith(N+'IntrusiveClient::Interface'): continue
        if f.q.startswith(N+'IntrusiveClient::'): r=Client(f,ro,F); k='client'
        elif f.q.startswith(N+'WaitableTerminateSignalBulkNotifier'): r=Bulk(f,ro,F); k='bulk'
        elif f.q.startswith(N+'WaitableTerminateSignal::'):
            if n=='WaitUntil': r=Until(f,ro,F); k='until'
            elif n in('SignalExternalTermination','NotifyOfExternalWaitableEvent'): r=Signal(f,ro,F); k='signal'
            else: continue
        elif n in('Wait','WaitFor'): r=WaitR(f,ro,F); k='wait'
        elif 'IntrusiveImpl::' in f.q and (f.ctor or f.dtor or n in('RefCounterTryIncrease','RefCounterDecrease','IsDestructing')): r=Count(f,ro,F); k='count'
        elif f.q.startswith(W+'BasicImpl::') and 'Accessor' not in f.q.replace('MutableScopedAccessor','').replace('ImmutableScopedAccessor','') and not f.ctor and not f.dtor and n not in('MutableScopedAccessor','ImmutableScopedAccessor'):
            r=Change(f,ro,F); k='change'
        else: continue
        e=Engine(F,r); e.run(f)
        c.from_engine(e); c.obligation(k,F.recfull(f)[:120]+'::'+F.display(f))
    for k,n in(('client',4),('bulk',5),('until',1),('signal',2),('wait',3),('count',6),('change',12)): c.floor(k,n)
