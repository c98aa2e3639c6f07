"""Subscriber threads (stream/stream.h), decided by an interprocedural dataflow over every path of the thread function of
every kind of subscription (checked, unchecked, to a case of a variant; memory and file): a range of entries is requested
only from the position of the subscriber up to the number of entries of a snapshot of the persister, every entry of it is
delivered exactly once with its own index, the position moves exactly to the end of the range, nothing is delivered after
a reply of Done or an accepted termination, the termination request is sent once, and only if signalled; a head update is
delivered only past the previous head; the thread waits only if there is nothing new, under the publishing mutex; the
thread is signalled and joined before its data dies; publishers notify the subscribers."""
from rulelib import *
class Quiet(Rule): pass
import lib
ASSUME=['the ranges returned by the persister contain exactly the requested entries (P03)','the subscriber does not call back into its own subscription scope']
OPQ=('current::ss::EntryPersister','current::WaitableTerm','current::ss::EntrySubscriber','current::persistence','current::Optional','current::Exists','current::Value')
Q='current::stream::Stream::SubscriberThreadInstance'

def elem(eng,st,x):
    """x is (a part of) the element the iterator is at"""
    return any(mentions_kind(y,lambda t: isinstance(t,tuple) and t and 'operator*' in repr(eng.lookup(st,t) if t[0] in('v','t') else t[:2])) for y in(x,eng.lookup(st,x)))
def known1(facts,t): return all(holds(facts,f) is True for f in norm(t,True))
def known(st,t):
    return all(holds(st.facts,f) is True for f in norm(t,True))
class Sub(Rule):
    opaque=OPQ
    cap=24
    volatile=('current::ss::EntryPersister','current::WaitableTerminateSignal')
    def __init__(s,fn,begin): s.fn=fn; s.begin=begin; s.n={'range':0,'entry':0,'head':0,'term':0,'wait':0}; s.snaps=set(); s.alias={}; s.ex={}; s.waits=[]; s.name='subscriber'
    # rs: (posvars frozenset|None, rng=(a,b,itloc)|None, ndeliv, resp, tresp, armed, snap)
    def init(s): return (None,None,0,None,None,False,None,frozenset())
    def rename_rs(s,rs,ren):
        f=lambda t: ren(t) if isinstance(t,tuple) else t
        return (rs[0],tuple(f(x) for x in rs[1]) if rs[1] else None,rs[2],f(rs[3]),f(rs[4]),rs[5],f(rs[6]),rs[7])
    def viol(s,eng,st,ev,rule,msg): eng.report(ev.fr,ev.line,msg,st,rule=rule)
    def alive(s,eng,st,ev,what):
        """nothing is delivered after Done or an accepted termination"""
        pv,rng,nd,resp,tresp,armed,snap,iv=st.rs
        if resp is not None: s.viol(eng,st,ev,'stop-at-done','%s although the previous reply of the subscriber is not known to differ from Done'%what)
        if tresp is not None: s.viol(eng,st,ev,'stop-at-done','%s although the reply to the termination request is not known to be Wait'%what)
    def persister(s,ev): return ev.k in('call','called') and ('EntryPersister' in (ev.q or '') or 'ersister' in (ev.cls or ''))
    def size_of(s,eng,st,b):
        """b is the number of entries at some snapshot of the persister"""
        if litv(b)==0: return True
        if isinstance(b,tuple) and b[0]=='c' and b[1].endswith('::Size'): return True
        if isinstance(b,tuple) and b[0]=='b' and b[1]=='+' and ('lit',1) in b[2:]:
            x=[y for y in b[2:] if y!=('lit',1)]
            return len(x)==1 and isinstance(x[0],tuple) and x[0][0]=='f' and x[0][2]=='index' and ('LastPublished' in repr(x[0]) or x[0][1] in s.snaps)
        return False
    def locals_with(s,st,v): return frozenset(L for L,x in st.store.items() if isinstance(L,tuple) and L[0]=='v' and x==v)
    def settle(s,st):
        rs=st.rs; resp,tresp=rs[3],rs[4]
        def two(t,one,zero):
            is0=holds(st.facts,('==',)+srt(t,('lit',0))) is True or holds(st.facts,('!=',)+srt(t,('lit',1))) is True
            is1=holds(st.facts,('==',)+srt(t,('lit',1))) is True or holds(st.facts,('!=',)+srt(t,('lit',0))) is True
            return zero if is0 else one if is1 else t
        if isinstance(resp,tuple): resp=two(resp,None,'Done')
        if isinstance(tresp,tuple): tresp=two(tresp,'Terminate',None)
        if resp!=rs[3] or tresp!=rs[4]: return rs[:3]+(resp,tresp)+rs[5:]
        return rs
    def on(s,eng,st,ev):
        rs=s.settle(st)
        if rs is not st.rs: st.rs=rs; st._k=None
        return s.on2(eng,st,ev) or st.rs
    def on2(s,eng,st,ev):
        pv,rng,nd,resp,tresp,armed,snap,iv=st.rs
        k=ev.k
        if ev.fr.depth==0: s.fr0=ev.fr
        if k=='loophead':
            if ev.fr.depth==0 and ev.fr.fn is s.fn:
                allfacts=st.facts
                st.facts=frozenset(f for f in st.facts if not any(mentions_kind(x,lambda t: t[0] in('old','r') if isinstance(t,tuple) and t else False) for x in f[1:] if x is not None)); st._k=None
                cur=lambda L: eng.lookup(st,L)
                if pv is None:
                    pv=frozenset(L for L,x in st.store.items() if isinstance(L,tuple) and L[0]=='v' and (x==s.begin or isinstance(x,tuple) and x[0]=='f' and x[1]==THIS))
                    return (pv,None,0,resp,tresp,armed,None,iv)
                if rng is not None and len(rng)==3:
                    s.viol(eng,st,ev,'whole-range','the thread goes on without having passed all the entries of the range')
                if rng is not None:
                    np=frozenset(L for L in pv if cur(L)==rng[1])
                    if not np: s.viol(eng,st,ev,'position','after a range of entries the position of the subscriber is not set to the end of that range')
                else:
                    np=frozenset(L for L in pv if isinstance(cur(L),tuple) and (cur(L)[0]=='lh' or cur(L)==s.begin or cur(L)[0]=='f' and cur(L)[1]==THIS))
                    if not np: s.viol(eng,st,ev,'position','the position of the subscriber is changed although no entries were passed to it')
                    if snap==('lit',1) and any(isinstance(L,tuple) and L[0]=='v' and isinstance(x,tuple) and x[0]=='f' and x[2]=='head' and 'HeadAndLast' in repr(x) and L[1]==ev.fr.id for L,x in st.store.items()):
                        pos=[cur(L) for L in pv]
                        if not any(known1(allfacts,('b','<=',S,P)) for S in set(st.store.values()) if s.size_of(eng,st,S) for P in pos): s.viol(eng,st,ev,'unseen','the head of the subscriber moves on to the one of a snapshot whose entries were not passed, without these being known to precede its position')
                hv=[x for L,x in st.store.items() if isinstance(L,tuple) and L[0]=='v' and L[1]==ev.fr.id and isinstance(x,tuple) and x[0]=='f' and x[2]=='head' and 'HeadAndLast' in repr(x)]
                if hv and ('H','H') not in (iv or ()):
                    if not any(op=='<=' and a in hv for op,a,b in allfacts) and not any(known1(allfacts,('b','<',S,P)) for S in set(st.store.values())|{('lit',0)} if S==('lit',0) or s.size_of(eng,st,S) for P in {cur(L) for L in pv}|{s.begin}):
                        s.viol(eng,st,ev,'head-passed','the head of the subscriber moves on to that of a snapshot which was not passed to it, without the position it begins at being known to be past the end')
                return (np,None,0,resp,tresp,armed,None,frozenset())
            if rng is not None and len(rng)==3:
                # index counters of the unchecked mode
                if iv is not None:
                    L2=set()
                    for L,sym in iv:
                        v=eng.lookup(st,L)
                        if nd==0 and v==sym or v in(('b','+',sym,('lit',1)),('b','+',('lit',1),sym)) : L2.add((L,('lh',ev.fr.id,ev.block,L[2])))
                    iv=frozenset(L2)
                return (pv,rng,nd,resp,tresp,armed,snap,iv)
            return
        if k=='called' and ev.q in('current::Value','current::Optional::operator->') and any('LastPublished' in repr(eng.lookup(st,x))+repr(x) for x in list(ev.args or ())+[ev.recv]):
            s.snaps.add(ev.val); return
        if k=='called' and ev.q in('current::Value','current::Exists') and ev.args:
            (s.alias if ev.q.endswith('Value') else s.ex)[ev.val]=ev.args[0]; return
        if k=='call' and s.persister(ev) and ev.q.rsplit('::',1)[-1] in('Iterate','IterateUnsafe'):
            s.n['range']+=1
            s.alive(eng,st,ev,'entries are requested')
            a,b=[eng.lookup(st,x) if isinstance(x,tuple) and x[0] in('v','f') else x for x in (ev.args or [None,None])[:2]] if len(ev.args or ())>=2 else (None,None)
            if a is None or b is None: s.viol(eng,st,ev,'position','the range requested is not bounded'); return
            if pv is not None and not any(a[0]=='lh' and len(a)==4 and a[3]==L[2] or a==s.begin or a[0]=='f' and a[1]==THIS and eng.lookup(st,L)==a for L in pv if isinstance(a,tuple)): s.viol(eng,st,ev,'position','the entries requested do not start at the position of the subscriber')
            if pv is None: s.viol(eng,st,ev,'position','entries are requested outside of the loop over the new entries')
            if not s.size_of(eng,st,b): s.viol(eng,st,ev,'range-end','the end of the range requested is not the number of entries of a snapshot of the persister')
            if litv(b)!=0 and not known(st,('b','<',a,b)): s.viol(eng,st,ev,'range-end','entries are requested without the position being known to precede the end')
            return (pv,(a,b,('none',)),0,resp,tresp,armed,snap,frozenset((L,a) for L in s.locals_with(st,a)))
        if rng is not None and len(rng)==3 and ev.q and ev.q.rsplit('::',1)[-1] in('operator++','operator*','operator!=','operator==','begin','end') and ('ersist' in ev.q):
            n=ev.q.rsplit('::',1)[-1]
            if k=='called' and n=='operator*':
                return (pv,rng,0,resp,tresp,armed,snap,iv)
            if k=='call' and n=='operator++':
                s.alive(eng,st,ev,'the iteration goes on')
                if nd==0: s.viol(eng,st,ev,'each-entry-once','an entry of the range is skipped')
                if nd==8 and not any(op=='<' and 'idx_ts' in repr(a) and 'LastPublished' in repr(b) for op,a,b in st.facts): s.viol(eng,st,ev,'each-entry-once','an entry of another type is skipped without the subscriber being asked whether to go on, although it may be the last one')
                return (pv,rng,9,resp,tresp,armed,snap,iv)
            return
        if k=='branch' and (rng is None or len(rng)!=3) and pv is not None:
            # why the head of the snapshot need not be passed: it has not moved, or the entries before it are not to be passed either
            v=eng.lookup(st,ev.val) if isinstance(ev.val,tuple) and ev.val[0]=='v' else ev.val; pol=ev.pol
            while isinstance(v,tuple) and v[0]=='!': v=v[1]; pol=not pol
            if isinstance(v,tuple) and len(v)==4 and v[0]=='b' and v[1] in('<','>','<=','>='):
                op,x,y=v[1:]
                if op in('>','>='): op,x,y={'>':'<','>=':'<='}[op],y,x
                if not pol: op,x,y={'<':'<=','<=':'<'}[op],y,x
                x=eng.lookup(st,x) if isinstance(x,tuple) else x; y2=eng.lookup(st,y) if isinstance(y,tuple) else y
                hd=isinstance(x,tuple) and x[0]=='f' and x[2]=='head' and 'HeadAndLast' in repr(x)
                sz=op=='<' and (s.size_of(eng,st,x) or x==('lit',0)) and (y==s.begin or y2==s.begin or y in pv)
                if hd or sz:
                    st.rs=(pv,rng,nd,resp,tresp,armed,snap,(iv or frozenset())|{('H','H')}); iv=st.rs[7]; st._k=None
        if k=='branch' and rng is None:
            v=ev.val; pol=ev.pol
            while isinstance(v,tuple) and v[0]=='!': v=v[1]; pol=not pol
            if v in s.ex and 'LastPublished' in repr(eng.lookup(st,s.ex[v])): return (pv,rng,nd,resp,tresp,armed,('lit',int(pol)),iv)
            return
        if k=='branch' and rng is not None and len(rng)==3:
            v=ev.val; pol=ev.pol
            while isinstance(v,tuple) and v[0]=='!': v=v[1]; pol=not pol
            if v in s.ex and not pol and nd==0 and elem(eng,st,s.ex[v]): return (pv,rng,8,resp,tresp,armed,snap,iv)
            if isinstance(v,tuple) and v[0]=='c' and v[1].endswith('::operator!=') and not pol or isinstance(v,tuple) and v[0]=='c' and v[1].endswith('::operator==') and pol:
                if '__end' in repr(v) or 'end' in repr(v): return (pv,(rng[0],rng[1]),0,resp,tresp,armed,snap,iv)
            return
        if k=='called' and 'EntrySubscriber' in (ev.q or '')+(ev.cls or ''):
            n=ev.q.rsplit('::',1)[-1]
            if n=='operator()' or n=='EntryResponseIfNoMorePassTypeFilter': return (pv,rng,nd,ev.val,tresp,armed,snap,iv)
            if n=='Terminate': return (pv,rng,nd,resp,ev.val,armed,snap,iv)
            return
        if k=='call' and 'EntrySubscriber' in (ev.q or '')+(ev.cls or '') and not ev.ctor:
            n=ev.q.rsplit('::',1)[-1]
            if n=='Terminate':
                s.n['term']+=1
                s.alive(eng,st,ev,'the subscriber is asked to terminate')
                if not armed: s.viol(eng,st,ev,'terminate-once','the subscriber is asked to terminate without this being remembered first, having not been asked before')
                if not any(op=='T' and isinstance(a,tuple) and 'erminate' in repr(a) and ('operator' in repr(a) or 'Terminat' in repr(a)) for op,a,b in st.facts): s.viol(eng,st,ev,'terminate-once','the subscriber is asked to terminate without a termination having been signalled')
                return (pv,rng,nd,resp,tresp,False,snap,iv)
            if n=='EntryResponseIfNoMorePassTypeFilter':
                s.alive(eng,st,ev,'the subscriber is asked for its reply')
                if nd not in(0,8): s.viol(eng,st,ev,'each-entry-once','the subscriber is asked for a reply for an entry it was passed')
                return (pv,rng,1,resp,tresp,armed,snap,iv)
            if n=='operator()':
                s.alive(eng,st,ev,'the subscriber is called')
                if any('publishing' in repr(m) or 'mutex' in repr(m) for m in st.held): s.viol(eng,st,ev,'no-lock','the subscriber is called with a lock of the stream held')
                if len(ev.args)==1:
                    s.n['head']+=1
                    t=ev.args[0]
                    if rng is not None and len(rng)==3: s.viol(eng,st,ev,'head-order','a head update is delivered between the entries of a range')
                    val=lambda x: eng.lookup(st,x)
                    v=val(t)
                    for _ in range(4):
                        if isinstance(v,tuple) and v[0]=='c' and v[1].startswith('ctor:') and len(v)==3: v=v[2]
                    if not any(op=='<' and (b==v or eng.lookup(st,b)==v) for op,a,b in st.facts if isinstance(b,tuple)): s.viol(eng,st,ev,'head-order','a head update is delivered without the head being known to have moved past the last one delivered')
                    if not('ead' in repr(v)): s.viol(eng,st,ev,'head-order','the head delivered is not the one of the snapshot of the persister')
                    return (pv,rng,nd,resp,tresp,armed,snap,(iv or frozenset())|{('H','H')})
                s.n['entry']+=1
                if rng is None or len(rng)!=3: s.viol(eng,st,ev,'each-entry-once','an entry is passed to the subscriber outside of the iteration over a range'); return
                if nd: s.viol(eng,st,ev,'each-entry-once','an entry is passed to the subscriber twice')
                a0,a1=ev.args[0],ev.args[1]
                a0=s.alias.get(eng.lookup(st,a0),s.alias.get(a0,a0))
                i=eng.lookup(st,('f',a1,'index')) if not(isinstance(a1,tuple) and a1[0] in('lh','b','lit')) else None
                r0=repr(eng.lookup(st,a0))+repr(a0)
                if i is not None and isinstance(i,tuple) and i[0]=='f' and 'idx_ts' in repr(i):
                    base=i
                    while isinstance(base,tuple) and base[0] in('f','*') : base=base[1]
                    if not any(mentions_kind(x,lambda t: t==base or isinstance(t,tuple) and eng.lookup(st,t)==base) for x in(a0,eng.lookup(st,a0))): s.viol(eng,st,ev,'own-index','the index and timestamp passed with an entry are not the ones of that entry')
                else:
                    v=eng.lookup(st,a1)
                    if not any(v==sym for L,sym in iv): s.viol(eng,st,ev,'own-index','the index passed with an entry is not its own: it has to start at the begin of the range and to grow by one per entry')
                return (pv,rng,1,resp,tresp,armed,snap,iv)
        if k=='write' and isinstance(ev.loc,tuple) and ev.loc[0]=='f' and ev.loc[1]==THIS and litv(ev.val)==1:
            if holds(st.facts,('F',ev.loc,None)) is True: return (pv,rng,nd,resp,tresp,True,snap,iv)
            return
        if k=='call' and (ev.q or '').rsplit('::',1)[-1] in('WaitUntil','Wait','WaitFor') and 'TerminateSignal' in ev.q:
            s.n['wait']+=1
            s.waits.append((ev.args,frozenset((L,eng.lookup(st,L)) for L in pv or ()),ev))
            s.alive(eng,st,ev,'the thread waits')
            if not any('publishing_mutex' in repr(m) for m in st.held): s.viol(eng,st,ev,'wait-locked','the thread waits for new entries without the publishing mutex')
            if rng is not None and len(rng)==3: s.viol(eng,st,ev,'whole-range','the thread waits in the middle of a range')
            return
    def end(s,eng,st,o):
        if o[0]!='ret': return
        pv,rng,nd,resp,tresp,armed,snap,iv=st.rs
        pv,rng,nd,resp,tresp,armed,snap,iv=s.settle(st)
        d=resp=='Done'; t=tresp=='Terminate'
        if not d and not t: eng.report(s.fr0,s.fn.line,'the subscriber thread ends although the subscriber has not replied Done or accepted a termination',st,rule='ends-early')

class Pred(Quiet):
    """the condition of the wait: false only if there is nothing to do"""
    def __init__(s,fn,pos): s.fn=fn; s.pos=pos; s.n=0; s.name='predicate'; s.ex={}
    def end(s,eng,st,o):
        if o[0]!='ret' or litv(o[1])==1: return
        s.n+=1
        fs=set(st.facts)
        if litv(o[1]) is None and any(op=='T' and 'erminate' in repr(a) for op,a,b in fs): return
        if o[1] is not None and litv(o[1]) is None: fs|=set(norm(o[1],False))
        if not any(op=='F' and 'erminate' in repr(a) for op,a,b in fs): s.rep(eng,'the subscriber may go on waiting although its termination is signalled')
        sz=lambda t: isinstance(t,tuple) and t[0]=='c' and t[1].endswith('::Size')
        if not any(op=='<=' and sz(a) and (b in s.pos) for op,a,b in fs): s.rep(eng,'the subscriber may go on waiting although there are entries past its position')
        hd=lambda t: isinstance(t,tuple) and ('CurrentHead' in repr(t) or t[0]=='f' and t[2]=='head')
        n1=lambda t: sz(t) or isinstance(t,tuple) and t[0]=='b' and t[1]=='+' and 'index' in repr(t)
        moved=not any(op=='<=' and hd(a) for op,a,b in fs)                     # the head may be past the one of the subscriber, and past the last entry
        early=any(op=='<' and n1(a) for op,a,b in fs) or any(op=='F' and a in s.ex for op,a,b in fs) and any(op=='!=' and ('lit',0) in(a,b) for op,a,b in fs)  # the position is not reached yet
        if moved and not early: s.rep(eng,'the subscriber may go on waiting although the head has moved')
    def rep(s,eng,m): eng.report(s.fr0,s.fn.line,m,None,rule='wait-condition')
    def on(s,eng,st,ev):
        if ev.fr.depth==0 or not hasattr(s,'fr0'): s.fr0=ev.fr
        if ev.k=='called' and ev.q=='current::Exists': s.ex[ev.val]=1

class Dtor(Quiet):
    def __init__(s,fn): s.fn=fn; s.n=0; s.name='scope'
    def init(s): return frozenset()
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='branch':
            v=ev.val; pol=ev.pol
            while isinstance(v,tuple) and v[0]=='!': v=v[1]; pol=not pol
            if 'done' in repr(v) and pol: return st.rs|{'signal'}
        if ev.k=='call' and n=='SignalExternalTermination':
            if not any('publishing_mutex' in repr(m) for m in st.held): eng.report(ev.fr,ev.line,'the subscriber thread is signalled without the mutex it waits with',st,rule='join')
            return st.rs|{'signal'}
        if ev.k=='call' and ev.q=='std::thread::join':
            s.n+=1
            if st.held: eng.report(ev.fr,ev.line,'the subscriber thread is joined with a lock held that it may need to finish',st,rule='join')
            if 'signal' not in st.rs: eng.report(ev.fr,ev.line,'the subscriber thread is joined without having been told to terminate',st,rule='join')
            return st.rs|{'join'}
    def end(s,eng,st,o):
        if 'join' not in st.rs and any(op=='T' and isinstance(a,tuple) and path_root(a)==THIS for op,a,b in st.facts): eng.report(s.fr0,s.fn.line,'the subscriber thread is not joined',st,rule='join')

class Done(Quiet):
    """Thread(): the thread function is run once, then the done callback is called once, under the mutex of the subscriptions"""
    opaque=OPQ+(Q+'::ThreadImpl',)
    def __init__(s,fn): s.fn=fn; s.n=0; s.name='done'
    def init(s): return (0,0,0)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        r,d,f=st.rs
        if ev.k=='call' and (ev.q or '')==Q+'::ThreadImpl': s.n+=1; return (r+1,d,f)
        if ev.k=='write' and litv(ev.val)==1 and path_root(ev.loc)==THIS:
            if not r: eng.report(ev.fr,ev.line,'the subscription is marked done before its thread function has returned',st,rule='done')
            return (r,1,f)
        if ev.k=='branch' and 'callback' in repr(ev.val) and not ev.pol: return (r,d,9)
        if ev.k=='call' and (ev.q or '').startswith('std::function::operator()'):
            if not any('http_subscriptions_mutex' in repr(m) for m in st.held): eng.report(ev.fr,ev.line,'the done callback is called without the mutex of the subscriptions',st,rule='done')
            if not r: eng.report(ev.fr,ev.line,'the done callback is called before the subscription is done',st,rule='done')
            if not d: eng.report(ev.fr,ev.line,'the done callback is called before the subscription is marked done',st,rule='done')
            return (r,d,f+1)
    def end(s,eng,st,o):
        r,d,f=st.rs
        if r!=1 or not d: eng.report(s.fr0,s.fn.line,'the thread of a subscription does not run its function exactly once and mark the subscription done',st,rule='done')
        if f not in(1,9): eng.report(s.fr0,s.fn.line,'the done callback is not called exactly once',st,rule='done')

class Notify(Quiet):
    opaque=('current::ss::EntryPersister','current::persistence','current::WaitableTerminateSignalBulkNotifier')
    def __init__(s,fn): s.fn=fn; s.n=0; s.name='notify'
    def init(s): return None
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and n in('PersisterPublishImpl','PersisterPublishUnsafeImpl','PersisterUpdateHeadImpl'): s.n+=1; return ev.val or ('x',)
        if ev.k=='call' and n=='NotifyAllOfExternalWaitableEvent':
            if st.rs is None: eng.report(ev.fr,ev.line,'the subscribers are notified before anything is published',st,rule='notify')
            return 'notified'
    def end(s,eng,st,o):
        if o[0]=='ret' and st.rs!='notified': eng.report(s.fr0,s.fn.line,'publishing returns without the subscribers being notified',st,rule='notify')

def run(c):
    F=lib.facts('w_stream.cc')
    mine=lambda f: 'verif_stream::SubImpl' in F.recfull(f)
    fs=[f for f in F.find(Q+'::ThreadImpl') if mine(f)]
    if len(fs)<6: raise Broken('the subscriber thread function not found: %d'%len(fs))
    for f in fs:
        r=Sub(f,('p',0,'begin'))
        e=Engine(F,r); e.run(f,args=[r.begin] if f.params else None)
        if not r.n['range'] or not r.n['entry'] or not r.n['head'] or not r.n['term'] or not r.waits: raise Broken('the subscriber thread function is not recognised: %s in %s'%(r.n,F.recfull(f)))
        c.from_engine(e); c.obligation('subscriber-thread',F.recfull(f)[:220])
        done=set()
        for args,pos,ev in r.waits:
            clo=[a for a in args if isinstance(a,tuple) and a[0]=='clo']
            if not clo: c.violation('wait-condition',f.file,ev.line,'the thread waits without a condition',f.q); continue
            pos={L for L,v in pos}|{v for L,v in pos}|{('*',L) for L,v in pos}
            k=(clo[0][2],)
            if k in done: continue
            done.add(k)
            pr=Pred(F.fns[clo[0][2][0]],pos)
            pr.opaque=OPQ
            e2=Engine(F,pr); e2.frames=dict(e.frames); e2.run_closure(clo[0])
            if not pr.n: raise Broken('the condition of the wait of the subscriber thread is never false')
            c.from_engine(e2); c.obligation('wait-condition',F.recfull(f)[:220])
    for f in F.find(Q+'::~SubscriberThreadInstance'):
        if not mine(f): continue
        r=Dtor(f); r.opaque=OPQ
        e=Engine(F,r); e.run(f)
        if not r.n: c.violation('join',f.file,f.line,'the subscriber thread is not joined by the destructor of its subscription',f.q)
        c.from_engine(e); c.obligation('join',F.recfull(f)[:220])
    for f in F.find(Q+'::Thread'):
        if not mine(f): continue
        r=Done(f)
        e=Engine(F,r); e.run(f)
        c.from_engine(e); c.obligation('done',F.recfull(f)[:220])
    for nm in('PublisherPublishImpl','PublisherPublishUnsafeImpl','PublisherUpdateHeadImpl'):
        for f in c.need(F.find('current::stream::StreamPublisherImpl::'+nm),nm):
            r=Notify(f)
            e=Engine(F,r); e.run(f)
            if not r.n: raise Broken('%s does not publish'%f.q)
            c.from_engine(e); c.obligation('notify',F.display(f))
    for k,n in(('subscriber-thread',6),('wait-condition',6),('join',6),('done',6),('notify',6)): c.floor(k,n)
