"""The persister of the storage (storage/persister/stream.h). A transaction which has logged something is published once, with every event of
its journal in order, its meta, and one timestamp, which becomes the time of the last applied transaction; the journal is cleared on every path. What
is replayed is every mutation of every transaction, in order, under the publishing mutex; the subscriber counts what it has replayed, and the flip to the master
ends the subscription first, and then, under the publishing mutex, replays from that count and takes the publisher. The time of the last
applied transaction, which several threads use, is atomic or protected by one mutex."""
from rulelib import *
import lib
ASSUME=['Iterate() gives the entries of the stream from the index it is given (P03)','the journal holds what was logged, in order (P12, P16)']
Q='current::storage::persister::StreamStreamPersisterImpl::'
OPQ=('current::stream','current::ss','current::persistence','current::MakeOwned','current::Owned','current::Borrowed','current::WeakBorrowed','current::sync','current::Exists','current::Value','current::variant')
def short(q): return (q or '').rsplit('::',1)[-1]
def one(F,recq,what,pred):
    for r in F.recs.values():
        if r['q']==recq and r.get('fields'):
            x=[f['n'] for f in r['fields'] if pred(F.types[f['ty']]['s'])]
            if len(x)!=1: raise Broken('%s: no unique field: %s (%s)'%(recq,what,x))
            return x[0]
    raise Broken('record %s not found'%recq)
class Roles:
    def __init__(s,F):
        b=Q[:-2]
        for r in F.recs.values():
            if r['q']==b and r.get('fields'): s.rec=r
        s.upd=fld(one(F,b,'the function which applies a mutation',lambda t:'function<' in t or 'fields_update_function_t' in t))
        s.pub=fld(one(F,b,'the publisher',lambda t:'Optional' in t))
        s.inst=fld(one(F,b,'the subscriber',lambda t:'unique_ptr' in t))
        s.scope=fld(one(F,b,'the scope of the subscription',lambda t:'SubscriberScope' in t))
        s.last=fld(one(F,b,'the time of the last applied transaction',lambda t:('duration' in t or 'microseconds' in t)))
        s.pmx=one(F,b,'the publishing mutex',lambda t:'mutex' in t and '&' in t)
        s.mmx=one(F,b,'the mutex of the role',lambda t:t in('std::mutex','mutex'))
        s.idx=one(F,Q+'StreamSubscriberImpl','the count of what was replayed',lambda t:t in('unsigned long','uint64_t'))
        s.rep=one(F,Q+'StreamSubscriberImpl','the replay function',lambda t:'function<' in t or 'replay_function_t' in t)
def dv(eng,st,t):
    for _ in range(6):
        if not isinstance(t,tuple): return t
        if t[0]=='c' and len(t)==3 and isinstance(t[1],str) and t[1].startswith('ctor:'): t=t[2]; continue
        v=eng.lookup(st,t) if t[0] in('v','t','f','*') else t
        if v==t or v is None: return t
        t=v
    return t
def par(fn,i,t):
    n=fn.params[i]['n']
    return isinstance(t,tuple) and (t==('p',i,n) or t[0]=='v' and t[-1]==n and t[1]==1)
def mpar(fn,i,t): return mentions_kind(t,lambda x: par(fn,i,x))
class B(Rule):
    opaque=OPQ; cap=200; out_cap=200
    def __init__(s,fn,ro): s.fn=fn; s.ro=ro; s.name='persister'; s.n=0; s.fr0=None
    def top(s,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
    def rep(s,eng,st,ev,rule,m): eng.report(ev.fr,ev.line,m,st,rule=rule)
    def R(s,eng,st,rule,m): eng.report(s.fr0,s.fn.line,m,st,file=s.fn.file,rule=rule)
    def plocked(s,st): return any(s.ro.pmx in repr(m) or 'publishing_mutex' in repr(m) for m in st.held)
class Persist(B):
    """rs=(loop state, source of `mutations` clean, meta moved, published, timestamp, applied, cleared, non-empty)"""
    def init(s): return (None,None,0,0,None,0,0,0)
    def rename_rs(s,rs,ren): return (rs[0],rs[1] if rs[1] is None else ren(rs[1]),rs[2],rs[3],ren(rs[4]) if isinstance(rs[4],tuple) else rs[4])+rs[5:]
    def log(s,t): return isinstance(t,tuple) and t[0]=='f' and t[2]=='commit_log'
    def is_action(s,ev):
        n=short(ev.q)
        if n in('emplace_back','push_back') and ev.recv is not None and isinstance(ev.recv,tuple) and ev.recv[0]=='f' and ev.recv[2]=='mutations': return ev.recv
    def on(s,eng,st,ev):
        s.top(ev)
        L,M,meta,pub,ts,app,clr,em=st.rs
        A=AllOf(s.log,s.is_action)
        L2,err=A.step(eng,st,ev,L)
        if err: s.rep(eng,st,ev,'persist',err.replace('element','entry of the journal'))
        if ev.k=='branch':
            t=ev.val; p=bool(ev.pol)
            while isinstance(t,tuple) and t and t[0]=='!': t=t[1]; p=not p
            if isinstance(t,tuple) and t[0]=='c' and t[1].endswith('::empty') and s.log(t[2]): em=1 if p else 0
            elif isinstance(t,tuple) and t[0]=='b' and ('lit',0) in t and 'commit_log' in repr(t) and t[1] in('==','!=','<','>'): em=1 if (t[1]=='==')==p else 0
            elif isinstance(t,tuple) and t[0]=='c' and t[1].endswith('::size') and s.log(t[2]): em=0 if p else 1
            if L is None and L2=='done': em=1
        L=L2
        if ev.k=='call':
            n=short(ev.q)
            if s.is_action(ev) is not None: M=ev.recv[1]
            if n in('insert','emplace','emplace_front','push_front') and ev.recv is not None and 'mutations' in path_fields(ev.recv)[-1:]: s.rep(eng,st,ev,'persist','an entry is not appended to the transaction')
            if n=='swap' and any('transaction_meta' in path_fields(a) for a in ev.args or ()): 
                o=[a for a in ev.args if 'transaction_meta' not in path_fields(a)]; meta=o[0] if o else 1
            if n=='operator=' and ev.recv is not None and path_fields(ev.recv)[-1:]==['meta'] and 'transaction_meta' in repr(ev.args)+repr([dv(eng,st,y) for y in ev.args]): meta=ev.recv
            if n=='Publish' and ev.q.startswith('current::'):
                s.n+=1
                if pub: s.rep(eng,st,ev,'persist','a transaction is published twice')
                if clr: s.rep(eng,st,ev,'persist','the journal is cleared before it is published')
                if L!='done': s.rep(eng,st,ev,'persist','the transaction is published before all entries of the journal are in it')
                a=[path_root(x) if isinstance(x,tuple) else x for x in ev.args or ()]
                t=dv(eng,st,(ev.args or (None,))[0])
                if M is not None and ev.args and ev.args[0]!=M and t!=M and not mentions(eng.lookup(st,ev.args[0]) or (),M): s.rep(eng,st,ev,'persist','what is published is not the transaction with the entries of the journal')
                if not meta: s.rep(eng,st,ev,'persist','the transaction is published without its meta')
                elif isinstance(meta,tuple) and M is not None and path_root(meta)!=path_root(M): s.rep(eng,st,ev,'persist','the meta is not that of the transaction published')
                if 'AlreadyLocked' not in (ev.fn.ta if ev.fn is not None else 'AlreadyLocked'): s.rep(eng,st,ev,'persist','the publisher is asked to lock the mutex which is held')
                if len(ev.args)<2 : s.rep(eng,st,ev,'persist','the transaction is published with a timestamp of its own')
                else: ts=dv(eng,st,ev.args[1])
                pub=1
            if n=='Clear' and 'MutationJournal' in ev.q: clr=1
        if ev.k=='write' and ev.loc==s.ro.last or ev.k=='call' and ev.recv==s.ro.last and short(ev.q) in('operator=','store'):
            v=ev.val if ev.k=='write' else dv(eng,st,ev.args[0])
            if v!=s.prev(eng,st,ev): 
                if not pub: s.rep(eng,st,ev,'persist','the transaction counts as applied before it is published')
                elif dv(eng,st,v)!=ts: s.rep(eng,st,ev,'persist','the time of the last applied transaction is not the one the transaction is published with')
                app=1
        if ev.k=='write' and isinstance(ev.loc,tuple) and ev.loc[0]=='f' and ev.loc[2]=='meta' and 'transaction_meta' in repr(ev.val): meta=ev.loc
        return (L,M,meta,pub,ts,app,clr,em)
    def prev(s,eng,st,ev): return None
    def end(s,eng,st,out):
        if out[0]!='ret': return
        L,M,meta,pub,ts,app,clr,em=st.rs
        empty=em
        if not clr: s.R(eng,st,'persist','the journal is not cleared: its entries would be persisted with the next transaction too')
        if not empty and not pub: s.R(eng,st,'persist','a journal with entries is not published')
        if pub and not app: s.R(eng,st,'persist','the time of the last applied transaction is not updated')
class Apply(B):
    def init(s): return (None,0)
    def cont(s,t): return isinstance(t,tuple) and t[0]=='f' and t[2]=='mutations'
    def act(s,ev):
        if short(ev.q)=='operator()' and ev.recv==s.ro.upd: return ev.args[0]
    def on(s,eng,st,ev):
        s.top(ev)
        L,app=st.rs
        L,err=AllOf(s.cont,s.act).step(eng,st,ev,L)
        if err: s.rep(eng,st,ev,'apply',err.replace('element','mutation of the transaction'))
        if ev.k=='call' and s.act(ev) is not None:
            s.n+=1
            a=s.act(ev)
            if not isinstance(dv(eng,st,a),tuple) or not (isinstance(a,tuple) and a[0] in('*','c','v','r')): s.rep(eng,st,ev,'apply','what is applied is not a mutation of the transaction')
        if ev.k=='write' and ev.loc==s.ro.last or ev.k=='call' and ev.recv==s.ro.last and short(ev.q) in('operator=','store'):
            v=ev.val if ev.k=='write' else dv(eng,st,ev.args[0])
            if L!='done': s.rep(eng,st,ev,'apply','the transaction counts as applied before its mutations are')
            if not any(mpar(s.fn,1,x) for x in (v,dv(eng,st,v))): s.rep(eng,st,ev,'apply','the time of the last applied transaction is not its timestamp')
            app=1
        return (L,app)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        if st.rs!=('done',1): s.R(eng,st,'apply','not all mutations of the transaction are applied' if st.rs[0]!='done' else 'the time of the last applied transaction is not updated')
class Sync(B):
    """rs: state of the element: None, 'new', 'yes' (a transaction), 'no' , 'applied'"""
    opaque=OPQ+(Q+'ApplyMutations',)
    def init(s): return (None,(),())
    def rename_rs(s,rs,ren): return (rs[0],tuple(ren(x) for x in rs[1]),tuple(ren(x) for x in rs[2]))
    def on(s,eng,st,ev):
        s.top(ev); x,vals,exs=st.rs
        if ev.k=='called' and isinstance(ev.val,tuple) and any('entry' in path_fields(a) or a in vals for a in ev.args or () if isinstance(a,tuple)):
            if ev.q=='current::Exists': return (x,vals,(ev.val,))
            if ev.q=='current::Value': return (x,(ev.val,),exs)
        if ev.k=='call':
            n=short(ev.q)
            if n.startswith('Iterate') and ev.q.startswith('current::'):
                a=[dv(eng,st,t) for t in ev.args]
                if not par(s.fn,0,a[0]): s.rep(eng,st,ev,'replay','the replay does not begin with the entry it is told to')
                if len(a)>1 and a[1]!=('lit',2**64-1) and a[1]!=('lit',-1): s.rep(eng,st,ev,'replay','the replay ends before the last entry')
            if n=='operator*' and 'ter' in short(ev.q[:-11]): 
                if x not in(None,'next'): s.rep(eng,st,ev,'replay','the entry is not dealt with: the next one is taken')
                return ('new',(),())
            if n=='operator++':
                if x in('new','yes'): s.rep(eng,st,ev,'replay','a transaction is skipped')
                return ('next',(),())
            if s.is_apply(ev):
                s.n+=1
                if x=='applied': s.rep(eng,st,ev,'replay','a transaction is applied twice')
                t=ev.args[1]; v=dv(eng,st,t)
                if not any(isinstance(y,tuple) and path_fields(y)[-2:]==['idx_ts','us'] for y in (t,v)): s.rep(eng,st,ev,'replay','a transaction is applied with a timestamp which is not its own')
                w=(ev.args[0],dv(eng,st,ev.args[0]))
                if not any(y in vals or any(mentions(y,z) for z in vals) or 'entry' in path_fields(y) for y in w): s.rep(eng,st,ev,'replay','what is applied is not the entry')
                return ('applied',(),())
        if ev.k=='branch' and x=='new':
            t=ev.val; p=bool(ev.pol)
            while isinstance(t,tuple) and t and t[0]=='!': t=t[1]; p=not p
            if t in exs: return ('yes' if p else 'no',vals,exs)
    def is_apply(s,ev): return (ev.q or '').startswith(Q+'ApplyMutations')
    def end(s,eng,st,out):
        if out[0]!='ret': return
        if st.rs[0] in('new','yes'): s.R(eng,st,'replay','a transaction is skipped')
        if st.rs[0]=='applied': s.R(eng,st,'replay','the replay stops after a transaction')
class Sub(B):
    opaque=OPQ
    def init(s): return 0
    def on(s,eng,st,ev):
        s.top(ev)
        if ev.k=='call' and short(ev.q)=='operator()' and ev.recv==fld(s.ro.rep):
            s.n+=1
            if st.rs: s.rep(eng,st,ev,'subscriber','the transaction is replayed twice, or counted before it is replayed')
            a=[dv(eng,st,x) for x in ev.args]; p=s.fn.params
            ok=(par(s.fn,0,ev.args[0]) or par(s.fn,0,a[0])) and any(isinstance(y,tuple) and y[0]=='f' and y[2]=='us' and par(s.fn,1,y[1]) for y in (a[1],ev.args[1]))
            if not ok: s.rep(eng,st,ev,'subscriber','what is replayed is not the entry with its timestamp')
            return 1
        if ev.k=='write' and ev.loc==fld(s.ro.idx):
            if st.rs!=1: s.rep(eng,st,ev,'subscriber','the entry is counted before it is replayed')
            p=s.fn.params; v=ev.val
            if not(isinstance(v,tuple) and v[:2]==('b','+') and ('lit',1) in v and any(isinstance(x,tuple) and x[0]=='f' and x[2]=='index' and par(s.fn,1,x[1]) for x in v)): s.rep(eng,st,ev,'subscriber','the count of what was replayed is not the index of the entry plus one')
            return 2
    def end(s,eng,st,out):
        if out[0]!='ret': return
        if st.rs!=2: s.R(eng,st,'subscriber','the entry is not replayed' if not st.rs else 'the entry is not counted')
        if out[1]!=('lit',s.more) : s.R(eng,st,'subscriber','the replay of the stream ends with this entry')
class Lam(B):
    opaque=OPQ+(Q+'ApplyMutations',)
    def init(s): return 0
    def on(s,eng,st,ev):
        s.top(ev)
        if ev.k=='call' and (ev.q or '').startswith(Q+'ApplyMutations'):
            s.n+=1
            if not s.plocked(st): s.rep(eng,st,ev,'replay','a transaction is applied without the publishing mutex: a transaction of the user may be running')
            if st.rs: s.rep(eng,st,ev,'replay','the transaction is applied twice')
            if not par(s.fn,0,dv(eng,st,ev.args[0])) or not mpar(s.fn,1,dv(eng,st,ev.args[1])): s.rep(eng,st,ev,'replay','what is applied is not the transaction with its timestamp')
            return 1
    def end(s,eng,st,out):
        if out[0]=='ret' and not st.rs: s.R(eng,st,'replay','a transaction is not applied')
class Flip(B):
    """BecomeMasterStorage: rs=(ended, publisher, saved index value known, replayed)"""
    opaque=OPQ+(Q+'SyncReplay',)
    def init(s): return (0,0,0,0)
    def on(s,eng,st,ev):
        s.top(ev); ended,pub,reset,rep=st.rs
        n=short(ev.q) if ev.q else ''
        if ev.k=='call':
            if ev.recv==s.ro.scope and n in('operator=','reset') or ev.recv==s.ro.scope and n.startswith('~'):
                if s.plocked(st): s.rep(eng,st,ev,'flip','the subscription is ended with the publishing mutex held: its thread waits for it')
                if ev.args and ev.args[0] not in(('null',),) and dv(eng,st,ev.args[0])!=('null',): return
                ended=1
            if ev.recv==s.ro.pub and n=='operator=':
                v=dv(eng,st,ev.args[0])
                if ev.args[0]==('null',) or v==('null',): pub=0
                else:
                    pub=1
                    if not s.plocked(st): s.rep(eng,st,ev,'flip','the publisher is taken without the publishing mutex')
                    if not any(s.ro.mmx in repr(m) for m in st.held): s.rep(eng,st,ev,'flip','the publisher is set without the mutex of the role')
                    if not ended: s.rep(eng,st,ev,'flip','the storage becomes the master while its subscription replays')
            if ev.recv==s.ro.inst and n in('operator=','reset') : reset=1
            if (ev.q or '').startswith(Q+'SyncReplay'):
                s.n+=1
                if not ended: s.rep(eng,st,ev,'flip','what is left is replayed while the subscription replays')
                if not s.plocked(st): s.rep(eng,st,ev,'flip','what is left is replayed without the publishing mutex')
                if rep: s.rep(eng,st,ev,'flip','what is left is replayed twice')
                v=dv(eng,st,ev.args[0])
                if s.ro.idx not in repr(v): s.rep(eng,st,ev,'flip','the replay does not begin where the subscription has ended')
                elif isinstance(v,tuple) and v[0]=='b': s.rep(eng,st,ev,'flip','the replay does not begin where the subscription has ended')
                rep=1
        if ev.k=='write' and ev.loc==s.ro.inst: reset=1
        if ev.k=='access' and isinstance(ev.loc,tuple) and ev.loc[0]=='f' and ev.loc[2]==s.ro.idx and not ended: s.rep(eng,st,ev,'flip','the count of what was replayed is read while the subscription still replays')
        if ev.k=='throw' and pub: s.rep(eng,st,ev,'flip','the flip throws after the publisher is taken')
        if ev.k=='unlock' and pub and not rep and not s.plocked(st): s.rep(eng,st,ev,'flip','the publishing mutex is released before what is left is replayed')
        return (ended,pub,reset,rep)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        if not st.rs[1]: s.R(eng,st,'flip','the storage does not become the master')
        if not st.rs[3]: s.R(eng,st,'flip','what the subscription has not replayed yet is not replayed')
class Ctor(B):
    """rs=(subscriber made, synced or subscribed)"""
    opaque=OPQ+(Q+'SyncReplay',)
    def __init__(s,fn,ro,master): B.__init__(s,fn,ro); s.master=master
    def init(s): return (0,0,0)
    def on(s,eng,st,ev):
        s.top(ev); made,started,pub=st.rs
        n=short(ev.q) if ev.q else ''
        if ev.k=='call':
            if ev.recv==s.ro.inst and n=='operator=' or n=='make_unique' : made=1
            if ev.recv==s.ro.pub and len(ev.args or ())==1 and n not in('Exists',): pub=1
            if (ev.q or '').startswith(Q+'SyncReplay'):
                s.n+=1
                if not s.plocked(st): s.rep(eng,st,ev,'start','the stream is replayed without the publishing mutex')
                if dv(eng,st,ev.args[0])!=('lit',0): s.rep(eng,st,ev,'start','the replay of the stream does not begin with its first entry')
                started+=1
            if n=='Subscribe' and ev.q.startswith('current::stream'):
                s.n+=1
                if not made: s.rep(eng,st,ev,'start','the subscription begins before its subscriber exists')
                a=ev.args[1:]
                if a and dv(eng,st,a[0])!=('lit',0): s.rep(eng,st,ev,'start','the subscription does not begin with the first entry')
                started+=1
        if ev.k=='init' and ev.loc==s.ro.pub and ev.val!=('null',) : pub=1
        return (made,min(started,2),pub)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        if st.rs[1]!=1: s.R(eng,st,'start','the stream is not replayed' if not st.rs[1] else 'the stream is replayed twice')
        if not st.rs[0]: s.R(eng,st,'start','there is no subscriber: the flip to the master could not tell where to begin')
class Dtor(B):
    def init(s): return 0
    def on(s,eng,st,ev):
        s.top(ev)
        if ev.k=='call' and ev.recv==s.ro.scope and short(ev.q) in('operator=','reset') and (ev.args[0]==('null',) or not ev.args): return 1
        if ev.k=='write' and ev.loc==s.ro.scope: return 1
    def end(s,eng,st,out):
        if out[0]=='ret' and not st.rs: s.R(eng,st,'end','the subscription is not ended while what it uses still exists')
class Race(B):
    """the accesses to the time of the last applied transaction"""
    def __init__(s,fn,ro,acc,ctx): B.__init__(s,fn,ro); s.acc=acc; s.ctx=ctx
    def on(s,eng,st,ev):
        s.top(ev)
        if ev.k in('access','write') and ev.loc==s.ro.last: s.acc.append(('write' if ev.k=='write' or ev.mode=='w' else 'read',frozenset('p' if (s.ro.pmx in repr(m) or 'publishing_mutex' in repr(m)) else 'm' if s.ro.mmx in repr(m) else '?' for m in st.held)|s.ctx,ev.line,s.fn))
def run(c):
    F=lib.facts('w_storage.cc'); ro=Roles(F)
    more=enumvals(F,'current::ss::More').get('More')
    if more is None: raise Broken('no EntryResponse::More')
    def go(rule,fn,kind,need=1):
        e=Engine(F,rule); e.run(fn); c.from_engine(e)
        if need and not rule.n and not e.reports: raise Broken('%s: nothing to check'%fn.q)
        c.obligation(kind,fn.q[len('current::storage::persister::'):]+' '+F.recfull(fn)[-60:])
    f=lambda n: c.need(F.find(Q+n),n)
    for x in f('PersistJournalFromLockedSection'): go(Persist(x,ro),x,'persist')
    ap=[x for x in F.fns.values() if x.q.startswith(Q+'ApplyMutations')]
    for x in c.need(ap,'ApplyMutations'): go(Apply(x,ro),x,'apply')
    for x in f('SyncReplayStreamFromLockedSectionOrConstructor'): go(Sync(x,ro),x,'replay')
    for x in f('StreamSubscriberImpl::operator()'):
        if len(x.params)==3:
            r=Sub(x,ro); r.more=more; go(r,x,'subscriber')
    for x in f('BecomeMasterStorage'): go(Flip(x,ro),x,'flip')
    lam=[x for x in F.fns.values() if x.q==Q+'StreamStreamPersisterImpl::(lambda)::operator()']
    for x in c.need(lam,'the replay functions'): go(Lam(x,ro),x,'replay')
    for x in f('StreamStreamPersisterImpl'):
        if len(x.params)!=3: continue
        m='Master' in F.types[x.params[0]['ty']]['s']
        go(Ctor(x,ro,m),x,'start')
    for x in f('~StreamStreamPersisterImpl'): go(Dtor(x,ro),x,'end',0)
    # the time of the last applied transaction
    ty=[F.types[y['ty']]['s'] for y in ro.rec['fields'] if ('R',) and fld(y['n'])==ro.last][0]
    if 'atomic' not in ty:
        acc=[]
        for n,ctx in (('PersistJournalFromLockedSection','p'),('LastAppliedTimestampPersister',None),('StreamStreamPersisterImpl::(lambda)::operator()',None)):
            for x in F.find(Q+n):
                if 'AlreadyLocked' in (x.ta or ''): continue
                e=Engine(F,Race(x,ro,acc,frozenset(ctx or ''))); e.run(x)
        common=None
        for k,h,l,fn in acc: common=h if common is None else common&h
        w=[a for a in acc if a[0]=='write']
        if not w: raise Broken('no writes of the time of the last applied transaction')
        if not common:
            a=[x for x in acc if not (w[0][1]&x[1])][:1] or acc[:1]
            c.violation('race',a[0][3].file,a[0][2],'the time of the last applied transaction is used here with other locks held than where it is written (line %d)'%w[0][2],a[0][3].q)
    c.obligation('race','last applied timestamp: '+ty[:60])
    # what the replay uses is constructed before the persister and destroyed after it
    for r in F.recs.values():
        if r['q']=='current::storage::StorageImpl' and r.get('fields'):
            names=[(y['n'],F.types[y['ty']]['s']) for y in r['fields']]
            ip=[i for i,(n,t) in enumerate(names) if t.startswith('current::storage::persister::')]
            fi=[i for i,(n,t) in enumerate(names) if 'CURRENT_STORAGE_FIELDS' in t.split('<')[0]]
            so=[i for i,(n,t) in enumerate(names) if t.startswith('current::Optional<') and 'stream::Stream<' in t]
            if len(ip)!=1 or not fi: raise Broken('StorageImpl: the members are not recognised: %s'%names)
            for i in fi+so:
                if i>ip[0]: c.violation('order',r.get('file') or 'storage/storage.h',r.get('line') or 0,'%s is declared after the persister which uses it in its constructor and until its destructor ends'%names[i][0],'current::storage::StorageImpl')
            c.obligation('order',str([n for n,t in names]))
    for k,n in (('persist',2),('apply',2),('replay',4),('subscriber',1),('flip',2),('start',2),('end',1),('order',1),('race',1)): c.floor(k,n)
