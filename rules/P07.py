"""Publishing authority of a stream (stream/stream.h, stream/replicator.h): the publisher is given out by the stream only
while the stream is the master, under the publishing mutex; a change of authority first takes the publisher of the stream
away and waits for the other holders of it, then makes a new one, which the stream keeps (master) or gives away
(following); a flip gives the authority away only on request with the right key, along with all the remaining entries, and
a flip which fails gives it back."""
from rulelib import *
import lib
ASSUME=['Owned/Borrowed keep their contract (P10): destroying an Owned waits for its borrowers','the methods instantiated for AlreadyLocked are called with the publishing mutex held']
BASE=('current::MakeOwned','current::Owned','current::Borrowed','current::WeakBorrowed','current::Optional','current::Exists','current::Value','current::sync','current::reflection','current::ss::Stream')
SQ='current::stream::Stream::'
CQ='current::stream::MasterFlipController::'

def fields(F,recq,pred):
    for r in F.recs.values():
        if r['q']==recq and r.get('fields'):
            return [f['n'] for f in r['fields'] if pred(F.types[f['ty']]['s'])]
    raise Broken('record %s not found'%recq)
def one(F,recq,what,pred):
    x=fields(F,recq,pred)
    if len(x)!=1: raise Broken('%s: no unique field: %s (%s)'%(recq,what,x))
    return x[0]
def isf(t,n):
    """t is (an access path into) the field n of this"""
    return isinstance(t,tuple) and mentions(t,fld(n))

class Auth(Rule):
    opaque=BASE
    def __init__(s,fn,kind,mls,b,o): s.fn=fn; s.kind=kind; s.need=mls; s.b=b; s.o=o; s.n=0; s.name='authority'; s.ex={}
    def init(s): return ('?','?',None,0)        # borrowable, owned, term of the publisher created, gave
    def rep(s,eng,st,ev,m,rule='authority'): eng.report(ev.fr,ev.line,m,st,rule=rule)
    def from_owned(s,eng,st,t): return mentions(t,fld(s.o)) or s.val.get(t) or s.val.get(eng.lookup(st,t)) or any(mentions(t,v) or mentions(eng.lookup(st,t),v) for v in s.val)
    val={}
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        b,o,p,g=st.rs
        locked=any('mutex' in repr(m) for m in st.held)
        if ev.k=='lock' and not s.need and 'publishing' in repr(ev.m): s.rep(eng,st,ev,'the publishing mutex is locked although the caller holds it','locked')
        if ev.k not in('call','called','access','write'): return
        ops=list(ev.args or ())+[ev.recv] if ev.k in('call','called') else [ev.loc]
        touch=any(isf(x,s.b) or isf(x,s.o) for x in ops if x is not None)
        if touch and s.need and not locked: s.rep(eng,st,ev,'the publisher of the stream is accessed without the publishing mutex','locked')
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called':
            if n=='Exists' and any(isf(x,s.b) for x in ev.args or ()): s.ex[ev.val]=1
            if n=='Value' and any(isf(x,s.o) for x in ev.args or ()): s.val=dict(s.val); s.val[ev.val]=1
            return
        if ev.k=='call' and n=='Value' and any(isf(x,s.b) for x in ev.args or ()):
            s.n+=1
            if not any(holds(st.facts,('T',e,None)) is True for e in s.ex): s.rep(eng,st,ev,'the publisher of the stream is used without the stream being known to have it')
            return (b,o,p,1)
        if ev.k=='call' and n in('operator=','reset') and ev.recv is not None and (ev.recv==fld(s.b) or ev.recv==fld(s.o)):
            s.n+=1
            a=(ev.args or (('null',),))[0]; null=a==('null',) or eng.lookup(st,a)==('null',)
            if ev.recv==fld(s.b):
                if null: return ('null',o,p,g)
                if o!='new': s.rep(eng,st,ev,'the stream is made the master with a publisher which was not created anew')
                if not s.from_owned(eng,st,a): s.rep(eng,st,ev,'the publisher the stream becomes the master with is not the one it owns')
                return ('set',o,p,g)
            if null:
                if b!='null': s.rep(eng,st,ev,'the publisher of the stream is destroyed while the stream may still hold it borrowed (it would wait for itself)')
                return (b,'null',p,g)
            if o!='null': s.rep(eng,st,ev,'a new publisher is created before the previous ones were invalidated')
            return (b,'new',p,g)
    def end(s,eng,st,out):
        b,o,p,g=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='authority')
        if s.kind in('Publisher','BorrowPublisher'):
            if out[0]=='ret' and not g: R('a publisher is returned which is not the one of the stream')
        elif out[0]!='ret': return
        elif s.kind=='IsMasterStream':
            pos=any(out[1]==e for e in s.ex) or litv(out[1])==1 and any(holds(st.facts,('T',e,None)) is True for e in s.ex) or litv(out[1])==0 and any(holds(st.facts,('F',e,None)) is True for e in s.ex)
            if not pos: R('the stream is reported to be the master iff something other than it having its publisher')
        else:
            if o!='new': R('the publisher of the stream is not created anew: the publishers borrowed before stay valid')
            if s.kind=='BecomeMasterStream' and b!='set': R('the stream does not have its publisher after it became the master')
            if s.kind=='BecomeFollowingStream':
                if b!='null': R('the stream may keep its publisher after it became a following one')
                if not s.from_owned(eng,st,out[1]): R('the publisher given to the caller is not the one of the stream')
    exc=True
    def throws(s,eng,e,fr): return None

class Ctl(Rule):
    """state shared by the rules of the controller"""
    opaque=BASE+('current::ss','current::url','current::http','current::stream::Stream','current::FromString','current::stream::MasterFlipController::RemoteStreamFollower','current::JSON','std::','current::net','current::time','current::persistence')
    exc=True
    def __init__(s,F,fn):
        s.F=F; s.fn=fn; s.n=0; s.name='flip'; s.ex={}; s.guards=set(); s.wrong=[]
        c=CQ[:-2]
        s.bp=one(F,c,'the borrowed publisher',lambda t:'Optional' in t and 'Publisher' in t or 'Optional' in t and 'Borrowed' in t and 'publisher' in t)
        s.xp=one(F,c,'the exposed state',lambda t:'unique_ptr' in t and 'ExposedStreamState' in t)
        s.rf=one(F,c,'the remote follower',lambda t:'unique_ptr' in t and 'RemoteStreamFollower' in t)
        s.mx=one(F,c,'the mutex',lambda t:'std::mutex' in t)
        s.key=one(F,CQ+'ExposedStreamState','the key',lambda t:t in('unsigned long','uint64_t'))
        s.times=fields(F,CQ+'ExposedStreamState',lambda t:'duration' in t or 'microseconds' in t)
        s.exc_id=[r for r,x in F.recs.items() if x['q']=='current::Exception']
        if not s.exc_id: raise Broken('current::Exception not found')
    def init(s): return (0,None,None,frozenset())   # replies, last authority step, follower, flags
    def rep(s,eng,st,ev,m,rule='flip'): eng.report(ev.fr,ev.line,m,st,rule=rule)
    def THROW(s): return [('rec',s.exc_id[0])]
    def nonnull(s,st,f,want):
        L=fld(f)
        for op,a,b in st.facts:
            if op==('!=' if want else '==') and (a==L and b==('null',) or b==L and a==('null',)): return True
            if op==('T' if want else 'F') and a==L: return True
            for x,p in((a,op=='T'),(a,op=='F')):
                pass
        if st.store.get(L)==('null',): return not want
        return False
    def locked(s,eng,st,ev):
        if not any(isf(m,s.mx) for m in st.held): s.rep(eng,st,ev,'the state of the controller is used without its mutex','locked')
    def base(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        if ev.k in('call','called'):
            ops=list(ev.args or ())+[ev.recv]
        elif ev.k in('access','write'): ops=[ev.loc]
        elif ev.k=='branch': ops=[ev.val]
        else: return
        if ev.k!='called' and any(isf(x,f) for x in ops if x is not None for f in(s.bp,s.xp,s.rf)): s.locked(eng,st,ev)
        if ev.k=='called' and (ev.q or '').endswith('::Exists') and any(isf(x,s.bp) for x in ev.args or ()): s.ex[ev.val]=1
    def step(s,eng,st,ev):
        """authority step made by this event: (kind, null?)"""
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and (ev.q or '').startswith(SQ): return n if n in('BecomeMasterStream','BecomeFollowingStream') else None
        if ev.k in('call','write') and n in('operator=','reset','operator=='): 
            L=ev.recv if ev.k=='call' else ev.loc
            a=ev.val if ev.k=='write' else (ev.args or (('null',),))[0]
            null=a==('null',) or eng.lookup(st,a)==('null',)
            if L==fld(s.bp): return 'bp-null' if null else 'bp-set'
            if L==fld(s.rf): return 'rf-null' if null else 'rf-set'
        if ev.k=='called' and n=='FlipRemoteStreamFromMasterToFollower': return 'remote'
        return None

class Request(Ctl):
    def throws(s,eng,e,fr):
        return None
    def reply(s,ev):
        """success? of a reply to the request, None if it is not one"""
        if ev.k!='call' or not (ev.q or '').endswith('Request::operator()'): return None
        a=[x for x in ev.args or ()]
        if len(a)<2: return True
        return path_fields(a[1])[-1:]==['OK'] or litv(a[1])==200
    def on(s,eng,st,ev):
        s.base(eng,st,ev)
        nr,au,rf,fl=st.rs
        r=s.reply(ev)
        if r is not None:
            s.n+=1
            if nr: s.rep(eng,st,ev,'the flip request is replied to twice')
            if r:
                if au!='bp-set': s.rep(eng,st,ev,'the flip request is accepted although the publisher of the stream was not taken away')
                if 'sent' not in fl: s.rep(eng,st,ev,'the flip request is accepted without the remaining entries being sent')
            return (nr+1,au,rf,fl|({'ok'} if r else {'refused'}))
        x=s.step(eng,st,ev)
        if x=='remote': return (nr,'remote',rf,fl|{'remote'})
        if x=='rf-null': return (nr,'rf-null' if au=='remote' else au,None,fl)
        if x=='BecomeMasterStream':
            if au=='rf-null': return (nr,'master',rf,fl|{'flipped'})
            if au!='bp-null': s.rep(eng,st,ev,'the stream is made the master while its publisher is held (this would wait for itself)')
            if 'refused' not in fl: s.rep(eng,st,ev,'the authority is taken back although the flip was not refused')
            return (nr,'master',rf,fl)
        if x=='BecomeFollowingStream':
            s.locked(eng,st,ev)
            if nr: s.rep(eng,st,ev,'the authority is given away although the request was refused')
            if not s.nonnull(st,s.xp,True): s.rep(eng,st,ev,'the authority is given away although the stream is not known to be exposed')
            if not any(holds(st.facts,('F',e,None)) is True for e in s.ex): s.rep(eng,st,ev,'the authority is given away although it may be given away already')
            keyed=any(op=='==' and any(path_fields(p)[-1:]==[s.key] and isf(p,s.xp) for p in(a,b)) and not all(isf(p,s.xp) for p in(a,b)) for op,a,b in st.facts if b is not None)
            if not keyed and 'flipped' not in fl: s.rep(eng,st,ev,'the authority is given away without the key of the request being known to be right','key')
            g=[path_fields(a)[-1] for op,a,b in st.facts if op=='<=' and path_fields(a)[-1:] and path_fields(a)[-1] in s.times and isf(a,s.xp)]
            s.guards.update(g)
            if not g: s.rep(eng,st,ev,'the authority is given away although flips may be blocked after a wrong key','key')
            return (nr,'following',rf,fl)
        if x=='bp-set':
            if au!='following': s.rep(eng,st,ev,'the publisher stored is not the one just taken from the stream')
            return (nr,'bp-set',rf,fl)
        if x=='bp-null': return (nr,'bp-null',rf,fl)
        if ev.k=='write' and isinstance(ev.loc,tuple) and path_fields(ev.loc)[-1:] and path_fields(ev.loc)[-1] in s.times and isf(ev.loc,s.xp): return (nr,au,rf,fl|{'blocked:'+path_fields(ev.loc)[-1]})
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='call' and n in('operator=','operator+=','operator*=') and isf(ev.recv,s.xp) and path_fields(ev.recv)[-1] in s.times: return (nr,au,rf,fl|{'blocked:'+path_fields(ev.recv)[-1]})
        if ev.k=='call' and n in('Iterate','IterateUnsafe') and 'persist' in (ev.q or '').lower():
            if au!='bp-set': s.rep(eng,st,ev,'the remaining entries are read before the publisher of the stream is taken away')
            a=list(ev.args or ())
            if len(a)>1 and litv(a[1]) not in(None,(1<<64)-1,-1) or len(a)>1 and litv(a[1]) is None: s.rep(eng,st,ev,'not all of the remaining entries are sent')
            b=eng.lookup(st,a[0]) if a else None
            ok=litv(b)==0 or isinstance(b,tuple) and b[0]=='b' and b[1]=='+' and ('lit',1) in b[2:]
            if not ok: s.rep(eng,st,ev,'the entries sent do not start at the one after the last one of the requester')
            return (nr,au,rf,fl|{'sent'})
    def end(s,eng,st,out):
        if out[0]!='ret': return
        nr,au,rf,fl=st.rs
        def R(m,rule='flip'): eng.report(s.fr0,s.fn.line,m,st,rule=rule)
        if nr!=1: R('the flip request is not replied to exactly once')
        if 'ok' in fl and au!='bp-set': R('the stream has its authority back although the flip was accepted')
        if 'refused' in fl and au in('following','bp-set','bp-null','rf-null','remote'): R('the stream is left without its authority although the flip was refused')
        wrong=any(op=='!=' and any(path_fields(p)[-1:]==[s.key] and isf(p,s.xp) for p in(a,b)) for op,a,b in st.facts if b is not None)
        if wrong and 'flipped' not in fl: s.wrong.append({x[8:] for x in fl if x.startswith('blocked:')})

class Follow(Ctl):
    def throws(s,eng,e,fr):
        q=eng.F.fns[e['fn']].q if e.get('fn') in eng.F.fns else e.get('q') or ''
        return s.THROW() if 'make_unique' in q or 'RemoteStreamFollower' in q else None
    def on(s,eng,st,ev):
        s.base(eng,st,ev)
        nr,au,rf,fl=st.rs
        x=s.step(eng,st,ev)
        if ev.k=='call' and ('make_unique' in (ev.q or '') or (ev.q or '').endswith('RemoteStreamFollower::RemoteStreamFollower')):
            s.n+=1
            if not s.nonnull(st,s.rf,False): s.rep(eng,st,ev,'a remote stream is followed although the stream may be following one already')
            fl=fl|{'try'}
            a=repr(ev.args)+repr([eng.lookup(st,x) for x in ev.args or ()])
            if 'Size' not in a: s.rep(eng,st,ev,'the remote stream is not followed from the number of entries of the stream')
            if 'CurrentHead' not in a: s.rep(eng,st,ev,'the remote stream is not followed from past the head of the stream')
            return (nr,None,rf,fl)
        if x=='rf-set': return (nr,au,'set',fl)
        if x=='bp-null': return (nr,'bp-null',rf,fl)
        if x=='BecomeMasterStream': return (nr,'master',rf,fl)
        if x=='BecomeFollowingStream': return (nr,'following',rf,fl)
        if x=='bp-set': return (nr,'bp-set' if au=='following' else au,rf,fl)
    def end(s,eng,st,out):
        nr,au,rf,fl=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='flip')
        had=[holds(st.facts,('T',e,None)) for e in s.ex]
        if out[0]=='ret':
            if rf!='set': R('the function returns without the remote stream being followed')
            if au=='bp-set' or au!='bp-null' and not any(holds(st.facts,('F',e,None)) is True for e in s.ex): R('the publisher moved to the follower is kept')
        elif 'try' in fl:
            if any(h is True for h in had):
                if au!='bp-set': R('the publisher held is not restored when following the remote stream fails')
            elif au!='master': R('the authority of the stream is not restored when following the remote stream fails')

class Flip(Ctl):
    def throws(s,eng,e,fr):
        q=eng.F.fns[e['fn']].q if e.get('fn') in eng.F.fns else e.get('q') or ''
        return s.THROW() if 'FlipRemoteStreamFromMasterToFollower' in q else None
    def on(s,eng,st,ev):
        s.base(eng,st,ev)
        nr,au,rf,fl=st.rs
        x=s.step(eng,st,ev)
        if ev.k=='call' and (ev.q or '').endswith('FlipRemoteStreamFromMasterToFollower'):
            s.n+=1
            if not s.nonnull(st,s.rf,True): s.rep(eng,st,ev,'the flip is requested although no stream may be followed')
            if not any(op=='F' and 'IsMasterStream' in repr(a) for op,a,b in st.facts): s.rep(eng,st,ev,'the flip is requested although the stream may be the master already')
        if x=='remote': return (nr,'remote',rf,fl)
        if x=='rf-null':
            if au!='remote': s.rep(eng,st,ev,'the follower is dropped before the remote stream has sent its remaining entries')
            return (nr,'rf-null',rf,fl)
        if x=='BecomeMasterStream':
            if au!='rf-null': s.rep(eng,st,ev,'the stream is made the master before the remote one has given the authority up and the follower was dropped')
            return (nr,'master',rf,fl)
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs[1]!='master': eng.report(s.fr0,s.fn.line,'the stream is not the master after the flip',st,rule='flip')

class Remote(Ctl):
    """the follower, flipping: the subscription is ended first, and restored if the flip fails"""
    opaque=Ctl.opaque[:-4]+('current::stream::SubscribableRemoteStream','current::JSON','std::','current::persistence')
    opaque=tuple(q for q in opaque if 'RemoteStreamFollower' not in q)
    def __init__(s,F,fn):
        Ctl.__init__(s,F,fn)
        s.sc=one(F,CQ+'RemoteStreamFollower','the subscription',lambda t:'unique_ptr' in t and 'SubscriberScope' in t)
    def throws(s,eng,e,fr):
        q=eng.F.fns[e['fn']].q if e.get('fn') in eng.F.fns else e.get('q') or ''
        return s.THROW() if q.endswith('SubscribableRemoteStream::FlipToMaster') else None
    def init(s): return ('on',0,None)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        sub,done,arg=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k in('call','write') and n in('operator=','reset') and (ev.recv if ev.k=='call' else ev.loc)==fld(s.sc):
            a=ev.val if ev.k=='write' else (ev.args or (('null',),))[0]
            return ('off' if a==('null',) else 'on',done,arg)
        if ev.k=='call' and n=='FlipToMaster':
            s.n+=1
            if sub!='off': s.rep(eng,st,ev,'the remote stream is asked for its remaining entries while the subscription still delivers')
        if ev.k=='called' and n=='FlipToMaster': return (sub,1,arg)
        if ev.k=='call' and n in('Subscribe','SubscribeUnchecked'):
            a=repr(ev.args)+repr([eng.lookup(st,x) for x in ev.args or ()])
            if 'Size' not in a or 'CurrentHead' not in a: s.rep(eng,st,ev,'the subscription is not restored from the number of entries and the head of the stream')
    def end(s,eng,st,out):
        sub,done,arg=st.rs
        if out[0]=='ret' and not done: eng.report(s.fr0,s.fn.line,'the function returns although the remote stream has not given the authority up',st,rule='flip')
        if out[0]=='ret' and sub=='on': eng.report(s.fr0,s.fn.line,'the subscription goes on after the flip',st,rule='flip')
        if out[0]!='ret' and sub!='on': eng.report(s.fr0,s.fn.line,'the subscription is not restored when the flip fails',st,rule='flip')

def run(c):
    F=lib.facts('w_repl.cc')
    b=one(F,SQ[:-2],'the publisher borrowed',lambda t:'Optional' in t and 'Borrowed' in t)
    o=one(F,SQ[:-2],'the publisher owned',lambda t:'Optional' in t and 'Owned' in t)
    for kind in('Publisher','BorrowPublisher','IsMasterStream','BecomeMasterStream','BecomeFollowingStream'):
        for f in c.need(F.find(SQ+kind),kind):
            r=Auth(f,kind,'NeedToLock' in (f.ta or ''),b,o)
            e=Engine(F,r); e.run(f)
            if not r.n and kind!='IsMasterStream' : raise Broken('%s: nothing recognised'%kind)
            c.from_engine(e); c.obligation('authority',F.display(f)+(f.ta or ''))
    for nm,R,rule in(('MasterFlipRequest',Request,'flip-request'),('FollowRemoteStream',Follow,'follow'),('FlipToMaster',Flip,'flip-to-master'),('RemoteStreamFollower::FlipRemoteStreamFromMasterToFollower',Remote,'flip-remote')):
        for f in c.need(F.find(CQ+nm),nm):
            r=R(F,f)
            e=Engine(F,r); e.run(f)
            if not r.n: c.violation('flip',f.file,f.line,'the operation is not performed at all',f.q)
            if r.guards and any(not (w&r.guards) for w in r.wrong): c.violation('key',f.file,f.line,'a wrong key does not block further attempts',f.q)
            c.from_engine(e); c.obligation(rule,F.display(f))
    c.floor('authority',20)
    for k in('flip-request','follow','flip-to-master','flip-remote'): c.floor(k,2)
