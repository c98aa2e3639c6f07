"""Replication from a remote stream (stream/replicator.h): each received line is passed to the subscriber exactly once; in the
checked mode only with the expected index and not before the requested timestamp; the expected index grows by one per entry
passed and not otherwise; a reply of Done ends the subscription; after a broken connection or malformed chunk the
subscription is resumed from the expected index, with the incomplete line discarded and the schema checked again; an
incomplete line is kept until it is complete; the subscriber is asked to terminate once; the replicator publishes what it
was passed with the original timestamp; the thread is told to terminate and joined, then the done callback is called."""
from rulelib import *
import lib
ASSUME=['the HTTP client calls the chunk callback with the bytes received, in order','JSON and string functions behave as documented (P22)']
Q='current::stream::SubscribableRemoteStream::'
OPQ=('current::MakeOwned','current::Owned','current::Borrowed','current::WeakBorrowed','current::Optional','current::Exists','current::Value','current::sync','current::ss::','current::ParseJSON','current::strings','current::HTTP','current::http','current::WaitableAtomic','current::net','current::time')

def one(F,recq,what,pred):
    for r in F.recs.values():
        if r['q']==recq and r.get('fields'):
            x=[f['n'] for f in r['fields'] if pred(F.types[f['ty']]['s'])]
            if len(x)!=1: raise Broken('%s: no unique field: %s (%s)'%(recq,what,x))
            return x[0]
    raise Broken('record %s not found'%recq)
class Roles:
    def __init__(s,F):
        b=Q+'RemoteStreamSubscriber'
        s.nxt=fld(one(F,b,'the expected index',lambda t:t in('unsigned long','uint64_t')))
        s.frm=fld(one(F,b,'the timestamp to begin from',lambda t:'duration' in t or 'microseconds' in t))
        s.carry=fld(one(F,b,'the incomplete line',lambda t:'basic_string' in t or t=='std::string'))
        t=Q+'RemoteSubscriberThread'
        s.req=fld(one(F,t,'the termination request',lambda x:'atomic' in x and 'bool' in x and 'Waitable' not in x))
        s.id=fld(one(F,t,'the subscription id',lambda x:'WaitableAtomic' in x))
        s.cb=fld(one(F,t,'the done callback',lambda x:'function<' in x))
        s.cnt=fld(one(F,t,'the count of malformed chunks',lambda x:x in('unsigned int','uint32_t')))
def short_of(eng,e):
    q=eng.F.fns[e['fn']].q if e.get('fn') in eng.F.fns else e.get('q') or ''
    return q
def deepval(eng,st,t):
    for _ in range(6):
        if not isinstance(t,tuple): return t
        if t[0]=='c' and len(t)==3 and isinstance(t[1],str) and t[1].startswith('ctor:'): t=t[2]; continue
        v=eng.lookup(st,t) if t[0] in('v','t','f','*') else t
        if v==t or v is None: return t
        t=v
    return t
class B(Rule):
    opaque=OPQ
    def rep(s,eng,st,ev,rule,m): eng.report(ev.fr,ev.line,m,st,rule=rule)
    def R(s,eng,st,rule,m): eng.report(s.fr0,s.fn.line,m,st,rule=rule)
    def top(s,ev):
        if ev.fr.depth==0: s.fr0=ev.fr

class Entry(B):
    """one line"""
    exc=True
    cap=40
    def __init__(s,fn,ro,checked): s.fn=fn; s.ro=ro; s.checked=checked; s.n={'entry':0,'head':0}; s.name='line'
    def init(s): return (None,None,0,0)     # kind, reply, increments, writes of `from`
    def throws(s,eng,e,fr):
        return None
    def rename_rs(s,rs,ren): return (rs[0],ren(rs[1]) if isinstance(rs[1],tuple) else rs[1])+rs[2:]
    def settle(s,st):
        k,r,i,w=st.rs
        if isinstance(r,tuple):
            if holds(st.facts,('==',)+srt(r,('lit',0))) is True or holds(st.facts,('!=',)+srt(r,('lit',1))) is True: return (k,'Done',i,w)
            if holds(st.facts,('!=',)+srt(r,('lit',0))) is True or holds(st.facts,('==',)+srt(r,('lit',1))) is True: return (k,'More',i,w)
        return st.rs
    def on(s,eng,st,ev):
        s.top(ev)
        rs=s.settle(st)
        if rs!=st.rs: st.rs=rs; st._k=None
        k,r,i,w=rs
        if ev.k=='call' and (ev.q or '').endswith('::operator()') and 'ubscriber' in (ev.q or '')+(ev.cls or '')+repr(ev.recv):
            if k: s.rep(eng,st,ev,'once','the line is passed to the subscriber twice')
            a=ev.args or ()
            if len(a)==1:
                s.n['head']+=1
                return ('head',None,i,w)
            s.n['entry']+=1
            x=eng.lookup(st,('f',a[1],'index')) if s.checked else deepval(eng,st,a[1])
            x=deepval(eng,st,x)
            nv=eng.lookup(st,s.ro.nxt)
            if s.checked:
                t=deepval(eng,st,eng.lookup(st,('f',a[1],'us')))
                ok=any(op=='==' and {deepval(eng,st,p),deepval(eng,st,q)}=={x,nv} for op,p,q in st.facts if q is not None) or any(op=='==' and s.ro.nxt in(p,q) and any(isinstance(z,tuple) and z!=s.ro.nxt and (z==x or z[0]=='f' and z[2]=='index') for z in(p,q)) for op,p,q in st.facts if q is not None)
                if not ok: s.rep(eng,st,ev,'expected-index','an entry is passed although its index is not known to be the expected one')
                F=s.ro.frm
                g=any(op=='<=' and p==F and (litv(q)==0 or isinstance(q,tuple) and (q==t or q[0]=='f' and q[2]=='us' or q==deepval(eng,st,t))) for op,p,q in st.facts if q is not None)
                if not g: s.rep(eng,st,ev,'from','an entry is passed although its timestamp may precede the one to begin from')
            else:
                if x!=nv and x!=s.ro.nxt: s.rep(eng,st,ev,'expected-index','the index passed with a raw line is not the expected one')
            return ('entry',None,i,w)
        if ev.k=='called' and (ev.q or '').endswith('::operator()') and 'ubscriber' in (ev.q or '')+(ev.cls or '')+repr(ev.recv):
            return (k,ev.val,i,w)
        if ev.k=='write' and ev.loc==s.ro.nxt:
            v=ev.val
            if v not in(('b','+',s.ro.nxt,('lit',1)),('b','+',('lit',1),s.ro.nxt)): s.rep(eng,st,ev,'expected-index','the expected index is changed otherwise than by one')
            if k!='entry' or r!='More': s.rep(eng,st,ev,'expected-index','the expected index grows although no entry was passed and accepted')
            return (k,r,i+1,w)
        if (ev.k=='write' and ev.loc==s.ro.frm) or ev.k=='call' and (ev.q or '').endswith('operator=') and ev.recv==s.ro.frm:
            if r!='More': s.rep(eng,st,ev,'from','the timestamp to resume from is changed before the line was passed')
            v=deepval(eng,st,ev.val if ev.k=='write' else (ev.args or (None,))[0])
            if k=='entry' and litv(v)!=0: s.rep(eng,st,ev,'from','the timestamp to resume from is kept after an entry, whose index determines where to resume')
            if k=='head' and not(isinstance(v,tuple) and v[0]=='b' and v[1]=='+' and ('lit',1) in v): s.rep(eng,st,ev,'from','the subscription would not resume from past the head passed')
            return (k,r,i,w+1)
    def end(s,eng,st,out):
        k,r,i,w=s.settle(st)
        if out[0]=='ret':
            if k is None: s.R(eng,st,'once','a line is dropped: it is neither passed to the subscriber nor rejected')
            if k and r!='More': s.R(eng,st,'done','the function returns although the reply of the subscriber may be Done')
            if k=='entry' and i!=1: s.R(eng,st,'expected-index','the expected index does not grow by one with an entry passed')
            if k=='head' and i: s.R(eng,st,'expected-index','the expected index grows with a head update')
            if k and not w: s.R(eng,st,'from','the timestamp to resume from is not updated')
        else:
            if k and r!='Done': s.R(eng,st,'once','a line which was passed is rejected: it would be passed again after resuming')
            if k and r=='Done' and not('StreamTerminatedBySubscriber' in repr(exname(eng,out))): s.R(eng,st,'done','a reply of Done is not reported as the end of the subscription')
            if not k and 'StreamTerminatedBySubscriber' in repr(exname(eng,out)): s.R(eng,st,'done','the subscription ends although the subscriber has not replied Done')
def exname(eng,out):
    ty=out[1]
    if isinstance(ty,tuple) and ty[0]=='rec': return eng.F.recs.get(ty[1],{}).get('q')
    return ty

class Chunk(B):
    """framing"""
    opaque=OPQ+(Q+'RemoteStreamSubscriber::PassEntryToSubscriber',)
    cap=60
    def __init__(s,fn,ro): s.fn=fn; s.ro=ro; s.n=0; s.der=set(); s.name='chunk'; s.empty=0; s.kept=0
    def ended(s,eng,st,vs):
        """every piece of the chunk in what is passed: the position it ends at was compared with the size (or npos)"""
        def sub(t):
            if isinstance(t,tuple):
                yield t
                for x in t:
                    if isinstance(x,tuple): yield from sub(x)
        cand=set()
        for v in vs:
            for t in sub(v):
                if t[0]=='c' and isinstance(t[1],str) and t[1].rsplit('::',1)[-1].startswith('substr') and len(t)>=3:
                    a=[x for x in t[2:]]
                    for x in sub(a[-1]): cand.add(x)
                    b=a[-2] if len(a)>1 else None
                    if b in cand and a[-1]!=b: cand.discard(b)
        f=[(p,q) for op,p,q in st.facts if op in('!=','<') and q is not None and ('size' in repr((p,q)) or 'npos' in repr((p,q)) or 18446744073709551615 in(litv(p),litv(q)))]
        if not cand: return bool(f)
        return any(p in cand or q in cand for p,q in f)
    def init(s): return '?'     # the incomplete line: '?', 'empty', 'kept' (holds data not passed), 'passed'
    def on(s,eng,st,ev):
        s.top(ev)
        c=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and n in('operator+','operator+=','append') and ev.val is not None and any(mentions(x,y) or mentions(eng.lookup(st,x),y) for x in list(ev.args or ())+[ev.recv] if x is not None for y in [s.ro.carry]+list(s.der)): s.der.add(ev.val); return
        if ev.k=='branch':
            v=ev.val; pol=ev.pol
            while isinstance(v,tuple) and v[0]=='!': v=v[1]; pol=not pol
            if isinstance(v,tuple) and mentions(v,s.ro.carry):
                if v[0]=='c' and v[1].endswith('::empty'): return 'empty' if pol else 'kept'
                if 'size' in repr(v) or 'length' in repr(v):
                    z=[holds(st.facts,('==',)+srt(x,('lit',0))) for x in v if isinstance(x,tuple) and 'size' in repr(x)]
                    return 'empty' if True in z else 'kept'
            return
        if ev.k=='call' and n=='PassEntryToSubscriber':
            s.n+=1
            a=ev.args[0]; v=deepval(eng,st,a)
            own=any(mentions(x,d) for d in [s.ro.carry]+list(s.der) for x in(a,v))
            if own and c in('passed','done'): s.rep(eng,st,ev,'framing','an incomplete line, once completed and passed, is passed again')
            if not own and c in('?','kept','held'): s.rep(eng,st,ev,'framing','a line is passed although the incomplete one kept before it was not')
            if not s.ended(eng,st,(a,v)): s.rep(eng,st,ev,'framing','a line is passed although its terminator is not known to be received')
            if own and c=='held': return 'done'
            return 'passed' if own and c!='empty' else c
        if ev.k=='call' and n=='swap':
            l=[ev.recv]+list(ev.args or ())
            if s.ro.carry in l:
                for x in l:
                    if x!=s.ro.carry and x is not None: s.der.add(x); s.der.add(eng.lookup(st,x))
                return 'held' if c in('kept','?') else c
            return
        clear=ev.k=='call' and n=='clear' and ev.recv==s.ro.carry
        asg=ev.k=='write' and ev.loc==s.ro.carry or ev.k=='call' and n in('operator=','assign') and ev.recv==s.ro.carry
        app=ev.k=='call' and n in('operator+=','append','push_back') and ev.recv==s.ro.carry or ev.k=='write' and ev.loc==s.ro.carry and n=='operator+='
        if app:
            if c=='passed': s.rep(eng,st,ev,'framing','data is appended to a line passed already')
            s.kept+=1; return 'kept'
        if clear:
            if c in('kept','?'):
                if s.der: return 'held'
                s.rep(eng,st,ev,'framing','an incomplete line is dropped')
            return c if c in('held','done') else 'empty'
        if asg:
            v=ev.val if ev.k=='write' else (ev.args or (None,))[0]
            if c in('kept','?') and not mentions(deepval(eng,st,v),s.ro.carry) and not mentions(v,s.ro.carry): s.rep(eng,st,ev,'framing','an incomplete line is overwritten')
            s.kept+=1; return 'kept'
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs=='held': s.R(eng,st,'framing','an incomplete line is dropped')
        if out[0]=='ret' and st.rs=='passed': s.R(eng,st,'framing','a line passed already is kept as an incomplete one')

class Loop(B):
    """the subscriber thread"""
    exc=True
    cap=40
    opaque=OPQ+(Q+'RemoteStream::',)
    def __init__(s,fn,ro,F,exq): s.fn=fn; s.ro=ro; s.n=0; s.name='thread'; s.exq=exq; s.term=0; s.chunks=[]; s.rid=[r for r,x in F.recs.items() if x['q']==exq][0]
    def init(s): return ('clean',0,'no',None,0)  # incomplete line; schema checked; http state; reply to the termination; asked
    def rename_rs(s,rs,ren): return rs[:3]+(ren(rs[3]) if isinstance(rs[3],tuple) else rs[3],)+rs[4:]
    def throws(s,eng,e,fr):
        q=short_of(eng,e)
        return [('rec',s.rid)] if q.startswith('current::http') and q.rsplit('::',1)[-1]=='HTTP' or q=='current::HTTP' or q.endswith('::HTTP') else None
    def on(s,eng,st,ev):
        s.top(ev)
        d,sc,h,tr,asked=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and n=='CheckSchema': return (d,1,h,tr,asked)
        if ev.k=='call' and n=='GetURLToSubscribe':
            a=[deepval(eng,st,x) for x in ev.args or ()]
            s.url=(a[0]==s.ro.nxt or a[0]==eng.lookup(st,s.ro.nxt),len(a)>1 and (a[1]==s.ro.frm or a[1]==eng.lookup(st,s.ro.frm)))
            if not s.url[0]: s.rep(eng,st,ev,'resume','the subscription does not start at the expected index')
            if not s.url[1]: s.rep(eng,st,ev,'resume','the subscription does not start at the timestamp to resume from')
            return
        if ev.k in('call','called') and n=='HTTP' and ev.fr.depth<=s.depth(ev):
            if 'CheckSchema' in ev.fr.fn.q: return
            if ev.k=='called': return (d,sc,'returned',tr,asked)
            s.n+=1
            if d=='dirty': s.rep(eng,st,ev,'resume','the subscription is resumed with the incomplete line of the previous connection kept')
            if not sc: s.rep(eng,st,ev,'resume','the subscription is (re)started without the schema having been checked')
            if h=='in' and s.exq.endswith('StreamTerminatedBySubscriber'): s.rep(eng,st,ev,'done','the subscription is resumed although the subscriber has replied Done')
            if tr is not None and s.trd(st)!='Wait': s.rep(eng,st,ev,'terminate','the subscription goes on although the subscriber may have accepted the termination')
            return ('dirty',0,'in',tr,asked)
        if ev.k=='call' and n in('clear','operator=') and ev.recv==s.ro.carry or ev.k=='write' and ev.loc==s.ro.carry: return ('clean',sc,h,tr,asked)
        if ev.k=='call' and n=='Terminate' and 'ubscriber' in (ev.q or '')+repr(ev.recv):
            s.term+=1
            if not any(op=='T' and (a==s.ro.req or mentions(a,s.ro.req)) for op,a,b in st.facts): s.rep(eng,st,ev,'terminate','the subscriber is asked to terminate without a request for it')
            if asked: s.rep(eng,st,ev,'terminate','the subscriber is asked to terminate twice')
            return (d,sc,h,tr,1)
        if ev.k=='called' and n=='Terminate' and 'ubscriber' in (ev.q or '')+repr(ev.recv): return (d,sc,h,ev.val,asked)
    def depth(s,ev): return 4
    def trd(s,st):
        r=st.rs[3]
        if r is None: return None
        for v,nm in((0,'Wait'),(1,'Terminate')):
            if holds(st.facts,('==',)+srt(r,('lit',v))) is True or holds(st.facts,('!=',)+srt(r,('lit',1-v))) is True: return nm
        return '?'
    def end(s,eng,st,out):
        d,sc,h,tr,asked=st.rs
        if out[0]!='ret': s.R(eng,st,'resume','an exception leaves the thread of the subscription'); return
        if s.exq.endswith('StreamTerminatedBySubscriber') and h=='in': return
        if asked and s.trd(st) not in(None,'Wait'): return
        s.R(eng,st,'resume','the subscription ends although the subscriber has neither replied Done nor accepted a termination')

class OnChunk(B):
    opaque=OPQ+(Q+'RemoteStreamSubscriber::PassChunkToSubscriber',)
    def __init__(s,fn,ro): s.fn=fn; s.ro=ro; s.n=0; s.name='on-chunk'
    def init(s): return 0
    def on(s,eng,st,ev):
        s.top(ev)
        if ev.k=='call' and (ev.q or '').endswith('::PassChunkToSubscriber'):
            s.n+=1
            if st.rs: s.rep(eng,st,ev,'once','a chunk is processed twice')
            if not any(op=='F' and mentions(a,s.ro.req) for op,a,b in st.facts): s.rep(eng,st,ev,'terminate','a chunk is processed although a termination may have been requested')
            return 1
        if ev.k=='write' and ev.loc==s.ro.cnt and not st.rs: s.rep(eng,st,ev,'once','a chunk counts as well-formed before it was processed')
    def end(s,eng,st,out):
        if out[0]=='ret' and not st.rs and not any(op=='T' and mentions(a,s.ro.req) for op,a,b in st.facts): s.R(eng,st,'once','a chunk is dropped')

class Thr(B):
    opaque=OPQ+(Q+'RemoteSubscriberThread::ThreadImpl',)
    def __init__(s,fn,ro): s.fn=fn; s.ro=ro; s.n=0; s.name='done'
    def init(s): return (0,0,0,0)       # ran, marked done, waiters notified, callback
    def on(s,eng,st,ev):
        s.top(ev)
        r,d,w,c=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and n=='ThreadImpl': s.n+=1; return (r+1,d,w,c)
        if ev.k=='write' and litv(ev.val)==1 and ev.loc[2:]==('subscriber_thread_done_',):
            if not r: s.rep(eng,st,ev,'thread-done','the subscription is marked done before its function has returned')
            return (r,1,w,c)
        if ev.k=='call' and n in('MutableScopedAccessor','SetValue','MutableUse','Notify') and ev.recv==s.ro.id: return (r,d,1 if d else w,c)
        if ev.k=='branch' and mentions(ev.val,s.ro.cb):
            pol=ev.pol; v=ev.val
            while isinstance(v,tuple) and v[0]=='!': v=v[1]; pol=not pol
            return (r,d,w,c if pol else 9)
        if ev.k=='call' and (ev.q or '').startswith('std::function::operator()') and ev.recv==s.ro.cb:
            if not d: s.rep(eng,st,ev,'thread-done','the done callback is called before the subscription is marked done')
            return (r,d,w,c+1)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        r,d,w,c=st.rs
        if r!=1 or not d: s.R(eng,st,'thread-done','the thread does not run its function exactly once and mark the subscription done')
        if not w: s.R(eng,st,'thread-done','those who wait for the end of the subscription are not notified after it is marked done')
        if c not in(1,9): s.R(eng,st,'thread-done','the done callback is not called exactly once')

class Dtor(B):
    opaque=OPQ+(Q+'RemoteSubscriberThread::TerminateSubscription',)
    def __init__(s,fn,ro): s.fn=fn; s.ro=ro; s.n=0; s.name='join'
    def init(s): return 0
    def on(s,eng,st,ev):
        s.top(ev)
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and n=='TerminateSubscription': return 1
        if ev.k=='call' and ev.q=='std::thread::join':
            s.n+=1
            if not st.rs: s.rep(eng,st,ev,'join','the thread is joined without having been told to terminate')
            return 2
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs!=2 and any(op=='T' and isinstance(a,tuple) and path_root(a)==THIS for op,a,b in st.facts): s.R(eng,st,'join','the thread is not joined')

class Repl(B):
    def __init__(s,fn): s.fn=fn; s.n=0; s.name='replicate'
    def init(s): return 0
    def on(s,eng,st,ev):
        s.top(ev)
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='call' and n in('Publish','PublishUnsafe','UpdateHead') and 'ublisher' in (ev.q or '')+(ev.cls or ''):
            s.n+=1
            if st.rs: s.rep(eng,st,ev,'replicate','an entry is published twice')
            a=[deepval(eng,st,x) for x in ev.args or ()]; ps=[('p',i) for i in range(3)]
            isp=lambda t,i: isinstance(t,tuple) and mentions_kind(t,lambda x: isinstance(x,tuple) and (x[:2]==('p',i) or x[0]=='v' and len(x)>3 and x[2]==s.fn.params[i]['d']))
            T=s.fn.params
            if not a: ok=False
            elif len(T)==1: ok=n=='UpdateHead' and isp(a[0],0)
            elif 'string' in s.F.tystr(T[0]['ty']): ok=n=='PublishUnsafe' and isp(a[0],0)
            else: ok=n=='Publish' and isp(a[0],0) and len(a)>1 and isp(a[1],1) and 'us' in path_fields(a[1])[-1:]
            if not ok: s.rep(eng,st,ev,'replicate','what is published is not what was passed, with its own timestamp')
            return 1
    def end(s,eng,st,out):
        if out[0]=='ret' and not st.rs: s.R(eng,st,'replicate','what was passed is not published')
        if out[0]=='ret' and litv(out[1])==0: s.R(eng,st,'replicate','the replication is ended')

def run(c):
    F=lib.facts('w_repl.cc')
    ro=Roles(F)
    en=enumvals(F,'ss::EntryResponse'); 
    if en and en.get('Done')!=0: raise Broken('EntryResponse::Done is not 0')
    def go(f,r,rule,need=True):
        e=Engine(F,r); r.F=F; e.run(f)
        if need and not r.n: c.violation(rule,f.file,f.line,'the operation is not performed at all',f.q)
        c.from_engine(e); c.obligation(rule,F.recfull(f)[:200]+'::'+F.display(f)); return r
    for f in c.need(F.find(Q+'RemoteStreamSubscriber::PassEntryToSubscriber'),'PassEntryToSubscriber'):
        r=go(f,Entry(f,ro,'Unchecked' not in (f.ta or '')),'line')
        if not r.n['entry'] or not r.n['head']: c.violation('once',f.file,f.line,'entries or head updates are not passed to the subscriber',f.q)
    for f in c.need(F.find(Q+'RemoteStreamSubscriber::PassChunkToSubscriber'),'PassChunkToSubscriber'):
        r=go(f,Chunk(f,ro),'framing')
        if not r.kept: c.violation('framing',f.file,f.line,'an incomplete line is not kept',f.q)
    for f in c.need(F.find(Q+'RemoteSubscriberThread::ThreadImpl'),'ThreadImpl'):
        for x in('StreamTerminatedBySubscriber','RemoteStreamMalformedChunkException','RemoteStreamDoesNotRespondException'):
            r=go(f,Loop(f,ro,F,'current::stream::'+x),'thread')
            if not r.term: c.violation('terminate',f.file,f.line,'the subscriber is never asked to terminate',f.q)
    for f in c.need(F.find(Q+'RemoteSubscriberThread::OnChunk'),'OnChunk'): go(f,OnChunk(f,ro),'on-chunk')
    for f in c.need(F.find(Q+'RemoteSubscriberThread::Thread'),'Thread'): go(f,Thr(f,ro),'thread-done')
    for f in c.need(F.find(Q+'RemoteSubscriberThread::~RemoteSubscriberThread'),'~RemoteSubscriberThread'): go(f,Dtor(f,ro),'join')
    for f in c.need(F.find('current::stream::StreamReplicatorImpl::operator()'),'StreamReplicatorImpl::operator()'): go(f,Repl(f),'replicate')
    for k,n in(('line',4),('framing',2),('thread',9),('on-chunk',2),('thread-done',2),('join',2),('replicate',5)): c.floor(k,n)
