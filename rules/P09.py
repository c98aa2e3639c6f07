"""The priority queue (blocks/mmq/mmpq.h): messages wait in a set ordered by (timestamp, index) until the head reaches them."""
from rulelib import *
import lib
from P10 import one,deep
ASSUME=['the consumer does not call the queue','std::set keeps its contract','DefaultTimeArgument stands for the current time']
Q='current::mmq::MMPQImpl'
class Roles:
    def __init__(s,F):
        s.q=one(F,Q,'the queue',lambda t:'set<' in t or 'map<' in t)
        s.last=one(F,Q,'the head',lambda t:'IndexAndTimestamp' in t or 'idxts_t' in t)
        s.mtx=one(F,Q,'the mutex',lambda t:t=='std::mutex')
        s.cv=one(F,Q,'the condition variable',lambda t:'condition_variable' in t)
        s.th=one(F,Q,'the thread',lambda t:t=='std::thread')
        s.cons=one(F,Q,'the consumer',lambda t:t.endswith('&'))
        s.bools=[f['n'] for r in F.recs.values() if r['q']==Q and r.get('fields') for f in r['fields'] if F.types[f['ty']]['s']=='bool']
class Base(Rule):
    cap=200; out_cap=200; keep_root_facts=True
    opaque=('current::CURRENT_ASSERTION','CURRENT_ASSERT','current::ss::Inconsistent','current::time')
    def __init__(s,fn,ro,F,des): s.fn=fn; s.ro=ro; s.F=F; s.n=0; s.name='mmpq'; s.des=des
    def rep(s,eng,st,ev,rule,m): eng.report(ev.fr,ev.line,m,st,rule=rule)
    def R(s,eng,st,rule,m): eng.report(s.fr0,s.fn.line,m,st,rule=rule)
    def isf(s,loc,*names):
        p=path_fields(loc) if isinstance(loc,tuple) else ()
        return bool(p) and path_root(loc)==THIS and p[0] in names
    def guard(s,eng,st,ev):
        locs=[ev.loc] if ev.k in('access','write') else [ev.recv]+list(ev.args or ()) if ev.k=='call' and not(ev.q or '').startswith('current::mmq') else []
        for l in locs:
            if l is not None and s.isf(l,s.ro.q,s.ro.last,s.des):
                s.n+=1
                if fld(s.ro.mtx) not in st.held: s.rep(eng,st,ev,'locked','the state of the queue is accessed without its mutex')
class Pub(Base):
    """rs: (index increments, emplaced, notified after, head timestamp changed)"""
    def init(s): return (0,0,0,0,())
    def on(s,eng,st,ev):
        s.guard(eng,st,ev)
        inc,emp,noti,us,ts=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and n=='TimestampAsMicroseconds': return (inc,emp,noti,us,ts+(ev.val,))
        if ev.k=='write' and s.isf(ev.loc,s.ro.last):
            f=path_fields(ev.loc)
            if f[-1]=='index':
                v=ev.val
                if not(isinstance(v,tuple) and v[0]=='b' and v[1]=='+' and ('lit',1) in v): s.rep(eng,st,ev,'publish','the index of the last message is not increased by one')
                return (inc+1,emp,noti,us,ts)
            return (inc,emp,noti,us+1,ts)
        if ev.k=='call' and n in('emplace','insert','emplace_hint') and s.isf(ev.recv,s.ro.q):
            s.n+=1
            it=None
            for a in ev.args or ():
                if not isinstance(a,tuple): continue
                for g in(a,('f',a,'index_timestamp')):
                    i=deep(eng,st,eng.lookup(st,('f',g,'index'))); u=deep(eng,st,eng.lookup(st,('f',g,'us')))
                    if i!=('f',g,'index'): it=(i,u)
            cur=deep(eng,st,eng.lookup(st,('f',fld(s.ro.last),'index')))
            if it is None: s.rep(eng,st,ev,'publish','the message is queued without an index and a timestamp')
            else:
                if it[0]!=cur or not inc: s.rep(eng,st,ev,'publish','the message is not queued under the next index')
                if it[1] not in ts and not any(deep(eng,st,eng.lookup(st,t))==it[1] for t in ts if isinstance(t,tuple)): s.rep(eng,st,ev,'publish','the message is not queued under its own timestamp')
            return (inc,emp+1,0,us,ts)
        if ev.k=='call' and s.isf(ev.recv,s.ro.q) and n in('erase','clear','extract','swap','merge'): s.rep(eng,st,ev,'publish','publishing drops messages')
        if ev.k=='notify' and s.isf(ev.loc,s.ro.cv): return (inc,emp,1 if emp else 0,us,ts)
    def end(s,eng,st,out):
        if out[0]!='ret': return
        inc,emp,noti,us,ts=st.rs
        s.n+=1
        if inc!=1 or emp!=1: s.R(eng,st,'publish','a message is not queued exactly once under a new index')
        if not noti: s.R(eng,st,'publish','the consumer is not notified of the message')
        if us: s.R(eng,st,'publish','publishing moves the head')
class Head(Base):
    def init(s): return (0,0,())
    def on(s,eng,st,ev):
        s.guard(eng,st,ev)
        w,noti,ts=st.rs
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='called' and n=='TimestampAsMicroseconds': return (w,noti,ts+(ev.val,))
        if ev.k=='write' and s.isf(ev.loc,s.ro.last):
            L=('f',fld(s.ro.last),'us')
            if ev.loc!=L: s.rep(eng,st,ev,'head','updating the head changes more than its timestamp'); return
            v=deep(eng,st,ev.val)
            s.n+=1
            cur=eng.lookup(st,L)
            if not any(holds(st.facts,('<',c,x)) is True for c in(cur,L) for x in(ev.val,v)): s.rep(eng,st,ev,'head','the head may be moved to a timestamp which is not greater')
            if not any(v in(t,deep(eng,st,t)) for t in ts): s.rep(eng,st,ev,'head','the head is not moved to the given timestamp')
            return (w+1,0,ts)
        if ev.k=='call' and s.isf(ev.recv,s.ro.q) and n not in('empty','size','begin','end','cbegin','cend'): s.rep(eng,st,ev,'head','updating the head changes the queue')
        if ev.k=='notify' and s.isf(ev.loc,s.ro.cv): return (w,1 if w else 0,ts)
    def end(s,eng,st,out):
        w,noti,ts=st.rs
        s.n+=1
        if out[0]=='ret' and w!=1: s.R(eng,st,'head','the head is not updated although the call succeeds')
        if out[0]=='ret' and not noti: s.R(eng,st,'head','the consumer is not notified of the new head')
        if out[0]!='ret' and w: s.R(eng,st,'head','the head is updated although the call fails')
class Cons(Base):
    """rs: the element handed over and not yet erased"""
    def init(s): return None
    def elem(s,t):
        """the iterator of the element t is a part of"""
        while isinstance(t,tuple) and t[0] in('f','*'):
            if t[0]=='*': return t[1]
            t=t[1]
        return None
    def begin(s,it): return isinstance(it,tuple) and it[0]=='c' and it[1].rsplit('::',1)[-1] in('begin','cbegin') and it[2]==fld(s.ro.q)
    def ready(s,facts):
        """True/False/None: the first message is known (not) to be up to the head"""
        q=fld(s.ro.q); us=('f',fld(s.ro.last),'us')
        for f in facts:
            if f[0] in('T','F') and isinstance(f[1],tuple) and f[1][0]=='c' and f[1][1].endswith('::empty') and f[1][2]==q:
                if f[0]=='T': return False
            if f[0] in('<','<=') and f[2]==us and isinstance(f[1],tuple) and f[1][0]=='f' and f[1][2]=='us' and s.begin(s.elem(f[1])): return True
            if f[0] in('<','<=') and f[1]==us and isinstance(f[2],tuple) and f[2][0]=='f' and f[2][2]=='us' and s.begin(s.elem(f[2])): return False if f[0]=='<' else None
        return None
    def on(s,eng,st,ev):
        s.guard(eng,st,ev)
        n=(ev.q or '').rsplit('::',1)[-1]
        if ev.k=='cvagain' or ev.k=='cvwait' and not ev.pred:
            s.n+=1
            if s.ready(st.facts) is not False: s.rep(eng,st,ev,'consume','the consumer may go on waiting although the first message can be processed')
            if not any(f[0]=='F' and f[1]==fld(s.des) for f in st.facts): s.rep(eng,st,ev,'consume','the consumer may go on waiting although the queue is being destroyed')
        if ev.k=='call' and n=='operator()' and ev.recv is not None and (s.ro.cons in path_fields(ev.recv)) and ev.fr.depth==0:
            s.n+=1
            it=s.elem(deep(eng,st,ev.args[0]) if isinstance(ev.args[0],tuple) and ev.args[0][0]=='v' else ev.args[0])
            if it is None or not s.begin(it): s.rep(eng,st,ev,'consume','the message given to the consumer is not the first one of the queue'); return ('?',)
            if st.rs is not None: s.rep(eng,st,ev,'consume','a message is given to the consumer twice')
            if s.ready(st.facts) is not True: s.rep(eng,st,ev,'consume','a message may be given to the consumer before the head reaches it')
            a=ev.args[1]
            i=deep(eng,st,eng.lookup(st,('f',a,'index'))) if isinstance(a,tuple) else None
            if not any(mentions(x,('f',('*',it),'index_timestamp')) for x in(a,eng.lookup(st,a),i) if x is not None): s.rep(eng,st,ev,'consume','the message is given to the consumer with the index or timestamp of another one')
            return it
        if ev.k=='call' and s.isf(ev.recv,s.ro.q) and n in('erase','extract'):
            if len(ev.args or ())>1: s.rep(eng,st,ev,'consume','messages which were not given to the consumer are removed')
            x=ev.args[0] if ev.args else None
            for _ in range(6):
                if isinstance(x,tuple) and x[0]=='c' and len(x)==3 and not s.begin(x): x=x[2]; continue
                y=deep(eng,st,x)
                if y==x: break
                x=y
            if st.rs is None: s.rep(eng,st,ev,'consume','a message is removed which was not given to the consumer')
            elif x!=st.rs and st.rs!=('?',): s.rep(eng,st,ev,'consume','another message than the one given to the consumer is removed')
            return (None,) if False else [None]
        if ev.k=='unlock' and st.rs is not None:
            s.rep(eng,st,ev,'consume','a message which was given to the consumer stays in the queue'); return [None]
        if ev.k=='call' and s.isf(ev.recv,s.ro.q) and n in('clear','swap'): s.rep(eng,st,ev,'consume','messages are dropped')
    def end(s,eng,st,out):
        s.n+=1
        if out[0]!='ret': s.R(eng,st,'consume','the consumer thread may end with an exception'); return
        if not any(f[0]=='T' and f[1]==fld(s.des) for f in st.facts) and s.ready(st.facts) is not False: s.R(eng,st,'consume','the consumer thread may end before the queue is destroyed')
        if s.ready(st.facts) is not False: s.R(eng,st,'consume','the consumer thread may end although the first message can be processed')
class Dtor(Base):
    def init(s): return (0,0,0)
    def on(s,eng,st,ev):
        s.guard(eng,st,ev)
        d,n,j=st.rs
        if ev.k=='write' and ev.loc==fld(s.des) : return (litv(ev.val)==1,0,j)
        if ev.k=='notify' and s.isf(ev.loc,s.ro.cv): return (d,1 if d else 0,j)
        if ev.k=='call' and (ev.q or '')=='std::thread::join':
            if not d or not n: s.rep(eng,st,ev,'destroy','the destructor waits for the consumer thread without having told it to end')
            if st.held: s.rep(eng,st,ev,'destroy','the destructor waits for the consumer thread with a mutex held')
            return (d,n,1)
    def end(s,eng,st,out):
        d,n,j=st.rs
        s.n+=1
        no=any(f[0]=='F' and isinstance(f[1],tuple) and f[1][0]=='f' and f[1][2] in s.ro.bools for f in st.facts) or any(f[0]=='F' and 'joinable' in repr(f[1]) for f in st.facts)
        if not j and not no: s.R(eng,st,'destroy','the consumer thread is not joined')
class Less(Base):
    def init(s): return None
    def end(s,eng,st,out):
        if out[0]!='ret': return
        s.n+=1
        v=deep(eng,st,out[1]) if isinstance(out[1],tuple) else out[1]
        r=[('p',0,s.fn.params[0]['n'])]
        def fa(o,n): return [t for t in(('f',('f',o,'index_timestamp'),n),)]
        A=('f',('f',THIS,'index_timestamp'),'us'); B=('f',('f',r[0],'index_timestamp'),'us')
        C=('f',('f',THIS,'index_timestamp'),'index'); D=('f',('f',r[0],'index_timestamp'),'index')
        eq=holds(st.facts,('==',)+srt(A,B)) is True; ne=holds(st.facts,('!=',)+srt(A,B)) is True
        lt=holds(st.facts,('<',A,B)) is True; gt=holds(st.facts,('<',B,A)) is True
        t=truth_of(st.facts,v)
        ok=(v==('b','<',A,B) and (ne or lt or gt)) or (v==('b','<',C,D) and eq) or (lt and t is True) or (gt and t is False) or (v==('b','<',('il',A,C),('il',B,D)))
        if isinstance(v,tuple) and v[0]=='c' and 'operator<' in v[1]: ok=v[2:]==(('il',A,C),('il',B,D)) or v[3:]==(('il',A,C),('il',B,D))
        if not ok: s.R(eng,st,'order','the messages are not ordered by their timestamps, and by their indexes when those are equal: one of them may be lost or overtake another')
def run(c):
    F=lib.facts('w_mmq.cc')
    ro=Roles(F)
    fs=[f for f in F.fns.values() if f.q.startswith(Q+'::') and not f.implicit and '(lambda)' not in f.q]
    c.need(fs,'the priority queue')
    # the flag of the destruction: the one the destructor sets
    des=None
    for f in fs:
        if f.dtor:
            class D(Rule):
                def on(s,eng,st,ev):
                    if ev.k=='write' and isinstance(ev.loc,tuple) and ev.loc[0]=='f' and ev.loc[2] in ro.bools and litv(ev.val)==1: s.f=ev.loc[2]
                f=None
            d=D(); Engine(F,d).run(f); des=d.f or des
    if des is None: des=[b for b in ro.bools if 'estruct' in b or 'top' in b or 'erminat' in b]; des=des[0] if des else ro.bools[0]
    for f in fs:
        n=f.q.rsplit('::',1)[-1]
        if n=='PublisherPublishImpl': r=Pub; k='publish'
        elif n=='PublisherUpdateHeadImpl': r=Head; k='head'
        elif n=='ConsumerThread': r=Cons; k='consume'
        elif f.dtor and f.q.rsplit('::',2)[-2]=='MMPQImpl': r=Dtor; k='destroy'
        elif n=='operator<': r=Less; k='order'
        else: continue
        r=r(f,ro,F,des)
        e=Engine(F,r); e.run(f)
        c.from_engine(e); c.obligation(k,F.recfull(f)[:120]+'::'+F.display(f))
    for k,n in(('publish',1),('head',1),('consume',1),('destroy',1),('order',1)): c.floor(k,n)
