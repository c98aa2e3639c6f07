"""Shared rules over the two persisters (blocks/persistence/file.h, memory.h).
The roles of the fields (appender, rewriter, offsets, timestamps, end, head, lock, entries) are resolved by type."""
from rulelib import *
import lib

ASSUME=['memory exhaustion (std::bad_alloc) is out of scope',
        'a method of the file persister instantiated for AlreadyLocked is called with the publishing mutex of the stream held (decided by P31/P04 for its callers)',
        'the C++ standard library behaves as documented']

def dval(eng,st,t):
    """the value behind a term which may be a location"""
    for _ in range(6):
        if not isinstance(t,tuple): return t
        if t[0]=='c' and len(t)==3 and isinstance(t[1],str) and (t[1].startswith('ctor:') or t[1].endswith('::operator-conv')): t=t[2]; continue
        v=eng.lookup(st,t) if t[0] in('v','t','f','*') else t
        if v==t or v is None: return t
        t=v
    return t

class Roles:
    """field roles of the persister implementation record"""
    def __init__(s,F,recq):
        rs=[r for r in F.recs.values() if r['q']==recq and r.get('fields')]
        if not rs: raise Broken('record %s not found'%recq)
        s.F=F; s.d={}; s.ownlock=False
        for r in rs[:1]:
            for f in r['fields']:
                t=F.types[f['ty']]; x=t['s']
                if 'atomic_that_works' in x or x.startswith('std::atomic'): s.d[f['n']]='end'
                elif 'basic_ofstream' in x or 'std::ofstream' in x: s.d[f['n']]='app'
                elif 'basic_fstream' in x or 'std::fstream' in x: s.d[f['n']]='rew'
                elif x.startswith('std::deque') or 'std::deque' in x: s.d[f['n']]='entries'
                elif 'vector' in x and ('fpos' in x or 'streampos' in x): s.d[f['n']]='offs'
                elif 'vector' in x and ('duration' in x or 'microseconds' in x): s.d[f['n']]='tss'
                elif 'fpos' in x or 'streampos' in x: s.d[f['n']]='hoff'
                elif 'std::mutex' in x: s.d[f['n']]='lock'; s.ownlock='&' not in x
                elif 'duration' in x or 'microseconds' in x: s.d[f['n']]='head'
                elif 'basic_string' in x: s.d[f['n']]='name'
        s.inv={v:k for k,v in s.d.items()}
    def need(s,*names):
        for n in names:
            if n not in s.inv: raise Broken('the persister has no field in the role "%s" (fields: %s)'%(n,s.d))
    def of(s,loc):
        """role of a location: a field of the persister implementation, directly"""
        if isinstance(loc,tuple) and loc[0]=='*' and isinstance(loc[1],tuple) and loc[1][0]=='f' and s.d.get(loc[1][2])=='lock': loc=loc[1]
        if isinstance(loc,tuple) and loc[0]=='f' and loc[2] in s.d and isinstance(loc[1],tuple) and loc[1][0] not in('v','t'):
            if path_root(loc)[0] not in('v','t'): return s.d[loc[2]]
        return None
    def inside(s,loc):
        while isinstance(loc,tuple):
            r=s.of(loc)
            if r: return r
            if loc[0] in('f','*','&'): loc=loc[1]
            elif loc[0]=='c' and len(loc)>2: loc=loc[2]
            else: return None
        return None

def is_stream_write(ev):
    return ev.q and ev.q.rsplit('::',1)[-1] in('operator<<','write','put')
def stream_of(ev):
    if ev.recv is not None: return ev.recv
    return ev.args[0] if ev.args else None

def flushing(ev):
    l=ev.q.rsplit('::',1)[-1]
    if l=='flush': return True
    for a in ev.args or ():
        if isinstance(a,tuple) and a[0]=='fn': return True   # std::endl / std::flush
    return False

def good(st,stream):
    """the stream is known to have no error"""
    for op,a,b in st.facts:
        if isinstance(a,tuple) and a[0]=='c' and len(a)>2 and a[2]==stream:
            l=a[1].rsplit('::',1)[-1]
            if op=='T' and l in('good','operator-conv','operator bool') : return True
            if op=='F' and l in('fail','bad','operator!'): return True
    return False
def known_bad(st,stream):
    for op,a,b in st.facts:
        if isinstance(a,tuple) and a[0]=='c' and len(a)>2 and a[2]==stream:
            l=a[1].rsplit('::',1)[-1]
            if op=='F' and l in('good','operator-conv','operator bool') : return True
            if op=='T' and l in('fail','bad','operator!'): return True
    return False

THROWING=('current::JSON','current::ParseJSON')
class Base(Rule):
    exc=True
    opaque=('current::ss::Incons',)
    def __init__(s,ro,fn,need_lock): s.ro=ro; s.fn=fn; s.need_lock=need_lock; s.name='persist'
    def throws(s,eng,e,fr):
        q=e.get('q','')
        if q.startswith(THROWING): return [('any',)]
        l=q.rsplit('::',1)[-1]
        if l in('emplace_back','push_back') and s.ro.inv.get('entries'):
            # constructs the user's entry, which may throw; the container itself is unchanged then
            return [('any',)]
        return False
    def viol(s,eng,st,ev,rule,msg): eng.report(ev.fr,ev.line,msg,st,rule=rule)
    def at_end(s,eng,st,rule,msg): eng.report(None,s.fn.line,msg,st,file=s.fn.file,rule=rule)
    def locked(s,st): return any(s.ro.of(m)=='lock' for m in st.held)
    def lockcheck(s,eng,st,ev,what):
        if s.need_lock and not s.locked(st): s.viol(eng,st,ev,'publish-lock','%s without holding the lock of the persister'%what)
    def endv(s,eng,st,which):
        """current value of the components of the published end"""
        for k,b in s.endbase(st): pass
        return None

class Publish(Base):
    """one publish / update-head operation; rs=(flags frozenset, I, T, OFF, sub)"""
    def __init__(s,ro,fn,need_lock,kind,kindfile,endf):
        Base.__init__(s,ro,fn,need_lock); s.kind=kind; s.file=kindfile; s.endf=endf; s.n=0
    def init(s): return (frozenset(),None,None,None)
    def rename_rs(s,rs,ren): return (rs[0],)+tuple(ren(x) if x is not None else None for x in rs[1:])
    def on(s,eng,st,ev):
        fl,I,T,OFF=st.rs
        ro=s.ro
        if ev.k=='call' and s.need_lock and (ev.q or '').endswith(('time::Now','time::TimestampAsMicroseconds')) and any('DefaultTimeArgument' in eng.F.types[p['ty']]['s'] for p in s.fn.params) and not s.locked(st):
            s.viol(eng,st,ev,'timestamp-guard','the current time is taken before the lock of the persister: two publishers may be ordered against their timestamps')
        if ev.k=='call' and not ev.ctor:
            tgt=stream_of(ev); r=ro.of(tgt) if tgt is not None else None
            if r in('app','rew'):
                if is_stream_write(ev):
                    s.lockcheck(eng,st,ev,'writing to the stream file'); s.n+=1
                    if 'end' in fl: s.viol(eng,st,ev,'visible-after-written','the file is written after the entry or head was made visible to readers')
                    if r=='app' and s.kind!='head' and 'wr:app' not in fl and OFF is None: fl=fl|{'nooff'}
                    if r=='rew' and 'seek' not in fl: s.viol(eng,st,ev,'head-in-place','the head is rewritten without positioning the file at the last head directive')
                    fl=(fl-{'fl:'+r})|{'wr:'+r}
                    if flushing(ev): fl=fl|{'fl:'+r}
                    return (fl,I,T,OFF)
                if ev.q.endswith('::flush'):
                    return (fl|{'fl:'+r},I,T,OFF)
                if ev.q.endswith('::seekp') and r=='rew':
                    a=ev.args[0] if ev.args else None
                    if ro.of(a)=='hoff' or ro.of(dval(eng,st,a))=='hoff' : return (fl|{'seek'},I,T,OFF)
                    s.viol(eng,st,ev,'head-in-place','the head is rewritten at an offset other than the one of the last head directive')
                    return (fl|{'seek'},I,T,OFF)
            l=(ev.q or '').rsplit('::',1)[-1]
            r=ro.of(ev.recv) if ev.recv is not None else None
            if r in('offs','tss') and l in('pop_back','clear','resize','erase','insert','assign','operator='):
                s.viol(eng,st,ev,'append-only','the %s of the published entries are changed other than by appending one element'%('offsets' if r=='offs' else 'timestamps'))
            if r=='entries' and l in('pop_back','pop_front','clear','resize','erase','insert','assign','push_front','emplace_front','operator='):
                s.viol(eng,st,ev,'append-only','the published entries are changed other than by appending one element')
            if r in('offs','tss') and l in('push_back','emplace_back'):
                s.lockcheck(eng,st,ev,'appending to the index of entries'); s.n+=1
                if s.kind=='head': s.viol(eng,st,ev,'append-only','updating the head adds an entry to the index'); return
                if r in fl: s.viol(eng,st,ev,'append-only','two elements are appended to the %s for one entry'%('offsets' if r=='offs' else 'timestamps'))
                if 'end' in fl: s.viol(eng,st,ev,'visible-after-written','the entry is made visible to readers before its %s is recorded'%('offset' if r=='offs' else 'timestamp'))
                a=dval(eng,st,ev.args[0]) if ev.args else None
                if r=='offs':
                    if OFF is None or a!=OFF: s.viol(eng,st,ev,'offset-of-line','the recorded offset is not the position of the file taken before the line was written')
                    return (fl|{r},I,T,OFF)
                if T is None: T=a
                elif a!=T: s.viol(eng,st,ev,'same-timestamp','the timestamp recorded for the entry differs from the one it is published with')
                return (fl|{r},I,T,OFF)
            if r=='entries' and l in('push_back','emplace_back'):
                s.lockcheck(eng,st,ev,'appending the entry'); s.n+=1
                if s.kind=='head': s.viol(eng,st,ev,'append-only','updating the head adds an entry'); return
                if 'entries' in fl: s.viol(eng,st,ev,'append-only','two entries are appended by one publish')
                T=dval(eng,st,ev.args[0]) if ev.args else None
                if len(ev.args or ())<2: T=None
                H=eng.lookup(st,('f',ev.recv[1],ro.inv['head']))
                if T is not None and not s.after(st,H,T): s.viol(eng,st,ev,'timestamp-guard','the entry is appended without its timestamp being compared, under the same lock, with the current head')
                I=('c',ev.q[:len(ev.q)-len(l)]+'size',ev.recv)
                if s.kind=='raw':
                    ok=any(op=='==' and (isidx(a) or isidx(b)) and (unold(a)==I or unold(b)==I) for op,a,b in st.facts)
                    if not ok: s.viol(eng,st,ev,'index-consecutive','a raw line is published without its index being compared with the expected one')
                return (fl,I,T,OFF)
        if ev.k=='called':
            tgt=stream_of(ev); r=ro.of(tgt) if tgt is not None else None
            if r=='app' and ev.q.endswith('::tellp') and 'wr:app' not in fl: return (fl,I,T,ev.val)
            if r=='app' and ev.q.endswith('::tellp') and s.kind=='head': return (fl,I,T,ev.val)
            l=(ev.q or '').rsplit('::',1)[-1]
            if r=='entries' and l in('push_back','emplace_back') and s.kind!='head': return (fl|{'entries'},I,T,OFF)
            return
        if ev.k=='write':
            r=ro.of(ev.loc)
            if r=='hoff':
                s.lockcheck(eng,st,ev,'changing the offset of the head directive')
                v=dval(eng,st,ev.val); s.n+=1
                if 'end' in fl: pass
                if litv(v)==0: return (fl|{'hoff0'},I,T,OFF)
                if s.kind=='head' and v==OFF and v is not None:
                    return (fl|{'hoff'},I,T,OFF)
                s.viol(eng,st,ev,'head-in-place','the remembered offset of the head directive is not the position at which it was written')
                return (fl|{'hoff'},I,T,OFF)
            if r=='head':
                s.lockcheck(eng,st,ev,'changing the head'); s.n+=1
                v=dval(eng,st,ev.val); H=eng.lookup(st,ev.loc)
                if s.kind=='head':
                    if not s.after(st,H,v): s.viol(eng,st,ev,'timestamp-guard','the head is moved without being compared, under the same lock, with the current one')
                    return (fl|{'end'},I,v,OFF)
                if T is None: 
                    if not s.after(st,H,v): s.viol(eng,st,ev,'timestamp-guard','the head is moved without being compared, under the same lock, with the current one')
                    return (fl|{'end'},I,v,OFF)
                if v!=T: s.viol(eng,st,ev,'same-timestamp','the head is set to a value other than the timestamp of the entry')
                return (fl|{'end'},I,T,OFF)
            if r in('offs','tss','entries'): s.viol(eng,st,ev,'append-only','the index of the published entries is overwritten')
            if r=='end':
                return s.endwrite(eng,st,ev)
            return
    def after(s,st,H,T):
        return T is not None and H is not None and holds(st.facts,('<',H,T)) is True
    def endwrite(s,eng,st,ev):
        fl,I,T,OFF=st.rs; s.n+=1
        s.lockcheck(eng,st,ev,'publishing the new end')
        E=ev.loc; V=ev.val
        def cur(n): return eng.lookup(st,('f',E,n))
        def new(n):
            if isinstance(V,tuple) and V[0]=='il': return dval(eng,st,V[1+s.endf['order'].index(n)])
            return dval(eng,st,('f',V,n))
        n_=s.endf['next']; h_=s.endf['head']; l_=s.endf['last']
        nx,hd,la=new(n_),new(h_),new(l_)
        cn,ch,cl=cur(n_),cur(h_),cur(l_)
        if 'end' in fl: s.viol(eng,st,ev,'append-only','the end is advanced twice by one operation')
        if not s.after(st,ch,hd): s.viol(eng,st,ev,'timestamp-guard','the new head is published without being compared, under the same lock, with the current one')
        if s.kind=='head':
            if nx!=cn: s.viol(eng,st,ev,'index-consecutive','updating the head changes the number of published entries')
            if la!=cl: s.viol(eng,st,ev,'same-timestamp','updating the head changes the timestamp of the last published entry')
            T=hd
            st_app='wr:app' in fl; st_rew='wr:rew' in fl
            if not(st_app or st_rew): s.viol(eng,st,ev,'visible-after-written','the head is made visible to readers before it is written to the file')
            if st_app and 'hoff' not in fl: s.viol(eng,st,ev,'head-in-place','a head directive is appended without its offset being remembered')
        else:
            if nx not in(('b','+',cn,('lit',1)),('b','+',('lit',1),cn)): s.viol(eng,st,ev,'index-consecutive','the number of published entries is not advanced by exactly one')
            if hd!=la: s.viol(eng,st,ev,'same-timestamp','the head published with an entry differs from the timestamp of the entry')
            if T is not None and T!=la: s.viol(eng,st,ev,'same-timestamp','the timestamp recorded for the entry differs from the one it is published with')
            T=la; I=cn
            if 'wr:app' not in fl: s.viol(eng,st,ev,'visible-after-written','the entry is made visible to readers before it is written to the file')
            if 'nooff' in fl: s.viol(eng,st,ev,'offset-of-line','the line is written before its offset in the file is taken')
            if 'offs' not in fl or 'tss' not in fl: s.viol(eng,st,ev,'visible-after-written','the entry is made visible to readers before its offset and timestamp are recorded')
            if s.kind=='raw':
                ok=any(op=='==' and cn in(a,b) and (isidx(a) or isidx(b)) for op,a,b in st.facts)
                if not ok: s.viol(eng,st,ev,'index-consecutive','a raw line is published without its index being compared with the expected one')
        for r,what in(('app','line'),('rew','head')):
            if 'wr:'+r in fl:
                stream=('f',E[1],s.ro.inv[r])
                if 'fl:'+r not in fl: s.viol(eng,st,ev,'visible-after-written','the %s is made visible to readers before it is flushed to the file'%what)
                if not good(st,stream): s.viol(eng,st,ev,'write-checked','the %s is reported as published although writing it to the file was not checked to have succeeded'%what)
        return (fl|{'end'},I,T,OFF)
    def end(s,eng,st,o):
        fl,I,T,OFF=st.rs
        if o[0]=='exc':
            ch=fl&{'offs','tss','end','hoff','hoff0','entries'}
            if ch: s.at_end(eng,st,'failed-publish','an exception leaves the persister with part of its state changed (%s) by an operation that failed'%', '.join(sorted(NAMES[x] for x in ch)))
            w={x for x in('app','rew') if 'wr:'+x in fl}
            for r in w:
                bad=any(isinstance(a,tuple) and a[0]=='c' and len(a)>2 and s.ro.of(a[2])==r for op,a,b in st.facts)
                if not bad: s.at_end(eng,st,'failed-publish','an exception other than a failure to write leaves the file with a line that is not published')
            return
        if s.kind=='head': 
            if 'end' not in fl: s.at_end(eng,st,'index-consecutive','a path of updating the head succeeds without moving it')
            if s.file and 'wr:app' in fl and 'wr:rew' in fl: s.at_end(eng,st,'head-in-place','the head is both rewritten and appended')
            return
        need={'end'}|({'offs','tss','wr:app'} if s.file else {'entries'})
        if need-fl: s.at_end(eng,st,'index-consecutive','a path of publishing succeeds without recording the entry (missing: %s)'%', '.join(sorted(NAMES[x] for x in need-fl)))
        if s.file and 'hoff0' not in fl: s.at_end(eng,st,'head-in-place','publishing an entry does not invalidate the offset of the head directive: the next head update would overwrite a directive before the entry')
        ri=dval(eng,st,('f',('retval',),'index')); rt=dval(eng,st,('f',('retval',),'us'))
        if I is not None and not s.file and ri==('b','-',I0(I),('lit',1)): ri=I
        if s.kind=='raw':
            if isidx(ri): ri=None
            if T is not None and rt!=T: s.at_end(eng,st,'returned-position','the timestamp returned by publish differs from the one the entry is published with')
            return
        if I is not None and ri!=I: s.at_end(eng,st,'returned-position','the index returned by publish is not the index of the published entry')
        if T is not None and rt!=T: s.at_end(eng,st,'returned-position','the timestamp returned by publish differs from the one the entry is published with')
def I0(t): return unold(t)
def unold(t):
    while isinstance(t,tuple) and t[0]=='old': t=t[2]
    if isinstance(t,tuple) and t[0]=='c' and len(t)==3 and isinstance(t[2],tuple): return ('c',t[1],unold(t[2]))
    return t
def isidx(t):
    return isinstance(t,tuple) and ((t[0]=='f' and t[2]=='index') or (t[0]=='old' and isidx(t[2])))
def issize(t):
    return isinstance(t,tuple) and ((t[0]=='c' and t[1].endswith('::size')) or (t[0]=='old' and issize(t[2])))
NAMES={'offs':'offsets','tss':'timestamps','end':'end/head','hoff':'offset of the head directive','hoff0':'offset of the head directive','entries':'entries','wr:app':'line in the file'}

def setup(c):
    F=lib.facts('w_persist.cc'); c.units.add('w_persist.cc')
    FQ='current::persistence::impl::FilePersister'; MQ='current::persistence::impl::MemoryPersister'
    fr=[r['q'] for r in F.recs.values() if r['q'].startswith(FQ+'::') and any('ofstream' in F.types[f['ty']]['s'] for f in r.get('fields',()))]
    mr=[r['q'] for r in F.recs.values() if r['q'].startswith(MQ+'::') and any('std::deque' in F.types[f['ty']]['s'] for f in r.get('fields',()))]
    if not fr or not mr: raise Broken('persister implementation records not found')
    fro=Roles(F,fr[0]); fro.need('end','app','rew','offs','tss','lock')
    mro=Roles(F,mr[0]); mro.need('entries','head','lock')
    # the components of the published end
    er=[r for r in F.recs.values() if r['q']==FQ+'::end_t'] or [r for r in F.recs.values() if r['q'].startswith(FQ+'::') and len(r.get('fields',()))==3 and sum('duration' in F.types[f['ty']]['s'] or 'microseconds' in F.types[f['ty']]['s'] for f in r['fields'])==2]
    if not er: raise Broken('record of the published end not found')
    fs=er[0]['fields']
    endf={'order':[f['n'] for f in fs]}
    for f in fs:
        x=F.types[f['ty']]['s']
        if 'duration' in x or 'microseconds' in x: endf['head' if 'head' in f['n'] else 'last']=f['n']
        else: endf['next']=f['n']
    if set(endf)!={'order','head','last','next'}: raise Broken('components of the published end not recognised: %s'%endf)
    return F,FQ,MQ,fro,mro,endf

def mls(f,ro):
    """whether the function has to take the lock itself: always if the lock is the persister's own, as "already locked" is said of the lock of the stream"""
    return ro.ownlock or 'NeedToLock' in (f.ta or '').split(',')[0]

PUB=[('PersisterPublishImpl','entry'),('PersisterPublishUnsafeImpl','raw'),('PersisterUpdateHeadImpl','head')]
def publish_rules(c,only):
    """run the publish automaton; keep the reports of the rules in `only`"""
    F,FQ,MQ,fro,mro,endf=setup(c)
    for Q,ro,isfile in((FQ,fro,True),(MQ,mro,False)):
        for name,kind in PUB:
            fs=F.find(Q+'::'+name)
            if not fs: raise Broken('%s::%s not found'%(Q,name))
            for f in fs:
                r=Publish(ro,f,mls(f,ro),kind,isfile,endf)
                e=Engine(F,r); e.run(f)
                if not r.n and not e.reports: raise Broken('no state change seen in '+f.q)
                e.reports=[x for x in e.reports if x['rule'] in only]
                c.from_engine(e)
                c.obligation('%s-%s'%('file' if isfile else 'memory',kind),F.display(f)+' '+(f.ta or '')[:120])
    for k in('file','memory'):
        for _,kind in PUB: c.floor('%s-%s'%(k,kind),2)
    return F,FQ,MQ,fro,mro,endf

# ---------------------------------------------------------------------------------------------------------------
def subterms(t):
    if isinstance(t,tuple):
        yield t
        for c in t:
            if isinstance(c,tuple): yield from subterms(c)

class Quiet(Rule):
    opaque=('current::ss::Incons',)
    exc=False
    def __init__(s,fn,name='persist'): s.fn=fn; s.name=name; s.n=0
    def viol(s,eng,st,ev,rule,msg): eng.report(ev.fr,ev.line,msg,st,rule=rule)
    def at_end(s,eng,st,rule,msg): eng.report(None,s.fn.line,msg,st,file=s.fn.file,rule=rule)

class Range(Quiet):
    """the bounds with which a range of entries is constructed"""
    def __init__(s,fn,ro,endf,need_lock,bytime): Quiet.__init__(s,fn); s.ro=ro; s.endf=endf; s.need_lock=need_lock; s.bytime=bytime
    def init(s): return (False,())     # (looked for the range, sizes read before)
    def rename_rs(s,rs,ren): return (rs[0],tuple(ren(x) for x in rs[1]))
    def size(s,t):
        t=unold(t)
        while isinstance(t,tuple) and t[0]=='old': t=unold(t[2])
        if not isinstance(t,tuple): return False
        if s.ro.inv.get('end'): return t[0]=='f' and t[2]==s.endf['next'] and s.ro.of(unold(t[1]))=='end'
        return t[0]=='c' and t[1].endswith('::size') and s.ro.of(unold(t[2]))=='entries'
    def on(s,eng,st,ev):
        lb,sz=st.rs
        if ev.k=='called' and not lb:
            q=ev.q or ''
            if ev.val is not None and s.size(ev.val): return (lb,sz+(ev.val,))
        if ev.k=='access' and not lb and ev.mode=='r' and s.ro.of(ev.loc)=='end': return (lb,sz+(('f',ev.loc,s.endf['next']),))
        if ev.k=='call' and (ev.q or '').startswith(('std::lower_bound','std::upper_bound','std::equal_range','std::partition_point','std::binary_search')): return (True,sz)
        if ev.k=='access' and s.need_lock and s.ro.of(ev.loc) in('offs','tss','entries','hoff') and not any(s.ro.of(m)=='lock' for m in st.held):
            s.viol(eng,st,ev,'read-locked','the index of entries is read without the lock of the persister'); return
        if ev.k=='call' and ev.ctor and 'IterableRangeImpl' in (ev.q or '') and ev.fn is not None and len(ev.args)>=3:
            s.n+=1
            b=dval(eng,st,ev.args[1]); e=dval(eng,st,ev.args[2])
            if b==e: return     # empty
            if holds(st.facts,('<',b,e)) is not True: s.viol(eng,st,ev,'range-bounds','a range is made without its begin being known to precede its end')
            def below(x):
                if s.size(x): return True
                if isinstance(x,tuple) and x[0]=='c' and x[1].startswith('std::min'): 
                    if any(below(y) for y in x[2:]): return True
                return any((op in('<=','<') and a==x and s.size(bb)) or (op=='==' and x in(a,bb) and (s.size(a) or s.size(bb))) for op,a,bb in st.facts)
            if not below(e): s.viol(eng,st,ev,'range-bounds','the end of a range is not compared with the number of published entries: readers would run past it')
            if s.bytime:
                for t in subterms(e):
                    if s.size(t) and not any(t==x or unold(t)==unold(x) and same_old(t,x) for x in sz):
                        s.viol(eng,st,ev,'range-bounds','the end of a time range is extended to entries published after the range was looked up'); break
            if len(ev.args)>=4 and s.ro.inv.get('offs'):
                o=dval(eng,st,ev.args[3])
                ok=isinstance(o,tuple) and o[0]=='c' and len(o)>3 and s.ro.of(unold(o[2]))=='offs' and unold(o[3])==unold(b)
                if not ok and litv(o) is None: s.viol(eng,st,ev,'range-offset','the range starts at an offset other than the one recorded for its first entry')
                if litv(o) is not None and b!=('lit',0): s.viol(eng,st,ev,'range-offset','the range starts at an offset other than the one recorded for its first entry')
def same_old(a,b): return True

class Search(Quiet):
    """translation of timestamps to indexes"""
    def __init__(s,fn,ro,need_lock): Quiet.__init__(s,fn); s.ro=ro; s.need_lock=need_lock; s.found=set()
    def on(s,eng,st,ev):
        if ev.k=='access' and s.need_lock and s.ro.of(ev.loc) in('tss','entries') and not any(s.ro.of(m)=='lock' for m in st.held):
            s.viol(eng,st,ev,'read-locked','the timestamps of the entries are searched without the lock of the persister')
        if ev.k=='call' and (ev.q or '').startswith(('std::lower_bound','std::upper_bound')) and len(ev.args)>=3:
            low='lower' in ev.q; s.n+=1
            p=dval(eng,st,ev.args[2])
            i=next((j for j,pp in enumerate(s.fn.params) if isinstance(p,tuple) and any(isinstance(x,tuple) and x[0] in('v','p') and pp['n'] in x for x in subterms(p))),None)
            s.found.add((low,i))
            if i==0 and not low: s.viol(eng,st,ev,'range-inclusive','the beginning of a time range skips the entry with exactly this timestamp')
            if i==1 and low: s.viol(eng,st,ev,'range-inclusive','the end of a time range drops the entry with exactly this timestamp')
            if len(ev.args)>3:
                clo=ev.args[3]
                if isinstance(clo,tuple) and clo[0] in('v','t'): clo=eng.lookup(st,clo)
                if isinstance(clo,tuple) and clo[0]=='clo':
                    for fid in clo[2]:
                        g=eng.F.fns.get(fid)
                        if g is None: continue
                        class Z(Rule):
                            def on(z,e2,st2,ev2):
                                if ev2.k!='ret' or ev2.fr.fn is not g: return
                                v=ev2.val
                                def rel(op,a,b):
                                    """+1 p0<p1, -1 not (p0<p1), 0 something else, for `a op b`"""
                                    ia,ib=pidx(a,g),pidx(b,g)
                                    if {ia,ib}!={0,1}: return 0
                                    if ia==1: op={'<':'>','>':'<','<=':'>=','>=':'<='}.get(op)
                                    return {'<':1,'>=':-1}.get(op,0)
                                if litv(v) is not None: r=next((x if litv(v) else -x for x in (rel(*f) for f in st2.facts if f[0] in('<','<=')) if x),0)
                                else: r=max([rel(*f) for f in norm(v,True) if f[0] in('<','<=')],default=0)
                                if r!=1: s.viol(eng,st,ev,'range-inclusive','the timestamps are searched with a comparison which is not "strictly less", of the searched timestamp and of the one of an entry')
                        Engine(eng.F,Z()).run(g)
def lin(t):
    k=0
    while isinstance(t,tuple):
        if t[0]=='lit': return None,k+t[1]
        if t[0]=='b' and t[1]=='+' and litv(t[3]) is not None: k+=litv(t[3]); t=t[2]
        elif t[0]=='b' and t[1]=='+' and litv(t[2]) is not None: k+=litv(t[2]); t=t[3]
        elif t[0]=='b' and t[1]=='-' and litv(t[3]) is not None: k-=litv(t[3]); t=t[2]
        else: break
    return t,k

def pidx(t,g):
    for x in subterms(t):
        if x[0]=='p': return x[1]
        if x[0]=='v':
            for i,p in enumerate(g.params):
                if p['d']==x[2]: return i
    return None

class Last(Quiet):
    """last published index and timestamp, head"""
    def __init__(s,fn,ro,endf,need_lock): Quiet.__init__(s,fn); s.ro=ro; s.endf=endf; s.need_lock=need_lock
    def isend(s,t,n): return isinstance(t,tuple) and t[0]=='f' and t[2]==s.endf[n] and s.ro.of(unold(t[1]))=='end'
    def on(s,eng,st,ev):
        if ev.k=='access' and s.need_lock and s.ro.of(ev.loc) in('tss','entries','head','offs') and not any(s.ro.of(m)=='lock' for m in st.held):
            s.viol(eng,st,ev,'read-locked','the state of the persister is read without its lock')
        if ev.k=='call' and ev.ctor and (ev.cls or '').split('<')[0] in('current::ss::CSI_IndexAndTimestamp','current::ss::IndexAndTimestamp','current::ss::HeadAndOptionalIndexAndTimestamp') or \
           ev.k=='call' and ev.ctor and ev.fn is not None and any(x in (ev.cls or '') for x in('IndexAndTimestamp',)):
            a=[dval(eng,st,x) for x in ev.args]
            ints=[x for x in a if isinstance(x,tuple) and x[0]=='b']
            for x in ints:
                if x[1] in('-','+') and x[3]==('lit',1):
                    y=unold(x[2]); size=s.isend(y,'next') if s.ro.inv.get('end') else issize(y)
                    if size:
                        s.n+=1
                        if x[1]=='+': s.viol(eng,st,ev,'last-published','the last index is not the number of entries minus one')
                        nz=holds(st.facts,('T',x[2],None)) is True or holds(st.facts,('!=',)+srt(x[2],('lit',0))) is True or holds(st.facts,('<',('lit',0),x[2])) is True or \
                           any(op=='F' and isinstance(t,tuple) and t[0]=='c' and t[1].endswith('::empty') for op,t,_ in st.facts)
                        if not nz: s.viol(eng,st,ev,'last-published','the last index is taken from a persister not known to be non-empty')
                        if s.ro.inv.get('end'):
                            us=[z for z in a if s.isend(unold(z),'head') or s.isend(unold(z),'last')]
                            if us and not s.isend(unold(us[-1]),'last'): s.viol(eng,st,ev,'last-published','the timestamp reported for the last entry is the head and not the timestamp of the entry')
            for x in a:
                if len(ev.args)>=2 and (s.isend(unold(x),'next') if s.ro.inv.get('end') else issize(unold(x))) : s.viol(eng,st,ev,'last-published','the index reported as the last published one is the one of the next entry')

class Cursor(Quiet):
    """the entry handed out by dereferencing an iterator is the one at its position"""
    def init(s): return False
    def on(s,eng,st,ev):
        if ev.k=='write' and isinstance(ev.loc,tuple):
            p=path_fields(ev.loc)
            if p and p[-1]=='index' and len(p)>=2 and path_root(ev.loc)!=THIS:
                s.n+=1
                v=dval(eng,st,ev.val)
                def pos(t): return isinstance(t,tuple) and t[0]=='f' and t[1]==THIS
                ok=any(op=='==' and v in(a,b) and (pos(a) or pos(b)) for op,a,b in st.facts) or pos(v)
                if not ok: s.viol(eng,st,ev,'cursor-position','an entry is handed out by an iterator without its index being compared with the position of the iterator')
                return True
    def end(s,eng,st,o):
        if o[0]=='ret' and not st.rs: s.at_end(eng,st,'cursor-position','a path of dereferencing an iterator returns an entry which was not read')

class MemCursor(Quiet):
    def __init__(s,fn,ro): Quiet.__init__(s,fn); s.ro=ro
    def on(s,eng,st,ev):
        if ev.k=='access' and s.ro.of(ev.loc)=='entries' and not any(s.ro.of(m)=='lock' for m in st.held): s.viol(eng,st,ev,'read-locked','an iterator reads the container of entries without its lock')
        if ev.k=='call' and s.ro.of(ev.recv)=='entries' and ev.q.rsplit('::',1)[-1] in('operator[]','at'):
            s.n+=1
            v=dval(eng,st,ev.args[0])
            if not(isinstance(v,tuple) and v[0]=='f' and v[1]==THIS): s.viol(eng,st,ev,'cursor-position','an iterator reads an entry other than the one at its position')
        if ev.k=='call' and ev.ctor and 'IndexAndTimestamp' in (ev.cls or '') and len(ev.args)==2 and not ev.e.get('cp'):
            v=dval(eng,st,ev.args[0])
            if not(isinstance(v,tuple) and v[0]=='f' and v[1]==THIS): s.viol(eng,st,ev,'cursor-position','an iterator hands out an index other than its position')

class Replay(Quiet):
    """ProcessNextEntry: what is passed on has the expected index and a timestamp past the previous one"""
    def init(s): return (None,None)   # index, us of the entry passed on
    def rename_rs(s,rs,ren): return tuple(ren(x) if x is not None else None for x in rs)
    def on(s,eng,st,ev):
        if ev.k=='call' and not ev.ctor and ev.recv is not None and isinstance(ev.recv,tuple) and ev.recv[0]=='p' and len(ev.args or ())==2:
            s.n+=1
            c=ev.args[0]
            i=dval(eng,st,('f',c,'index')); u=dval(eng,st,('f',c,'us'))
            def nxt(t,n): return isinstance(t,tuple) and t[0]=='f' and t[2]==n and path_root(t)==THIS
            if not any(op=='==' and i in(a,b) and (nxt(a,'index') or nxt(b,'index')) for op,a,b in st.facts): s.viol(eng,st,ev,'replay-index','an entry is accepted without its index being compared with the expected one')
            if not any((op in('<','<=') and nxt(a,'us') and b==u) for op,a,b in st.facts): s.viol(eng,st,ev,'replay-timestamp','an entry is accepted without its timestamp being compared with the one of its predecessor')
            s.nx=next((a if nxt(a,'index') else b for op,a,b in st.facts if op=='==' and i in(a,b) and (nxt(a,'index') or nxt(b,'index'))),None)
            s.nu=next((a for op,a,b in st.facts if op in('<','<=') and nxt(a,'us') and b==u),None)
            s.strict=any(op=='<' and a==s.nu and b==u for op,a,b in st.facts)
            return (i,u)
    def end(s,eng,st,o):
        i,u=st.rs
        if o[0]=='ret' and i is not None and getattr(s,'nx',None) is not None and getattr(s,'nu',None) is not None:
            ni=eng.lookup(st,s.nx); nu=eng.lookup(st,s.nu)
            if ni not in(('b','+',i,('lit',1)),('b','+',('lit',1),i)): s.at_end(eng,st,'replay-index','the expected index is not advanced by exactly one per entry')
            if not s.strict and nu not in(('b','+',u,('lit',1)),('b','+',('lit',1),u)): s.at_end(eng,st,'replay-timestamp','the lowest acceptable timestamp is not moved past the timestamp of the entry: an equal timestamp would be accepted')
            if s.strict and nu!=u: s.at_end(eng,st,'replay-timestamp','the last timestamp is not remembered')

class Validate(Quiet):
    """replaying the file at startup: one offset and one timestamp per entry, monotone head, complete lines only"""
    def __init__(s,fn,ro,endf): Quiet.__init__(s,fn); s.ro=ro; s.endf=endf; s.stored=0; s.handlers=set()
    def init(s): return (frozenset(),None,None,None)    # flags, T, offset variable, head variables
    def rename_rs(s,rs,ren): return (rs[0],ren(rs[1]) if rs[1] is not None else None,rs[2],rs[3])
    def isentry(s,fn):
        if '(lambda)' not in fn.q and fn.lastq!='operator()': return None
        if len(fn.params)==2: return 'entry'
        if len(fn.params)==1: return 'dir'
        return None
    def on(s,eng,st,ev):
        fl,T,OV,HV=st.rs
        ro=s.ro
        if ev.k=='enter' and ev.fn is not None and s.isentry(ev.fn) and ev.fn.file==s.fn.file:
            s.handlers.add(s.isentry(ev.fn))
            return (frozenset({s.isentry(ev.fn)}),None,OV,HV)
        if ev.k=='call' and ro.of(ev.recv) in('offs','tss') and ev.q.rsplit('::',1)[-1] in('push_back','emplace_back'):
            r=ro.of(ev.recv); s.n+=1
            if 'entry' not in fl: s.viol(eng,st,ev,'replay-one-per-entry','the %s is extended for a line which is not an entry'%('offsets' if r=='offs' else 'timestamps')); return
            if r in fl: s.viol(eng,st,ev,'replay-one-per-entry','two elements are recorded for one entry of the file')
            if r=='offs':
                if not any(op=='F' and isinstance(a,tuple) and a[0]=='c' and a[1].endswith('::eof') for op,a,b in st.facts): s.viol(eng,st,ev,'replay-incomplete-line','an entry is accepted from a last line which may be incomplete')
                a=ev.args[0]
                OV=a if isinstance(a,tuple) and a[0]=='v' else OV
                return (fl|{r},T,OV,HV)
            T=dval(eng,st,ev.args[0])
            HV=tuple(sorted({L for L,x in st.store.items() if isinstance(L,tuple) and L[0]=='v' and x!=T and holds(st.facts,('<',x,T)) is True} | {a for op,a,b in st.facts if op=='<' and b==T and isinstance(a,tuple) and a[0]=='v'},key=repr))
            if not HV: s.viol(eng,st,ev,'replay-timestamp','an entry is accepted without its timestamp being compared with the head')
            return (fl|{r},T,OV,HV)
        if ev.k=='write':
            r=ro.of(ev.loc)
            if r is None and isinstance(ev.loc,tuple) and ev.loc[0]=='f' and s.ro.d.get(ev.loc[2]): r=s.ro.d[ev.loc[2]]
            if r=='hoff':
                v=dval(eng,st,ev.val)
                return (fl|({'hoff0'} if litv(v)==0 else {'hoffd'}),T,OV,HV)
            if r=='end':
                s.stored+=1
                V=ev.val
                if isinstance(V,tuple) and V[0]=='il': new=lambda n: dval(eng,st,V[1+s.endf['order'].index(n)])
                else: new=lambda n: dval(eng,st,('f',V,n))
                s.ends=getattr(s,'ends',[]); s.ends.append([new(s.endf[x]) for x in('next','last','head')])
                h=new(s.endf['head']);
                nb,nc=lin(new(s.endf['next'])); lb,lc=lin(new(s.endf['last']))
                if isidx(nb) and (nc!=1 or lb!=nb[:-1]+('us',) or lc!=0): s.viol(eng,st,ev,'replay-end','after a restart the number of entries or the timestamp of the last one is not the one of the last entry in the file')
                if nb is None and nc==0 and (lb is not None or lc!=-1): s.viol(eng,st,ev,'replay-end','an empty file does not start with the initial timestamp')
                if HV and not any(eng.lookup(st,L)==h for L in HV): s.viol(eng,st,ev,'replay-head','the head after a restart is not the one of the last entry or head directive')
                return
            if ev.loc==OV and OV is not None: return (fl|{'moved'},T,OV,HV)
            if isinstance(ev.loc,tuple) and ev.loc[0]=='v' and 'dir' in fl and litv(dval(eng,st,ev.val)) is None and holds(st.facts,('<',eng.lookup(st,ev.loc),dval(eng,st,ev.val))) is True: return (fl|{'headmoved'},T,OV,HV)
            if isinstance(ev.loc,tuple) and ev.loc[0]=='v' and isinstance(dval(eng,st,ev.val),tuple):
                v=ev.val
                if isinstance(v,tuple) and v[0]=='r' and (ev.q or '').endswith('fpos::operator='): return (fl|{'moved'},T,OV,HV)
        if ev.k=='called' and (ev.q or '').endswith('::tellg'): return (fl|{'tellg'},T,OV,HV)
        if ev.k=='leave' and ev.fn is not None and ev.fn.file==s.fn.file and s.isentry(ev.fn):
            k=s.isentry(ev.fn)
            if 'tellg' not in fl or ('moved' not in fl): eng.report(ev.fr,ev.fn.line,'after a line of the file the offset of the next line is not taken',st,rule='replay-offset')
            if not(fl&{'hoff0','hoffd'}): eng.report(ev.fr,ev.fn.line,'after a line of the file the offset of an earlier head directive is still remembered',st,rule='replay-head')
            if k=='dir' and 'hoffd' in fl and 'headmoved' not in fl: eng.report(ev.fr,ev.fn.line,'replaying a head directive does not move the head to a value known to be past the previous head',st,rule='replay-head')
            if k=='entry':
                if 'offs' not in fl or 'tss' not in fl: eng.report(ev.fr,ev.fn.line,'an entry of the file is replayed without its offset and timestamp being recorded',st,rule='replay-one-per-entry')
                if HV and T is not None and not any(eng.lookup(st,L)==T for L in HV): eng.report(ev.fr,ev.fn.line,'replaying an entry does not move the head to its timestamp',st,rule='replay-head')
            return (frozenset(),None,OV,HV)

def read_rules(c,only):
    F,FQ,MQ,fro,mro,endf=setup(c)
    def go(r,f,rule,need=True):
        e=Engine(F,r); e.run(f)
        n=r.n
        e.reports=[x for x in e.reports if x['rule'] in only]
        c.from_engine(e); c.obligation(rule,F.display(f)+' '+(f.ta or '')[:100])
        return n
    for Q,ro in((FQ,fro),(MQ,mro)):
        tag='file' if ro is fro else 'memory'
        n=0
        for f in c.need(F.find(Q+'::PersisterIterateImpl'),Q+'::PersisterIterateImpl'):
            bt='duration' in F.types[f.params[0]['ty']]['s'] or 'microseconds' in F.types[f.params[0]['ty']]['s']
            n+=go(Range(f,ro,endf,mls(f,ro),bt),f,tag+'-range')
        if not n: raise Broken('no range is constructed in '+Q)
        n=0
        for f in c.need(F.find(Q+'::PersisterIndexRangeByTimestampRangeImpl'),Q+'::IndexRange'):
            n+=go(Search(f,ro,mls(f,ro)),f,tag+'-time-search')
        if not n: c.notes.append('no recognised search by timestamp in '+Q)
        n=0
        for nm in('PersisterLastPublishedIndexAndTimestampImpl','PersisterHeadAndLastPublishedIndexAndTimestampImpl','PersisterCurrentHeadImpl','PersisterEmptyImpl','PersisterSizeImpl'):
            for f in c.need(F.find(Q+'::'+nm),Q+'::'+nm):
                n+=go(Last(f,ro,endf,mls(f,ro)),f,tag+'-last-published')
        if not n: raise Broken('last published position not found in '+Q)
    n=0
    for f in c.need(F.find(FQ+'::Iterator::operator*'),'file iterator'): n+=go(Cursor(f),f,'file-cursor')
    if not n: raise Broken('the file iterator assigns no entry')
    n=0
    for nm in('Iterator','IteratorUnsafe'):
        for f in c.need(F.find(MQ+'::'+nm+'::operator*'),'memory iterator'): n+=go(MemCursor(f,mro),f,'memory-cursor')
    if not n: raise Broken('the memory iterator reads no entry')
    n=0
    for f in c.need(F.find('current::persistence::impl::IteratorOverFileOfPersistedEntries::ProcessNextEntry'),'ProcessNextEntry'): n+=go(Replay(f),f,'file-replay')
    if not n: raise Broken('ProcessNextEntry passes on no entry')
    for k in('file-range','memory-range','file-time-search','memory-time-search','file-last-published','memory-last-published','file-cursor','memory-cursor','file-replay'): c.floor(k,2)

def replay_rules(c,only):
    F,FQ,MQ,fro,mro,endf=setup(c)
    # the function which stores the published end and is not a publishing one: the replay at startup
    stores=lambda f: any(e['k']=='call' and e.get('q','').endswith('::store') for e in f.x.values())
    fs=[f for f in F.fns.values() if f.q.startswith(FQ+'::') and '(lambda)' not in f.q and stores(f) and any(e['k']=='call' and e.get('q','').endswith('::ProcessNextEntry') for e in f.x.values())]
    if not fs: raise Broken('the replay of the file at startup not found')
    for f in fs:
        r=Validate(f,fro,endf)
        e=Engine(F,r); e.run(f)
        if not r.stored or not r.n or r.handlers!={'entry','dir'}: raise Broken('the replay of the file not recognised in %s'%f.q)
        e.reports=[x for x in e.reports if x['rule'] in only]
        c.from_engine(e); c.obligation('file-validate',F.display(f))
    c.floor('file-validate',2)
