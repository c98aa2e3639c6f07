"""Slot typestate of the in-memory queue (blocks/mmq/mmq.h), decided by an interprocedural automaton over every path of
Publish (all overloads, dropping and blocking), of the consumer thread and of the destructor: a slot goes
FREE->BEING_IMPORTED->READY->BEING_EXPORTED->FREE, each transition under the queue's mutex and from the checked previous
state; claiming a slot, advancing the head, numbering and time-stamping the message happen in one critical section, the
timestamp compared against the previous one in that same section; the payload is touched only by the slot's owner; READY
and FREE are followed by a notification; the consumer is called once per claimed slot with no lock held; a message that
is READY is not abandoned by the terminating consumer thread."""
from rulelib import *
import lib

OPAQUE=('current::ss::Incons',)

class Slot(Rule):
    exc=True
    opaque=OPAQUE
    def __init__(s,c,E,role,drop):
        s.c=c; s.E=E; s.inv={v:k for k,v in E.items()}; s.role=role; s.drop=drop; s.name='mmq-slot-'+role; s.locksets={}
        s.seen=set(); s.n=0
    # rs: (phase, elem, frozenset(flags), pendingNotify)
    def init(s): return ('idle',None,frozenset(),None)
    def rename_rs(s,rs,ren): return (rs[0],ren(rs[1]) if rs[1] is not None else None)+rs[2:]
    def throws(s,eng,e,fr):
        return False
    def elem(s,loc):
        """(element term, field) if loc is a slot's field"""
        x=loc; fs=[]
        while isinstance(x,tuple) and x[0]=='f':
            fs.append(x[2]); x=x[1]
        if isinstance(x,tuple) and x[0]=='c' and len(x)>2 and x[2]==fld('circular_buffer_') and fs: return x,fs[-1]
        return None,None
    def viol(s,eng,st,ev,msg): eng.report(ev.fr,ev.line,msg,st)
    def need_lock(s,eng,st,ev,what):
        k=what
        L=frozenset(st.held)
        s.locksets[k]=s.locksets.get(k,L)&L
        if not L: s.viol(eng,st,ev,'%s without holding the queue mutex'%what)
    def on(s,eng,st,ev):
        ph,el,fl,pn=st.rs
        if ev.k in('write','access'):
            loc=ev.loc
            e,f=s.elem(loc)
            w=ev.k=='write' or ev.mode=='w'
            if e is not None:
                s.n+=1
                if f=='status':
                    s.need_lock(eng,st,ev,'%s of the status of a slot'%('write' if w else 'read'))
                    if ev.k=='write':
                        v=litv(ev.val); nm=s.inv.get(v)
                        if nm is None:
                            s.viol(eng,st,ev,'status of a slot set to a value that is not a constant state'); return
                        s.seen.add(nm)
                        cur=lambda n: holds(st.facts,('==',)+srt(loc,('lit',s.E[n]))) is True or eng.lookup(st,loc)==('lit',s.E[n])
                        if nm=='BEING_IMPORTED':
                            if s.role!='pub': s.viol(eng,st,ev,'slot claimed for import outside of publishing')
                            if not cur('FREE'): s.viol(eng,st,ev,'slot claimed for import without having been observed FREE in the same critical section')
                            if ph!='idle': s.viol(eng,st,ev,'a second slot claimed by one publish')
                            return ('own',el,fl|{'claim'},pn)
                        if nm=='READY':
                            if ph!='own' or s.role!='pub': s.viol(eng,st,ev,'slot marked READY by a path that does not own it')
                            elif 'body' not in fl: s.viol(eng,st,ev,'slot marked READY before the message was stored in it')
                            return ('done',None,fl,'ready')
                        if nm=='BEING_EXPORTED':
                            if s.role!='cons': s.viol(eng,st,ev,'slot claimed for export outside of the consumer thread')
                            if not cur('READY'): s.viol(eng,st,ev,'slot claimed for export without having been observed READY in the same critical section')
                            if pn: s.viol(eng,st,ev,'next slot taken before notifying about the previous transition (%s)'%pn)
                            return ('own',None,frozenset(),pn)
                        if nm=='FREE':
                            if s.role=='cons' and (ph!='own' or 'called' not in fl): s.viol(eng,st,ev,'slot marked FREE before the message in it was handed to the consumer')
                            if s.role=='pub': s.viol(eng,st,ev,'slot marked FREE by a publisher')
                            return ('freed',None,fl,'free')
                    return
                if f in('message_body','index_timestamp'):
                    if s.role=='pub':
                        if f=='index_timestamp' and w and st.held and ph in('idle','own'):
                            v=ev.val if ev.k=='write' else None
                            fl=fl|{'slot_its'}
                            return (ph,el,fl,pn)
                        if ph!='own': s.viol(eng,st,ev,'%s of %s of a slot that this publisher does not own (%s)'%('write' if w else 'read',f,'already committed to the consumer' if ph=='done' else 'not allocated'))
                        if f=='message_body' and w: return (ph,el,fl|{'body'},pn)
                    else:
                        if ph!='own': s.viol(eng,st,ev,'%s of a slot used by the consumer thread while it does not own the slot'%f)
                    return
            p=path_fields(loc)
            if path_root(loc)==THIS and p:
                if p[0] in('head_','last_idx_ts_','destructing_'):
                    s.need_lock(eng,st,ev,'%s of %s'%('write' if w else 'read',p[0]))
                    s.n+=1
                    if ev.k=='write' and s.role=='pub':
                        if p==['head_']:
                            if el is None: el=eng.lookup(st,loc)
                            return (ph,el,fl|{'head'},pn)
                        if p==['last_idx_ts_','index']:
                            cur=eng.lookup(st,loc)
                            if ev.val not in(('b','+',cur,('lit',1)),): s.viol(eng,st,ev,'the index of a message is not its predecessor plus one')
                            if 'idx' in fl: s.viol(eng,st,ev,'the index is advanced twice for one message')
                            return (ph,el,fl|{'idx'},pn)
                        if p==['last_idx_ts_','us']:
                            cur=eng.lookup(st,loc)
                            if holds(st.facts,('<',cur,ev.val)) is not True and holds(st.facts,('<',loc,ev.val)) is not True:
                                s.viol(eng,st,ev,'the timestamp of the message is stored without being compared, in the same critical section, with the previous one')
                            return (ph,el,fl|{'us'},pn)
                        if p==['last_idx_ts_']: 
                            v=ev.val
                            us=eng.lookup(st,('f',v,'us')) if v is not None else None
                            cur=eng.lookup(st,('f',loc,'us'))
                            if holds(st.facts,('<',cur,us)) is not True: s.viol(eng,st,ev,'the timestamp of the message is stored without being compared, in the same critical section, with the previous one')
                            return (ph,el,fl|{'us','idx'},pn)
                    if ev.k=='write' and p==['destructing_'] and litv(ev.val)==1: return (ph,el,fl,'destructing')
            return
        if ev.k=='unlock' and s.role=='pub':
            if el is not None:
                if not inc_mod(st,eng.lookup(st,fld('head_')),el): s.viol(eng,st,ev,'the head index is not advanced by exactly one slot per message')
                el=None
            part=fl&{'claim','head','idx','us','slot_its'}
            if part and part!={'claim','head','idx','us','slot_its'} and ph!='done':
                s.viol(eng,st,ev,'the queue mutex is released with a half-made allocation: missing %s'%', '.join(sorted({'claim','head','idx','us','slot_its'}-part)))
            return (ph,None,fl,pn)
        if ev.k=='cvwait':
            if pn: s.viol(eng,st,ev,'waiting before notifying about the transition (%s)'%pn)
            if not ev.pred:
                # a bare wait has to sit in a loop which re-checks the condition: the facts are gone anyway
                pass
            return
        if ev.k=='notify':
            if pn in('ready','destructing') and not ev.all and not s.drop:
                s.viol(eng,st,ev,'notify_one() after %s: publishers and the consumer wait on the same condition variable'%pn)
            return (ph,el,fl,None)
        if ev.k in('call','enter') and ev.e is not None and s.role=='cons' and ev.k=='call' and not ev.ctor:
            if isinstance(ev.recv,tuple) and path_fields(ev.recv)[:1]==['consumer_'] and (ev.q or '').endswith('operator()') and len(path_fields(ev.recv))==1 and 'EntrySubscriber' in (ev.cls or ''):
                s.n+=1
                if st.held: s.viol(eng,st,ev,'the consumer is called with the queue mutex held')
                if ph!='own': s.viol(eng,st,ev,'the consumer is called without a claimed slot')
                if 'called' in fl: s.viol(eng,st,ev,'the consumer is called twice for one slot')
                ok=False
                b,f1=s.elem(ev.args[0]); t,f2=s.elem(ev.args[1]) if len(ev.args)>1 else (None,None)
                tv=eng.lookup(st,ev.args[1]) if len(ev.args)>1 else None
                if t is None: t,f2=s.elem(tv) if isinstance(tv,tuple) else (None,None)
                if t is None and len(ev.args)>1:
                    # a copy of the index and timestamp
                    u=eng.lookup(st,('f',ev.args[1],'us')); t,f2=s.elem(u) if isinstance(u,tuple) else (None,None)
                if b is None or f1!='message_body':
                    bv=eng.lookup(st,ev.args[0]); b,f1=s.elem(bv) if isinstance(bv,tuple) else (None,None)
                if f1=='message_body' and (t is None or f2!='index_timestamp' or b!=t): s.viol(eng,st,ev,'the index/timestamp handed to the consumer is not the one of the message handed to it')
                return (ph,el,fl|{'called'},pn)
            return
    def end(s,eng,st,o):
        ph,el,fl,pn=st.rs
        class E: pass
        ev=E(); ev.fr=None; ev.line=0
        if st.held: eng.report(None,s.fn.line,'a path leaves %s with the mutex held'%s.fn.lastq,st,file=s.fn.file)
        if pn: eng.report(None,s.fn.line,'a path of %s ends without notifying about the transition (%s)'%(s.fn.lastq,pn),st,file=s.fn.file)
        if s.role=='pub' and ph=='own': eng.report(None,s.fn.line,'a path of %s leaves a claimed slot uncommitted: the consumer would wait for it forever'%s.fn.lastq,st,file=s.fn.file)
        if s.role=='pub' and o[0]=='ret' and ph=='idle' and (fl-{'slot_its'}): eng.report(None,s.fn.line,'a path of %s numbers a message it does not store'%s.fn.lastq,st,file=s.fn.file)
        if s.role=='cons' and o[0]=='ret':
            if ph in('own',): eng.report(None,s.fn.line,'the consumer thread ends while owning a slot',st,file=s.fn.file)
            # every READY message has to be handed out before the thread ends
            ok=any(op=='!=' and ((litv(a)==s.E['READY'] and s.isstatus(b)) or (litv(b)==s.E['READY'] and s.isstatus(a))) or
                   (op=='==' and ((litv(a) is not None and litv(a)!=s.E['READY'] and s.isstatus(b)) or (litv(b) is not None and litv(b)!=s.E['READY'] and s.isstatus(a)))) for op,a,b in st.facts)
            if not ok: eng.report(None,s.fn.line,'the consumer thread may end while the next message is READY: accepted messages would never be delivered',st,file=s.fn.file)
    def isstatus(s,t):
        e,f=s.elem(t) if isinstance(t,tuple) else (None,None)
        if f=='status': return True
        return isinstance(t,tuple) and t[0]=='old' and s.isstatus(t[2])

def inc_mod(st,v,cur):
    """v == (cur + 1) mod size, in any of its usual spellings"""
    plus=('b','+',cur,('lit',1)); plus2=('b','+',('lit',1),cur)
    if isinstance(v,tuple) and v[0]=='b' and v[1]=='%' and v[2] in(plus,plus2) : return True
    for pl in(plus,plus2):
        if v==pl or v in (plus,plus2):   # no wrap on this path: cur+1 != size must be known
            return any(op in('!=','<') and (a==pl or b==pl) for op,a,b in st.facts) or any(op in('!=','<') and (a==cur or b==cur) for op,a,b in st.facts)
        if v==('lit',0): 
            if any(op in('==','<=') and (a==pl or b==pl) for op,a,b in st.facts): return True
    return False

def run(c):
    F=lib.facts('w_mmq.cc'); c.units.add('w_mmq.cc')
    F.canon('current::mmq::MMQImpl',[('circular_buffer_',r'^std::vector<'),('consumer_',r'EntrySubscriber'),('circular_buffer_size_',r'^size_t|unsigned long'),('head_',r'^size_t|unsigned long'),
        ('last_idx_ts_','IndexAndTimestamp|idxts_t'),('consumer_thread_created_','bool'),('destructing_','bool')])
    F.canon('current::mmq::MMQImpl::Entry',[('index_timestamp','IndexAndTimestamp|idxts_t'),('status','enum|Entry::|unnamed|anonymous'),('message_body','.')])
    E={}
    for r in F.recbyq.get('current::mmq::MMQImpl::Entry',()):
        for f in r.get('fields',()):
            if f['n']=='status': E.update({n:v for n,v in f.get('enum',())})
    E={k:v for k,v in E.items()}
    if set(E)!={'FREE','BEING_IMPORTED','READY','BEING_EXPORTED'}: raise Broken('slot states not found: %s'%E)
    if len(set(E.values()))!=4: raise Broken('slot states are not distinct')
    tail_rule(c,F,E)
    pubs=[f for f in F.find('current::mmq::MMQImpl::PublisherPublishImpl')]
    for f in pubs:
        drop='true' in F.recfull(f).split(',')[-1]
        r=Slot(c,E,'pub',drop); r.fn=f
        e=Engine(F,r); e.run(f)
        c.from_engine(e); c.obligation('mmq-publish',F.display(f)+' '+str(f.ta))
        for n in {'BEING_IMPORTED','READY'}-r.seen: c.violation('mmq-slot-pub',f.file,f.line,'publishing never marks a slot '+n,f.q)
        common(c,r,f)
    for f in F.find('current::mmq::MMQImpl::ConsumerThread'):
        r=Slot(c,E,'cons','true' in F.recfull(f).split(',')[-1]); r.fn=f
        e=Engine(F,r); e.run(f)
        c.from_engine(e); c.obligation('mmq-consumer',F.display(f))
        for n in {'BEING_EXPORTED','FREE'}-r.seen: c.violation('mmq-slot-cons',f.file,f.line,'the consumer never marks a slot '+n,f.q)
        common(c,r,f)
    for f in F.find('current::mmq::MMQImpl::~MMQImpl'):
        r=Dtor(); r.fn=f
        e=Engine(F,r); e.run(f); c.from_engine(e); c.obligation('mmq-dtor',F.display(f))
    # nobody else touches the slots
    allowed=set()
    c.floor('mmq-publish',8); c.floor('mmq-consumer',2); c.floor('mmq-dtor',2)

def common(c,r,f):
    for k,v in r.locksets.items():
        if not v: continue
    ls=[v for v in r.locksets.values()]
    if ls and not frozenset.intersection(*ls):
        c.violation('mmq-slot-lockset',f.file,f.line,'the slots\' state is not consistently protected by one mutex',f.q)

class Dtor(Rule):
    name='mmq-destructor'; exc=False
    def init(s): return (False,False,False)   # flag set, notified after, joined
    def on(s,eng,st,ev):
        a,b,j=st.rs
        if ev.k=='write' and path_fields(ev.loc)==['destructing_']:
            if not st.held: eng.report(ev.fr,ev.line,'destructing_ set without the mutex: the consumer may miss it and never stop',st)
            return (True,False,j)
        if ev.k=='notify' and a: return (a,True,j)
        if ev.k in('call',) and (ev.q or '').endswith('thread::join'):
            if not(a and b): eng.report(ev.fr,ev.line,'consumer thread joined before it was told to stop and notified',st)
            if st.held: eng.report(ev.fr,ev.line,'consumer thread joined with the queue mutex held',st)
            return (a,b,True)
    def end(s,eng,st,o):
        created=holds(st.facts,('T',fld('consumer_thread_created_'),None))
        if not st.rs[2] and created is not False: eng.report(None,s.fn.line,'a path of the destructor does not join the consumer thread',st,file=s.fn.file)

def tail_rule(c,F,E):
    """the consumer goes over the slots in the order in which publishers claim them: after a slot is freed the local
    position is advanced by one slot, exactly once, before the next slot is looked at"""
    for f in F.find('current::mmq::MMQImpl::ConsumerThread'):
        class T(Rule):
            name='mmq-fifo'; opaque=OPAQUE
            def init(s): return ('start',None)
            def on(s,eng,st,ev):
                ph,idx=st.rs
                if ev.k in('write',):
                    loc=ev.loc
                    if isinstance(loc,tuple) and loc[0]=='f' and loc[2]=='status' and isinstance(loc[1],tuple) and loc[1][0]=='c' and loc[1][2]==fld('circular_buffer_'):
                        v=litv(ev.val)
                        if v==E['BEING_EXPORTED']: return ('claimed',loc[1][3])
                        if v==E['FREE'] and ph!='claimed': eng.report(ev.fr,ev.line,'a slot is freed without having been claimed in this turn of the loop',st)
                if ev.k=='loophead' and ph=='claimed' and ev.fr.fn is s.fn:
                    var=[k for k in st.store if k[0]=='v' and k[1]==ev.fr.id and k[2] in s.idxvars]
                    if not any(inc_mod(st,st.store[k],idx) for k in var):
                        eng.report(ev.fr,ev.line,'after a message the consumer does not advance to exactly the next slot',st)
                    return ('start',None)
            def rename_rs(s,rs,ren): return (rs[0],ren(rs[1]) if rs[1] is not None else None)
            def isidx(s,eng,loc): return loc[2] in s.idxvars
            def end(s,eng,st,o): pass
        r=T(); r.fn=f
        # the index variables: locals used to subscript the buffer in this thread
        r.idxvars=set()
        for e in f.x.values():
            if e['k']=='call' and e.get('op')=='[]' and e.get('a'):
                t=f.x[e['a'][0]]
                while t['k'] in('load','cast'): t=f.x[t['e']]
                if t['k']=='ref': r.idxvars.add(t['d'])
        if not r.idxvars: raise Broken('the consumer thread does not subscript the buffer by a local')
        e=Engine(F,r); e.run(f); c.from_engine(e); c.obligation('mmq-fifo',F.display(f))
