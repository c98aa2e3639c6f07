"""The replay of the storage (storage/container/*.h). Each mutator of each container is interpreted symbolically, and so is the
handler of each persisted event. On every path of a mutator the events it logs, handed to the handlers one after another in the
state before the mutator, have to give the state the mutator leaves, slot by slot, including the timestamps of the last
modifications; an event which is logged has a handler. The journal keeps the events in their order, and what is persisted are the events of the
journal in that order; what is replayed is every event of every transaction, in order."""
from storage import *
def check(c,F,con):
    A=Analysis(F,con)
    for fn,e,r in A.mut:
        for st,eff,pres in r.outs:
            def rep(m,rule='replay'): r.R(e,st,rule,m)
            w=World(con,pres); S=apply(con,w,{},eff,rep)
            logs=[x for x in eff if x[0]=='log']
            Rs=[{}]; ok=True
            for lg in logs:
                n=[]
                for R in Rs:
                    x=replay(con,w,R,lg,A.handlers,rep)
                    if x is None: rep('the event %s has no handler'%re.sub(r'[\w:]*::','',lg[1])); ok=False; break
                    n+=x
                if not ok: break
                if not n: rep('no path of the handler of the event can be taken'); ok=False; break
                Rs=n
            if not ok: continue
            for R in Rs:
                for k in sorted(set(S)|set(R),key=str):
                    f,ks=k
                    a=S.get(k); b=R.get(k)
                    a=w.init(f,ks) if a is None else a; b=w.init(f,ks) if b is None else b
                    if a is None and b is None: continue
                    if val(con,a)!=val(con,b):
                        rep('after replaying what is logged %s of %s is %s, and after the mutation itself it is %s'%(f,', '.join(fmtk(x) for x in ks),'unknown' if b is None else 'absent' if b=='ABSENT' else fmtk(b),'unknown' if a is None else 'absent' if a=='ABSENT' else fmtk(a)))
        c.from_engine(e); c.obligation('replay',A.name(fn)+' '+con.rec['full'][-60:],n=max(1,len(r.outs)))
    for h in A.handlers.values(): c.from_engine(h[3])
def run(c):
    F=lib.facts('w_storage.cc')
    P=lib.facts('w_storage.cc',('-DCURRENT_STORAGE_PATCH_SUPPORT',))
    for con in containers(F): check(c,F,con)
    for con in containers(P): check(c,P,con)
    c.floor('replay',40)
