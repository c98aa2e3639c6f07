"""The rollback of the storage (storage/container/*.h, storage/base.h). Each mutator of each container is interpreted
symbolically: which slots of the maps it sets or erases, under which keys, with which values, and which rollback closures it
logs. On every path the logged closures, applied in reverse order to the state after the mutator, have to give back the state
before it, slot by slot, including the timestamps of the last modifications; the journal has to keep every closure and to run
them from the last to the first."""
from storage import *
def check(c,F,con):
    A=Analysis(F,con)
    for fn,e,r in A.mut:
        for st,eff,pres in r.outs:
            w=World(con,pres)
            def rep(m,rule='rollback'): r.R(e,st,rule,m)
            S1=apply(con,w,{},eff,rep)
            logs=[x for x in eff if x[0]=='log']
            if S1 and not logs: rep('the container is changed and nothing is logged'); continue
            # different slots have to be different
            ks=list(S1)
            for i,a in enumerate(ks):
                for b in ks[i+1:]:
                    if a[0]==b[0] and len(a[1])==len(b[1]) and a[1]!=b[1] and not w.slots_distinct(a[0],a[1],b[1]):
                        rep('two entries of %s are changed which may be the same one'%a[0],'alias')
            runs=[]
            for lg in logs:
                clo=lg[3]
                if not(isinstance(clo,tuple) and clo and clo[0]=='clo'): rep('the rollback logged is not a closure'); runs.append([((),{})]); continue
                for cp in clo[4]:
                    if cp[1]=='r': rep('the rollback closure refers to a local variable of the function, which is gone when it runs','capture')
                key=(fn.id,lg)
                rr,ee=runclo(F,con,fn,clo)
                c.from_engine(ee)
                runs.append([(x[1],x[2]) for x in rr.outs])
            Ss=[S1]
            for rs in reversed(runs):
                Ss=[apply(con,w,S,ef,rep) for S in Ss for ef,pr in rs if feasible(con,w,S,pr)]
                if not Ss: rep('no path of the rollback can be taken'); break
            for S in Ss:
                for (f,k),v in S.items():
                    i=w.init(f,k)
                    if i is None: rep('the state of %s before the change is not known when it is logged'%f)
                    elif val(con,i)!=val(con,v):
                        rep('rolling back leaves %s of %s %s; before the change it was %s'%(f,', '.join(fmtk(x) for x in k),'absent' if v=='ABSENT' else fmtk(v),'absent' if i=='ABSENT' else fmtk(i)))
        c.from_engine(e); c.obligation('rollback',A.name(fn)+' '+con.rec['full'][-60:],n=max(1,len(r.outs)))
class Journal(Rule):
    cap=200; keep_root_facts=True
    def __init__(s,fn,ro): s.fn=fn; s.ro=ro; s.name='journal'; s.n=0
    def init(s): return ()
    def R(s,eng,st,m): eng.report(s.fr0,s.fn.line,m,st,rule='journal')
    def on(s,eng,st,ev):
        n=(ev.q or '').rsplit('::',1)[-1]
        r=ev.recv
        if ev.k=='call' and isinstance(r,tuple):
            p=path_fields(r)
            if len(p)==1 and p[0] in s.ro.logs and path_root(r)==THIS:
                if n in('push_back','emplace_back'):
                    v=ev.args[0] if ev.args else None
                    return st.rs+(('push',p[0],full(eng,st,v) if v else None,v),)
                if n=='pop_back' and ('pop_back',p[0]) in st.rs: return
                if n in('clear','pop_back','erase','swap','resize'): return st.rs+((n,p[0]),)
            if n=='operator()' and s.ro.rb in p:
                b=[x for x in st.rs if x[0]=='br'][:1]
                return tuple(b)+tuple(x for x in st.rs if x[0] not in('br','run','pop_back'))+(('run',full(eng,st,r)),)
            if n=='operator=' and path_root(r)==THIS and p: return st.rs+(('write',)+tuple(p),)
            if n=='clear' and p: return st.rs+(('clear',)+tuple(p),)
        if ev.k=='branch' and st.rs and st.rs[-1][0]=='br':
            if not any(x[0]=='run' for x in st.rs): return
            return st.rs[:-1]+(('br',ev.term.get('l'),ev.pol),)
        if ev.k=='branch': return st.rs+(('br',ev.term.get('l'),ev.pol),)
        if ev.k=='write' and is_loc_root_local(ev.loc) and isinstance(ev.val,tuple) and ev.val[0]=='b' and ev.val[1] in('+','-') and litv(ev.val[3])==1:
            x=('inc' if ev.val[1]=='+' else 'dec',)
            return st.rs if x in st.rs else (x,)+st.rs
        if ev.k=='write' and isinstance(ev.loc,tuple) and path_root(ev.loc)==THIS: return st.rs+(('write',)+tuple(path_fields(ev.loc)),)
class J: pass
def journal(c,F):
    ro=J()
    rec=[r for r in F.recs.values() if r['q']=='current::storage::MutationJournal' and r.get('fields')][0]
    ty={f['n']:F.types[f['ty']]['s'] for f in rec['fields']}
    ro.rb=[n for n,t in ty.items() if 'std::function' in t]; ro.cm=[n for n,t in ty.items() if 'unique_ptr' in t]
    if len(ro.rb)!=1 or len(ro.cm)!=1: raise Broken('the logs of the journal')
    ro.rb=ro.rb[0]; ro.cm=ro.cm[0]; ro.logs=(ro.rb,ro.cm)
    fs=[f for f in F.fns.values() if f.q.startswith('current::storage::MutationJournal::') and not f.implicit and '(lambda)' not in f.q]
    for f in fs:
        r=Journal(f,ro); e=Engine(F,r)
        if len(f.params)==2:
            def end(eng,st,out,r=r):
                if out[0]!='ret': return
                r.n+=1
                for n in ro.logs:
                    k=[x for x in st.rs if x[0]=='push' and x[1]==n]
                    if len(k)!=1: r.R(eng,st,'a mutation is not added to %s exactly once'%n)
                if any(x[0] in('clear','pop_back','erase','resize','swap') for x in st.rs): r.R(eng,st,'logging a mutation drops earlier ones')
                k=[x for x in st.rs if x[0]=='push' and x[1]==ro.rb]
                if k and not mentions_kind(k[0][2:],lambda t: t==('p',1,f.params[1]['n']) or isinstance(t,tuple) and t[0]=='v' and t[-1]==f.params[1]['n']): r.R(eng,st,'the rollback which is kept is not the one of the mutation')
            r.end=end; what='log'
        elif f.lastq=='Rollback':
            def end(eng,st,out,r=r):
                if out[0]!='ret': return
                r.n+=1
                for x in st.rs:
                    if x[0]=='run' and not(('dec',) in st.rs and ('inc',) not in st.rs) and not mentions_kind(x[1],lambda t: isinstance(t,tuple) and t[0]=='c' and isinstance(t[1],str) and t[1].rsplit('::',1)[-1] in('rbegin','crbegin','back','size','end') or t=='reverse_iterator'):
                        r.R(eng,st,'the rollbacks are not run from the last one to the first one')
                i=max([k for k,x in enumerate(st.rs) if x[0]=='run'] or [-1])
                for n in ro.logs:
                    if not any(x[0]=='clear' and x[1]==n for x in st.rs[i+1:]): r.R(eng,st,'%s is not cleared after the rollback'%n)
                if any(x[0]=='clear' and x[1]==ro.rb for x in st.rs[:i]): r.R(eng,st,'rollbacks are dropped before they are run')
                if i>=0:
                    r.ran=True
                    b=[x for x in st.rs if x[0]=='br']; a=[x for x in st.rs[i+1:] if x[0]=='br']
                    if not b or not a or a[0][1]!=b[0][1] or a[0][2]==b[0][2]: r.R(eng,st,'the loop over the rollbacks can end before all of them were run')
            r.end=end; what='rollback'
        elif f.lastq=='Clear':
            def end(eng,st,out,r=r):
                if out[0]!='ret': return
                r.n+=1
                for n in ro.logs:
                    if not any(x[0]=='clear' and x[1]==n for x in st.rs): r.R(eng,st,'clearing the journal keeps %s'%n)
                for n in('begin_us','end_us'):
                    if not any(x[0]=='write' and x[-1] in(n,'transaction_meta') for x in st.rs): r.R(eng,st,'clearing the journal keeps the timestamps of the transaction')
                if not any(x[0]=='clear' and x[-1]=='fields' for x in st.rs) and not any(x[0]=='write' and x[-1]=='transaction_meta' for x in st.rs): r.R(eng,st,'clearing the journal keeps the fields of the transaction')
            r.end=end; what='clear'
        else: continue
        e.run(f)
        if what=='rollback' and not getattr(r,'ran',False): e.report(r.fr0,f.line,'the rollbacks are not run',None,rule='journal')
        c.from_engine(e); c.obligation('journal',f.lastq+(' '+F.types[f.params[0]['ty']]['s'][-60:] if f.params else ''))
def run(c):
    F=lib.facts('w_storage.cc')
    P=lib.facts('w_storage.cc',('-DCURRENT_STORAGE_PATCH_SUPPORT',))
    for G in(F,P):
        for con in containers(G): check(c,G,con)
    journal(c,F)
    c.floor('rollback',40); c.floor('journal',10)

