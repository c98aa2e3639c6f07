"""The transactions of the storage (storage/storage.h, storage/transaction_policy.h). Each instantiation of
ReadWriteTransaction and ReadOnlyTransaction is followed along every path, including those on which the user's function throws: it runs under
the publishing mutex, in a read-write transaction only on the master; when it throws, everything is rolled back, once, before anything else, and
nothing is persisted; when it returns, the journal is persisted exactly once, before the caller is told that the
transaction was committed; the promise is fulfilled exactly once, with what has happened."""
from rulelib import *
import lib
ASSUME=['the user functions do not touch the storage after they have returned','the methods instantiated for AlreadyLocked are called with the publishing mutex held']
class Txn(Rule):
    cap=400; out_cap=400; exc=True
    opaque=('current::storage::MutationJournal','current::storage::TransactionResult','current::storage::persister','std::','verif_storage','current::Future','current::Exception')
    def __init__(s,fn,rw,need): s.fn=fn; s.rw=rw; s.need=need; s.name='transaction'; s.n=0; s.kinds=set()
    def init(s): return ()
    def R(s,eng,st,m,rule='transaction'): eng.report(s.fr0,s.fn.line,m,st,rule=rule)
    def inline(s,eng,fn): return '/witness/' not in (fn.file or '')
    def user(s,q): return (q or '').startswith('verif_storage::') and q.endswith('operator()')
    def throws(s,eng,e,fr):
        q=eng.F.fns[e['fn']].q if e.get('fn') in eng.F.fns else e.get('q') or ''
        if s.user(q): return [('any',)]
        if q.endswith('PersistJournalFromLockedSection'): return [('std','std::runtime_error')]
        return None
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        n=(ev.q or '').rsplit('::',1)[-1]
        t=st.rs
        if ev.k=='lock' and not s.need and 'publishing_mutex' in repr(ev.m): eng.report(ev.fr,ev.line,'the publishing mutex is locked although the caller holds it',st,rule='locked')
        if ev.k=='catch':
            # the exception of the call which was made last
            h=ev.h.get('rc'); q=eng.F.recs.get(h,{}).get('q','...').rsplit('::',1)[-1] if not ev.h.get('all') else '...'
            return t+(('catch',q),)
        if ev.k not in('call','called'): return
        if ev.k=='called':
            if s.user(ev.q): return t+(('returned',t[-1][0]),) if t and t[-1][0] in('f1','f2') else None
            if n=='PersistJournalFromLockedSection': return t+(('returned','persist'),)
            if n=='current_exception': return t+(('result','current',ev.val),)
            if n in('Committed','RolledBack'): return t+(('result',n,ev.val),)
            return
        x=None
        if s.user(ev.q):
            f1=any('Fields' in eng.F.types[p['ty']]['s'] or 'CURRENT_STORAGE_FIELDS' in eng.F.types[p['ty']]['s'] for p in ev.fn.params)
            s.n+=1
            x=('f1' if f1 else 'f2',)
        elif n in('BeforeTransaction','AfterTransaction','Rollback') and 'MutationJournal' in ev.q: x=(n,)
        elif n=='Clear' and 'MutationJournal' in ev.q: x=('Clear',)
        elif n=='PersistJournalFromLockedSection': x=('persist',)
        elif ev.q.startswith('std::promise') and n in('set_value','set_exception'):
            v=None
            if n=='set_value':
                vs=[eng.lookup(st,a) for a in ev.args]+list(ev.args)
                v=[y[1] for y in t if y[0]=='result' and any(y[2]==z for z in vs)] or [y[1] for y in t if y[0]=='result'][-1:]
                v=v[0] if v else '?'
            elif any(y[0]=='result' and y[1]=='current' and any(mentions(a,y[2]) or mentions(eng.lookup(st,a),y[2]) for a in ev.args) for y in t): v='current'
            x=(n,v)
        if x is None: return
        if s.need and x[0] not in('Committed','RolledBack') and not any('publishing_mutex' in repr(m) for m in st.held): eng.report(ev.fr,ev.line,'a part of the transaction (%s) runs without the publishing mutex'%x[0],st,rule='locked')
        if s.rw and x[0]=='f1' and not s.master(eng,st): eng.report(ev.fr,ev.line,'the transaction runs although the storage may not be the master',st,rule='master')
        return t+(x,)
    def master(s,eng,st): return any(op=='T' and 'IsMasterStorage' in repr(a) for op,a,b in st.facts)
    def end(s,eng,st,out):
        t=[x for x in st.rs if x[0]!='result']; k=[x[0] for x in t]
        R=lambda m,rule='transaction': s.R(eng,st,m,rule)
        pr=[x for x in t if x[0] in('set_value','set_exception')]
        f=k.index('f1') if 'f1' in k else None
        if k.count('f1')>1: R('the function of the transaction is called more than once')
        returned=('returned','f1') in t
        if out[0]=='exc':
            if f is None:
                if s.rw and s.master(eng,st) : R('an exception leaves the transaction before it has started')
                return
            if 'persist' not in k and s.rw and 'Rollback' not in k[f:]: R('an exception leaves the transaction and nothing is rolled back','rollback')
            if not returned and not any(x[0]=='f2' for x in t): R('an exception of the function leaves the transaction')
            return
        if out[0]!='ret': return
        if len(pr)!=1: R('the promise of the transaction is fulfilled %s'%('more than once' if pr else 'never'),'promise'); return
        pi=k.index(pr[0][0])
        if f is None:
            if pr[0][0]!='set_exception': R('the transaction is reported to be done, and its function was not called','promise')
            return
        persisted='persist' in k
        if not s.rw:
            if persisted: R('a read-only transaction is persisted')
        if returned:
            r=t.index(('returned','f1'))
            s.kinds.add('committed')
            if s.rw:
                if k.count('persist')!=1: R('the transaction is persisted %s'%('more than once' if persisted else 'not at all, and its function has returned'),'persist'); return
                p=k.index('persist')
                if ('returned','persist') not in t: R('the persisting of the transaction has failed, and the caller is told an outcome','persist')
                if p<r: R('the transaction is persisted before its function has returned','persist')
                if 'Rollback' in k[:p] or 'Clear' in k[:p]: R('the transaction is rolled back and persisted','persist')
                if 'BeforeTransaction' not in k[:f]: R('the time of the beginning of the transaction is not recorded before its function runs','meta')
                if 'AfterTransaction' not in k[f:p]: R('the time of the end of the transaction is not recorded before it is persisted','meta')
                if pi<p: R('the outcome of the transaction is reported before it is persisted','promise')
                if 'f2' in k and k.index('f2')<p: R('the second function runs before the transaction is persisted','persist')
            later=[x for x in t[r+1:] if x[0]=='catch']
            if not later and pr[0]!=('set_value','Committed'): R('the transaction has succeeded, and it is not reported to be committed','promise')
            if later and s.rw and pr[0]==('set_value','RolledBack'): R('the transaction was persisted, and it is reported to be rolled back','promise')
        else:
            c=[x for x in t[f+1:] if x[0]=='catch']
            s.kinds.add('rolled back')
            if persisted: R('the function has thrown, and the transaction is persisted','persist')
            if s.rw:
                if k.count('Rollback')!=1: R('the function has thrown, and the transaction is rolled back %s'%('more than once' if 'Rollback' in k else 'not at all'),'rollback')
                elif pi<k.index('Rollback'): R('the outcome of the transaction is reported before it is rolled back','promise')
                elif 'f2' in k and k.index('f2')<k.index('Rollback'): R('the second function runs before the transaction is rolled back','rollback')
            if pr[0]==('set_value','Committed'): R('the function has thrown, and the transaction is reported to be committed','promise')
            rb=c and 'Rollback' in c[0][1]
            if c and not rb and pr[0]!=('set_exception','current'): R('the function has thrown, and its exception is not passed to the caller','promise')
            if rb and pr[0][0]!='set_value' and 'f2' not in k: R('the function has asked for a rollback, and the caller gets an exception','promise')
def run(c):
    F=lib.facts('w_storage.cc')
    for nm,rw in(('ReadWriteTransaction',True),('ReadOnlyTransaction',False)):
        for f in c.need(F.find('current::storage::StorageImpl::'+nm),nm):
            r=Txn(f,rw,'NeedToLock' in (f.ta or '')); e=Engine(F,r); e.run(f)
            c.from_engine(e)
            if not r.n: raise Broken('%s: the function of the transaction is not called'%nm)
            if r.kinds!={'committed','rolled back'}: raise Broken('%s: the paths followed: %s'%(nm,r.kinds))
            c.obligation('transaction',nm+(f.ta or '')[:80])
    c.floor('transaction',14)
