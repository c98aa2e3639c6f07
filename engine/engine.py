"""Interprocedural, path-sensitive-at-automaton-state (ESP style) dataflow engine over the facts of dump_facts.

The abstract state is: the locks held, a store of symbolic access-path values, the set of branch facts that are known
to hold, the live objects with destructors, and the automaton state of the rule being decided.  Calls with a body are
spliced in (context-sensitively), lambdas and references are resolved, destructors run at scope exits and on unwinding.
No path condition is handed to a solver: the only pruning is by syntactic contradiction of known branch facts.
"""
import sys
sys.setrecursionlimit(20000)
from facts import children

DEFAULT_OPAQUE=('CURRENT_ASSERTION_FAILED','current::strings::','current::Exception::','current::time::Now','current::time::SetNow','current::ToString',
  'current::JSON','current::ParseJSON','current::TryParseJSON','current::reflection::','current::serialization::','current::Singleton','current::ThreadLocalSingleton','current::FromString')

class Broken(Exception): pass

LOCK_CLASSES=('std::lock_guard','std::unique_lock','std::scoped_lock','std::shared_lock')
NONMUT={'begin','end','cbegin','cend','rbegin','rend','find','at','front','back','data','top','c_str','str','lower_bound','upper_bound',
        'equal_range','get','size','empty','length','count','good','bad','fail','eof','is_open','joinable','get_id','native_handle','operator->','operator*','operator bool','operator-conv','what','rdbuf','first','second','owns_lock','substr','max_size','capacity'}
TRANSPARENT={'std::move','std::forward','std::ref','std::cref','std::addressof','std::__addressof','std::as_const','std::reference_wrapper::get'}

def is_loc_root_local(t):
    if isinstance(t,tuple) and t[0]=='f':
        r=t
        while isinstance(r,tuple) and r[0]=='f': r=r[1]
        if isinstance(r,tuple) and r[0] in('r','il','w','x','p','c0'): return True
    while isinstance(t,tuple):
        if t[0] in ('v','t','new','p'): return True
        if t[0] in ('f','*','&','cpy'): t=t[1]
        elif t[0]=='c': t=t[2] if len(t)>2 else None
        elif t[0]=='tail': t=t[1]
        else: return False
    return False

def root(t):
    while isinstance(t,tuple) and t[0] in ('f','*','&'): t=t[1]
    return t

def mentions(t,x):
    if t==x: return True
    return isinstance(t,tuple) and any(mentions(c,x) for c in t if isinstance(c,tuple))

def alias_elem(t,L):
    """t and L are the same field of (possibly) the same element of one container"""
    while t[0]=='f' and L[0]=='f':
        if t[2]!=L[2]: return False
        t,L=t[1],L[1]
        if not isinstance(t,tuple) or not isinstance(L,tuple): return False
    return t[0]=='c' and L[0]=='c' and len(t)>2 and len(L)>2 and t[2]==L[2] and t!=L

def depth(t):
    if not isinstance(t,tuple): return 0
    d=0
    for c in t:
        if isinstance(c,tuple):
            x=depth(c)
            if x>d: d=x
    return d+1

def fmt(t):
    r=fmt_(t)
    return r if len(r)<160 else r[:150]+'...'

def fmt_(t):
    if not isinstance(t,tuple): return str(t)
    k=t[0]
    if k=='R': return 'this'
    if k=='v': return t[3] if len(t)>3 else 'local'
    if k=='t': return 'tmp'
    if k=='f': return fmt(t[1])+'.'+str(t[2])
    if k=='*': return '*'+fmt(t[1])
    if k=='&': return '&'+fmt(t[1])
    if k=='c': return t[1].split('::')[-1]+'('+','.join(fmt(x) for x in t[2:])+')'
    if k=='b': return '('+fmt(t[2])+t[1]+fmt(t[3])+')'
    if k=='!': return '!'+fmt(t[1])
    if k=='lit': return str(t[1])
    if k=='g': return t[1]
    if k=='old': return 'old'
    if k=='r': return 'ret#'+str(t[2])
    if k=='lk': return 'lock('+fmt(t[1])+')'
    if k=='clo': return '[lambda]'
    if k=='p': return t[2]
    return k

class Frame:
    __slots__=('id','fn','this','caps','parent','callline','rettarget','depth','callfile')

class State:
    __slots__=('store','facts','held','vals','ch','live','rs','tr','_k')
    def __init__(s): s._k=None
    def copy(s):
        n=State()
        n.store=dict(s.store); n.facts=s.facts; n.held=dict(s.held); n.vals=dict(s.vals); n.ch=dict(s.ch); n.live=s.live; n.rs=s.rs; n.tr=s.tr
        return n
    def key(s):
        if s._k is None:
            s._k=(frozenset(s.store.items()),s.facts,frozenset(s.held.items()),frozenset(s.vals.items()),frozenset(s.ch.items()),s.live,s.rs)
        return s._k
    def ckey(s): return (frozenset(s.held.items()),s.live,s.rs)

class Ev:
    def __init__(s,k,**kw):
        s.k=k
        s.__dict__.update(kw)
    def __getattr__(s,n): return None

class Rule:
    name='rule'
    exc=False              # explore exceptional exits
    max_depth=30
    volatile=()            # qualified-name prefixes of const functions whose result may change between two calls
    opaque=()              # qualified-name prefixes never inlined (in addition to the defaults)
    transparent=()         # the default opaque prefixes which this rule looks into
    volatile_on_lock=True
    step_budget=3000000
    keep_root_facts=False  # keep the facts about the locals of the analysed function until end()
    fresh_atomics=False    # another thread may change an atomic between any two reads
    raw_atomics=False      # look inside current::atomic_that_works
    def init(s): return None
    def on(s,eng,st,ev): return None
    def throws(s,eng,e,fr): return False   # may this opaque call throw?
    def inline(s,eng,fn): return True
    def relevant(s,eng,fn): return None     # None: no relevance pruning
    def end(s,eng,st,outcome): pass
    frozen=None    # (location) -> bool: nothing which is called changes what is here
    loopvar=None   # (eng,st,frame,head,location,value on entry,symbol): a counter of a loop is about to be forgotten

def neg(f):
    op,a,b=f
    if op=='<': return ('<=',b,a)
    if op=='<=': return ('<',b,a)
    if op=='==': return ('!=',a,b)
    if op=='!=': return ('==',a,b)
    if op=='T': return ('F',a,None)
    return ('T',a,None)

def srt(a,b): return (a,b) if repr(a)<=repr(b) else (b,a)

def norm(t,pol):
    """facts implied by term t being `pol` (list); opaque: truthiness"""
    while isinstance(t,tuple) and t[0]=='!': t=t[1]; pol=not pol
    if isinstance(t,tuple) and t[0]=='b' and t[1] in ('<','>','<=','>=','==','!='):
        op,a,b=t[1],t[2],t[3]
        # comparisons against boolean literals
        if op in ('==','!=') and b in (('lit',1),('lit',0)) and isinstance(a,tuple) and a[0]=='b' and a[1] in ('<','>','<=','>=','==','!='):
            return norm(a, pol==((op=='==')==(b==('lit',1))))
        if op=='>': op,a,b='<',b,a
        elif op=='>=': op,a,b='<=',b,a
        if op=='<' and isinstance(b,tuple) and b[0]=='b' and b[1]=='+' and b[3]==('lit',1): op,b='<=',b[2]
        elif op=='<=' and isinstance(a,tuple) and a[0]=='b' and a[1]=='+' and a[3]==('lit',1): op,a='<',a[2]
        elif op=='<=' and isinstance(b,tuple) and b[0]=='b' and b[1]=='-' and b[3]==('lit',1) and a!=('lit',0): op,b='<',b[2]
        if op in('==','!='): a,b=srt(a,b)
        f=(op,a,b)
        if not pol:
            f=neg(f)
            if f[0] in('==','!='): f=(f[0],)+srt(f[1],f[2])
        return [f]
    return [('T' if pol else 'F',t,None)]

def litv(t):
    return t[1] if isinstance(t,tuple) and t[0]=='lit' else None

def truth_of(facts,t):
    pol=True
    while isinstance(t,tuple) and t[0]=='!': t=t[1]; pol=not pol
    v=litv(t)
    if v is not None: return bool(v)==pol
    if isinstance(t,tuple) and t[0] in('&','clo','new'): return pol
    if t==('null',): return not pol
    if isinstance(t,tuple) and t[0]=='b':
        op,a,b=t[1],t[2],t[3]
        la,lb=litv(a),litv(b)
        if la is not None and lb is not None:
            r={'<':la<lb,'>':la>lb,'<=':la<=lb,'>=':la>=lb,'==':la==lb,'!=':la!=lb}.get(op)
            if r is not None: return r==pol
        if a==b and op in('==','<=','>='): return pol
        if a==b and op in('!=','<','>'): return not pol
        if op in('==','!='):
            for x,y in((a,b),(b,a)):
                if y==('null',) and isinstance(x,tuple) and x[0] in('&','clo'): return (op=='!=')==pol
                if y==('null',):
                    if ('T',x,None) in facts: return (op=='!=')==pol
                    if ('F',x,None) in facts: return (op=='==')==pol
    fs=norm(t,True)
    f=fs[0]
    r=holds(facts,f)
    if r is not None: return r==pol
    return None

def holds(facts,f):
    op,a,b=f
    if f in facts: return True
    n=neg(f)
    if n[0] in('==','!='): n=(n[0],)+srt(n[1],n[2])
    if n in facts: return False
    if op=='<=':
        if ('<',a,b) in facts or ('==',)+srt(a,b) in facts: return True
    elif op=='<':
        if ('==',)+srt(a,b) in facts or ('<',b,a) in facts: return False
        if ('<=',a,b) in facts and ('!=',)+srt(a,b) in facts: return True
    elif op=='!=':
        if ('<',a,b) in facts or ('<',b,a) in facts: return True
        for g in facts:
            if g[0]=='==':
                for x,y in((g[1],g[2]),(g[2],g[1])):
                    if x==a and litv(y) is not None and litv(b) is not None and litv(y)!=litv(b): return True
                    if x==b and litv(y) is not None and litv(a) is not None and litv(y)!=litv(a): return True
    elif op=='==':
        if ('<',a,b) in facts or ('<',b,a) in facts: return False
        if ('<=',a,b) in facts and ('<=',b,a) in facts: return True
        for g in facts:
            if g[0]=='==':
                for x,y in((g[1],g[2]),(g[2],g[1])):
                    if x==a and litv(y) is not None and litv(b) is not None and litv(y)!=litv(b): return False
                    if x==b and litv(y) is not None and litv(a) is not None and litv(y)!=litv(a): return False
    elif op in('T','F'):
        # pointer/number truthiness
        z=srt(a,('null',)); y=srt(a,('lit',0))
        if ('!=',)+z in facts or ('!=',)+y in facts: return op=='T'
        if ('==',)+z in facts or ('==',)+y in facts: return op=='F'
    # literal ranges
    la,lb=litv(a),litv(b)
    if op in('<','<=') and (la is not None or lb is not None):
        x=b if la is not None else a
        lo,hi=interval(facts,x)
        if la is not None:
            if lo is not None and (la<lo or (op=='<=' and la==lo)): return True
            if hi is not None and (la>hi or (op=='<' and la==hi)): return False
        else:
            if hi is not None and (hi<lb or (op=='<=' and hi==lb)): return True
            if lo is not None and (lo>lb or (op=='<' and lo==lb)): return False
    if op in('==','!=') and (la is not None or lb is not None):
        x,v=(b,la) if la is not None else (a,lb)
        lo,hi=interval(facts,x)
        if (lo is not None and v<lo) or (hi is not None and v>hi): return op=='!='
    return None

def interval(facts,x):
    lo=hi=None
    for op,a,b in facts:
        if op=='==':
            v=litv(b) if a==x else (litv(a) if b==x else None)
            if v is not None: return v,v
        elif op in('<','<='):
            if a==x and litv(b) is not None:
                h=litv(b)-(1 if op=='<' else 0)
                hi=h if hi is None else min(hi,h)
            elif b==x and litv(a) is not None:
                l=litv(a)+(1 if op=='<' else 0)
                lo=l if lo is None else max(lo,l)
    return lo,hi

class Engine:
    def __init__(s,F,rule):
        s.F=F; s.rule=rule; s.frames={}; s.steps=0; s.reports=[]; s.repkeys=set()
        s.visited_fns=set(); s.sites=set(); s.nev=0; s.relcache={}; s.threads=[]; s.ctrcache={}; s.rs_terms=bool(getattr(rule,'rename_rs',None))
        s.opq=tuple(rule.opaque)+tuple(p for p in DEFAULT_OPAQUE if p not in rule.transparent)

    # ---------- frames
    def mkframe(s,fn,parent,calleid,this,caps,line,rettarget,file=None):
        k=(parent.id if parent else 0,calleid,fn.id)
        fid=s.frames.setdefault(k,len(s.frames)+1)
        f=Frame(); f.id=fid; f.fn=fn; f.this=this; f.caps=caps; f.parent=parent; f.callline=line; f.rettarget=rettarget
        f.depth=parent.depth+1 if parent else 0; f.callfile=file
        fn.prep()
        return f

    def stack(s,fr):
        r=[]
        while fr:
            r.append('%s%s'%(fr.fn.q, ' (called at %s:%s)'%(short(fr.callfile),fr.callline) if fr.callline else ''))
            fr=fr.parent
        return r

    def report(s,fr,line,msg,st=None,file=None,key=None,rule=None):
        f=file or (fr.fn.file if fr else '?')
        k=(f,line,msg,rule) if key is None else key
        if k in s.repkeys: return
        s.repkeys.add(k)
        tr=[]
        t=st.tr if st is not None else None
        while t and len(tr)<30:
            tr.append(t[1]); t=t[0]
        tr.reverse()
        s.reports.append({'file':f,'line':line,'rule':rule or s.rule.name,'message':msg,'function':fr.fn.q if fr else '?',
                          'stack':s.stack(fr)[:12] if fr else [],'path':tr,
                          'held':[fmt(m) for m in st.held] if st is not None else []})

    # ---------- state helpers
    def new_state(s):
        st=State(); st.store={}; st.facts=frozenset(); st.held={}; st.vals={}; st.ch={}; st.live=(); st.rs=s.rule.init(); st.tr=None
        return st

    def lookup(s,st,loc,d=0):
        if loc in st.store: return st.store[loc]
        if isinstance(loc,tuple) and d<12:
            if loc[0]=='f':
                b=loc[1]
                if isinstance(b,tuple) and b[0]=='il' and loc[2] in('first','second') and len(b)==3: return b[1 if loc[2]=='first' else 2]
                bv=st.store.get(b)
                if bv is not None and isinstance(bv,tuple) and bv[0] not in('lit','lk','clo','null'):
                    return s.lookup(st,('f',bv if bv[0]!='cpy' else bv[1],loc[2]),d+1)
                if b[0]=='f':
                    nb=s.lookup(st,b,d+1)
                    if nb!=b and isinstance(nb,tuple) and nb[0] not in('lit','lk','clo','null'):
                        return s.lookup(st,('f',nb if nb[0]!='cpy' else nb[1],loc[2]),d+1)
        return loc

    def deref(s,v):
        if isinstance(v,tuple) and v[0]=='&': return v[1]
        return ('*',v)

    def killed(s,t,L,pref):
        """does term t (whole) depend on the content of location L?"""
        if t==L: return True
        if isinstance(t,tuple):
            if t[0]=='c' and len(t)>2 and t[2] in pref: return True
            if t[0]=='cpy' and t[1] in pref: return True
            if t[0]=='f' and L[0]=='f' and alias_elem(t,L): return True
        return False

    def rename(s,t,L,pref,site):
        if not isinstance(t,tuple) or not t or t[0] in('old','lit','v','t','R','r','g','p','new','w','null','lk','clo') and t!=L: return t
        if t[0]=='&': return t   # an address does not depend on the content
        if s.killed(t,L,pref) or s.under(t,L): return ('old',site,t)
        ch=False; r=[]
        for c in t:
            n=s.rename(c,L,pref,site) if isinstance(c,tuple) else c
            if n is not c: ch=True
            r.append(n)
        return tuple(r) if ch else t

    def renamed(s,t,L,site):
        pref=set(); x=L
        while isinstance(x,tuple) and x[0] in('f','*'): x=x[1]; pref.add(x)
        return s.rename(t,L,pref,site)

    def siblings(s,n):
        c=getattr(s.F,'_siblings',None)
        if c is None:
            c=s.F._siblings={}
            for r in s.F.recs.values():
                ns=[f['n'] for f in r.get('fields') or ()]
                for f in ns: c.setdefault(f,set()).update(ns)
        return c.get(n,())

    def unbind(s,st,L):
        """a field of a location which holds a copy of some object is about to become unknown: only its other fields are those of the object"""
        path=[]; x=L
        while isinstance(x,tuple) and x[0]=='f':
            path.append(x[2]); x=x[1]
            v=st.store.get(x)
            if v is None: continue
            if not isinstance(v,tuple) or v[0] in('lit','lk','clo','null','&','old','w'): return
            if v[0]=='cpy': v=v[1]
            st.store=dict(st.store); del st.store[x]
            for n in reversed(path):
                for m in s.siblings(n):
                    if m!=n and ('f',x,m) not in st.store: st.store[('f',x,m)]=('f',v,m)
                x=('f',x,n); v=('f',v,n)
                if x in st.store and x!=L:
                    v=st.store.pop(x)
                    if not isinstance(v,tuple): break
            st._k=None
            return

    def clobber(s,st,L,site,keep_store=False):
        """the content of L (and everything below it) may change now"""
        if not isinstance(L,tuple): return
        if s.rule.frozen and s.rule.frozen(L): return
        if L[0]=='f' and not keep_store: s.unbind(st,L)
        pref=set()
        x=L
        while isinstance(x,tuple) and x[0] in('f','*'):
            x=x[1]; pref.add(x)
        ns={}
        for k,v in st.store.items():
            if k==L or s.under(k,L):
                continue
            ns[k]=s.rename(v,L,pref,site)
        # a location whose name mentions the old content (an element at the old index) keeps its content under the new name
        st.store={(s.rename(k,L,pref,site) if k[0] in('f','*','c') else k):v for k,v in ns.items()}
        nf=set()
        for op,a,b in st.facts:
            if s.hasold(a,site) or s.hasold(b,site): continue
            a2=s.rename(a,L,pref,site); b2=s.rename(b,L,pref,site) if b is not None else None
            if op in('==','!='): a2,b2=srt(a2,b2)
            nf.add((op,a2,b2))
        st.facts=frozenset(nf)
        if s.rs_terms: st.rs=s.rule.rename_rs(st.rs,lambda t: s.rename(t,L,pref,site))
        nv={}
        for k,v in st.vals.items(): nv[k]=(s.rename(v,L,pref,site) if not s.isloc(k) else s.relocate(v,L,pref,site))
        st.vals=nv
        st._k=None

    def relocate(s,t,L,pref,site):
        """a location expression evaluated earlier: only the index/pointer values inside it are affected"""
        if not isinstance(t,tuple) or t==L: return t
        if t[0]=='f': 
            b=s.relocate(t[1],L,pref,site)
            return t if b is t[1] else ('f',b,t[2])
        if t[0]=='c': 
            return t[:3]+tuple(s.rename(x,L,pref,site) if isinstance(x,tuple) else x for x in t[3:])
        return t

    def isloc(s,k):
        # values of glvalue expressions are locations and do not change when the content does
        fr=s.framebyid.get(k[0]) if hasattr(s,'framebyid') else None
        e=None
        fn=s.fnof.get(k[0])
        if fn is not None: e=fn.x.get(k[1])
        return bool(e and e.get('lv'))

    def under(s,k,L):
        while isinstance(k,tuple) and k[0] in('f','*','c'):
            k=k[2] if k[0]=='c' and len(k)>2 else (k[1] if k[0]!='c' else None)
            if k==L: return True
        return False

    def hasold(s,t,site):
        if not isinstance(t,tuple): return False
        if t and t[0]=='old' and t[1]==site: return True
        return any(s.hasold(c,site) for c in t if isinstance(c,tuple))

    def write(s,st,L,v,site):
        if depth(v)>60: v=('w',site)
        # the new value may mention the old content
        pref=set(); x=L
        while isinstance(x,tuple) and x[0] in('f','*'):
            x=x[1]; pref.add(x)
        s.clobber(st,L,site,keep_store=True)
        v2=s.rename(v,L,pref,site)
        st.store[L]=v2
        st._k=None

    def shared_clobber(s,st,site):
        """another thread may have run: forget everything about non-local memory"""
        def shared(k):
            return isinstance(k,tuple) and not is_loc_root_local(k)
        locs=set()
        for k in list(st.store):
            if shared(k) and not s.stable(k): locs.add(k)
        for k in locs:
            v=st.store.get(k)
            if v is not None and isinstance(v,tuple) and v[0]=='lk': continue
            st.store.pop(k,None)
        def hasshared(t):
            if not isinstance(t,tuple) or not t or t[0] in('old','lit'): return False
            if t[0]=='f' and not is_loc_root_local(t) and not s.stable(t): return True
            if t[0]=='*' and not is_loc_root_local(t): return True
            if t[0]=='g': return True
            if t[0]=='&': return False
            return any(hasshared(c) for c in t if isinstance(c,tuple))
        def ren(t):
            if not isinstance(t,tuple) or not t or t[0] in('old','lit','&','lk','clo'): return t
            if t[0] in('f','*','g') and hasshared(t): return ('old',site,t)
            return tuple(ren(c) if isinstance(c,tuple) else c for c in t)
        for k,v in list(st.store.items()):
            if hasshared(v): st.store[k]=ren(v)
        nf=set()
        for op,a,b in st.facts:
            if s.hasold(a,site) or s.hasold(b,site): continue
            a2,b2=ren(a),(ren(b) if b is not None else None)
            if op in('==','!='): a2,b2=srt(a2,b2)
            nf.add((op,a2,b2))
        st.facts=frozenset(nf)
        for k,v in list(st.vals.items()):
            if hasshared(v) and not s.isloc(k): st.vals[k]=ren(v)
        st._k=None

    def stable(s,loc):
        if isinstance(loc,tuple) and loc[0]=='f' and loc[2] in s.F.constfields: return True
        return bool(getattr(s.rule,'stable',None) and s.rule.stable(s,loc))

    # ---------- rule dispatch
    def emit(s,fr,st,ev):
        """returns list of states"""
        s.nev+=1
        ev.fr=fr
        r=s.rule.on(s,st,ev)
        if r is None: return [st]
        if isinstance(r,list):
            out=[]
            for rs in r:
                n=st.copy(); n.rs=rs; n._k=None; out.append(n)
            return out
        if r=='kill': return []
        st.rs=r; st._k=None
        return [st]

    def do_lock(s,fr,st,M,line,how):
        if s.rule.volatile_on_lock: s.shared_clobber(st,(fr.id,'L',line))
        outs=s.emit(fr,st,Ev('lock',m=M,line=line,how=how))
        for o in outs:
            o.held=dict(o.held); o.held[M]=o.held.get(M,0)+1; o._k=None
        return outs
    def do_unlock(s,fr,st,M,line):
        st.held=dict(st.held)
        c=st.held.get(M,0)
        if c<=1: st.held.pop(M,None)
        else: st.held[M]=c-1
        st._k=None
        return s.emit(fr,st,Ev('unlock',m=M,line=line))

    # ---------- function execution
    def exec_fn(s,fn,frame,st):
        """-> list of (kind,val,state) ; kind 'ret'|'exc' (val: type descriptor)"""
        s.visited_fns.add(fn.id)
        s.fnof[frame.id]=fn
        outs=[]; outkeys=set()
        seen={}   # block -> list of states
        work=[(fn.entry,st)]
        while work:
            b,stt=work.pop()
            if b in fn.backheads:
                sl=s.emit(frame,stt.copy(),Ev('loophead',line=fn.line,block=b))
                if not sl: continue
                stt=s.loop_head(frame,sl[0],b)
            s.steps+=1
            if s.steps>s.rule.step_budget: raise Broken('analysis budget exceeded in %s'%fn.q)
            lst=seen.setdefault(b,{})
            k=stt.key()
            ck=stt.ckey()
            group=lst.setdefault(ck,[])
            if any(g.key()==k for g in group): continue
            cap=2 if b in fn.backheads else getattr(s.rule,'cap',24)
            if len(group)>=cap:
                j=s.join(group[-1],stt)
                if j.key()==group[-1].key(): continue
                group[-1]=j; stt=j
            else: group.append(stt)
            stt=stt.copy()
            if b==fn.exit:
                v=stt.vals.get((frame.id,'ret'))
                outs.append(('ret',v,stt)); continue
            blk=fn.blocks[b]
            states=[stt]
            dead=False
            for el in blk['e']:
                nxt=[]
                for x in states:
                    for o in s.step(frame,el,x):
                        if o[0]=='ok': nxt.append(o[1])
                        elif o[0]=='exc':
                            s.unwind(frame,o[1],o[2],o[3],work,outs)
                states=s.dedup(nxt)
                if not states: break
            if blk.get('noret'): continue
            for x in states: s.terminate(frame,blk,x,work)
        # merge outs
        res=[]; ks=set()
        for o in outs:
            o2=s.leave(frame,o)
            k=(o2[0],o2[1],o2[2].key())
            if k in ks: continue
            ks.add(k); res.append(o2)
        lim=getattr(s.rule,'out_cap',16)
        if len(res)>lim: res=s.squash(res,lim)
        return res

    def squash(s,res,lim):
        # ESP merge: outcomes with the same automaton state, locks, live objects and return value are joined
        groups={}
        for o in res:
            v=o[1] if o[0]=='exc' or litv(o[1]) is not None or (isinstance(o[1],tuple) and o[1][0] in('null','&','clo')) else '*'
            groups.setdefault((o[0],v,o[2].ckey()),[]).append(o)
        out=[]
        for k,l in groups.items():
            while len(l)>4:
                a=l.pop(); b=l.pop()
                val=a[1] if a[1]==b[1] else ('w',('j',))
                l.append((a[0],val,s.join(a[2],b[2])))
            out+=l
        return out

    def join(s,a,b):
        n=State()
        n.store={k:v for k,v in a.store.items() if b.store.get(k)==v}
        n.facts=frozenset(f for f in a.facts if holds(b.facts,f)) | frozenset(f for f in b.facts if holds(a.facts,f))
        n.held=dict(a.held); n.live=a.live; n.rs=a.rs; n.tr=a.tr
        n.vals={k:v for k,v in a.vals.items() if b.vals.get(k)==v}
        n.ch={k:v for k,v in a.ch.items() if b.ch.get(k)==v}
        return n

    def dedup(s,l):
        if len(l)<2: return l
        r=[]; ks=set()
        for x in l:
            k=x.key()
            if k not in ks: ks.add(k); r.append(x)
        return r

    def leave(s,frame,o):
        kind,v,st=o
        st=st.copy()
        fid=frame.id
        st.vals={k:x for k,x in st.vals.items() if k[0]!=fid}
        st.ch={k:x for k,x in st.ch.items() if k[0]!=fid}
        def mine(t):
            return isinstance(t,tuple) and len(t)>1 and t[0] in('v','t') and t[1]==fid
        def rootmine(t):
            while isinstance(t,tuple) and t[0] in('f','*','cpy','&') : t=t[1]
            return mine(t)
        # a local object returned by value was renamed to its target at the return; drop the rest
        for k in [k for k in st.store if rootmine(k)]:
            st.store.pop(k)
        def ment(t):
            if not isinstance(t,tuple): return False
            if mine(t): return True
            return any(ment(c) for c in t if isinstance(c,tuple))
        if frame.parent is not None or not s.rule.keep_root_facts: st.facts=frozenset(f for f in st.facts if not(ment(f[1]) or ment(f[2])))
        if st.live: st.live=tuple(l for l in st.live if l[0]!=fid)
        st._k=None
        return (kind,v,st)

    # ---------- exceptions
    def matches(s,ty,h):
        """does handler h (catch dict) catch exception type descriptor ty?  -> 'yes','maybe','no'"""
        if h.get('all'): return 'yes'
        if ty==('any',): return 'maybe'
        rc=h.get('rc')
        if ty[0]=='rec':
            if rc and rc in s.F.bases(ty[1]): return 'yes'
            if rc and ty[1] in s.F.bases(rc): return 'maybe'
            # different record ids of the same class (external)
            qn=s.F.recs.get(ty[1],{}).get('q'); hq=s.F.recs.get(rc,{}).get('q') if rc else None
            if qn and hq and any(s.F.recs.get(b,{}).get('q')==hq for b in s.F.bases(ty[1])): return 'yes'
            return 'no'
        if ty[0]=='std':   # some std::exception-derived type named ty[1]
            hq=s.F.recs.get(rc,{}).get('q') if rc else None
            if hq in STDEXC.get(ty[1],('std::exception',ty[1])): return 'yes'
            return 'no'
        return 'maybe'

    def unwind(s,frame,ty,tries,st,work,outs):
        """exception of type ty raised at a point inside tries (outermost first) of frame"""
        fn=frame.fn
        sts=[st]
        tl=list(tries)
        while tl:
            t=tl.pop()
            hs=fn.tries.get(t,[])
            # destroy the locals declared inside this try
            nx=[]
            for x in sts: nx+=s.destroy(frame,x,lambda l: t in l[6])
            sts=nx
            caught=False
            for hb in hs:
                h=fn.blocks[hb].get('catch')
                if not h: continue
                m=s.matches(ty,h)
                if m=='no': continue
                for x in sts:
                    y=x.copy(); 
                    y.store=dict(y.store)
                    y.vals[(frame.id,'exc')]=ty if ty!=('any',) or not h.get('rc') else ('rec',h['rc'])
                    y.tr=(y.tr,'%s:%s caught %s'%(short(fn.file),h.get('l'),s.tyname(ty))); y._k=None
                    for z in s.emit(frame,y,Ev('catch',ty=ty,h=h,line=h.get('l'))): work.append((hb,z))
                if m=='yes': caught=True; break
            if caught: return
        fin=[]
        for x in sts: fin+=s.destroy(frame,x,lambda l: True)
        for x in fin: outs.append(('exc',ty,x))

    def tyname(s,ty):
        if ty==('any',): return 'an exception'
        if ty[0]=='rec': return s.F.recs.get(ty[1],{}).get('q','?')
        return ty[1]

    def destroy(s,frame,st,pred):
        fid=frame.id
        sts=[st]
        mine=[l for l in st.live if l[0]==fid and pred(l)]
        for l in reversed(mine):
            nx=[]
            for x in sts:
                x=x.copy()
                x.live=tuple(z for z in x.live if z!=l); x._k=None
                for o in s.run_dtor(frame,x,l[3],l[4],l[5],l[7],unw=True):
                    if o[0]=='ok': nx.append(o[1])
            sts=nx
        return sts

    # ---------- terminators
    def terminate(s,fr,blk,st,work):
        t=blk.get('term'); succ=blk['s']
        def go(b,x):
            if b is None or b<0: return
            work.append((b,x))
        # prune values that are not needed in other blocks
        fn=fr.fn
        fid=fr.id
        if st.vals:
            nv={}
            for k,v in st.vals.items():
                if k[0]!=fid or k[1] in fn.crossuse or isinstance(k[1],str): nv[k]=v
            cond=t.get('cond') if t else None
            cv=st.vals.get((fid,cond)) if cond else None
            st.vals=nv; st._k=None
        else: cv=None
        if not t:
            for b in succ: go(b,st)
            return
        if t.get('tdb'):
            b0=fn.blocks.get(succ[0]) if succ[0] is not None and succ[0]>=0 else None
            e0=None
            if b0:
                for el in b0['e']:
                    if not isinstance(el,int) and el['k']=='tdtor': e0=el['e']; break
            if e0 is not None:
                alive=any(l[0]==fid and l[1]=='tmp' and l[2]==e0 for l in st.live)
                go(succ[0] if alive else succ[1],st)
            else:
                for b in succ: go(b,st.copy())
            return
        if t['c']=='SwitchStmt':
            cases=[]
            for b in succ:
                if b is None or b<0: continue
                bb=fn.blocks[b]
                if 'case' in bb: cases.append((b,int(bb['case'])))
            for b in succ:
                if b is None or b<0: continue
                bb=fn.blocks[b]
                x=st.copy()
                if 'case' in bb and cv is not None:
                    tm=('b','==',cv,('lit',int(bb['case'])))
                    if truth_of(x.facts,tm) is False: continue
                    x.facts=x.facts|frozenset(norm(tm,True))
                elif cv is not None:
                    bad=False
                    for _,c in cases:
                        tm=('b','==',cv,('lit',c))
                        tv=truth_of(x.facts,tm)
                        if tv is True: bad=True; break
                        x.facts=x.facts|frozenset(norm(tm,False))
                    if bad: continue
                x._k=None
                go(b,x)
            return
        if len(succ)==2:
            tv=truth_of(st.facts,cv) if cv is not None else None
            for pol,b in((True,succ[0]),(False,succ[1])):
                if b is None or b<0: continue
                if tv is not None and tv!=pol: continue
                x=st.copy()
                if cv is not None and tv is None:
                    x.facts=x.facts|frozenset(norm(cv,pol))
                if 's' in t: x.ch[(fid,t['s'])]=pol
                x.tr=(x.tr,'%s:%s %s -> %s'%(short(fn.file),t['l'],fmt(cv) if cv is not None else t['c'],pol))
                x._k=None
                if cv is not None and tv is None:
                    for y in s.emit(fr,x,Ev('branch',val=cv,pol=pol,line=t['l'],term=t)): go(b,y)
                else: go(b,x)
            return
        for b in succ: go(b,st.copy())

    # ---------- elements
    def step(s,fr,el,st):
        if isinstance(el,int):
            return s.evalx(fr,el,st)
        k=el['k']
        if k=='adtor':
            loc=('v',fr.id,el['d'],el['n'])
            if any(l[0]==fr.id and l[1]=='var' and l[2]==el['d'] for l in st.live):
                st.live=tuple(l for l in st.live if not(l[0]==fr.id and l[1]=='var' and l[2]==el['d'])); st._k=None
            v=st.store.get(loc)
            if v is not None and isinstance(v,tuple) and v[0]=='&': loc=v[1]
            return s.run_dtor(fr,st,loc,el.get('f'),el.get('q',''),el['l'])
        if k=='tdtor':
            live=[l for l in st.live if l[0]==fr.id and l[1]=='tmp' and l[2]==el['e']]
            if not live: return [('ok',st)]
            st.live=tuple(l for l in st.live if l not in live); st._k=None
            return s.run_dtor(fr,st,live[-1][3],el.get('f'),el.get('q',''),el['l'])
        if k=='mdtor':
            return s.run_dtor(fr,st,('f',fr.this,el['n']),el.get('f'),el.get('q',''),el['l'],member=el['n'])
        if k=='bdtor':
            if el.get('q','').startswith('std::'):
                return s.run_dtor(fr,st,('f',fr.this,'<base>'),el.get('f'),el.get('q',''),el['l'])
            return s.run_dtor(fr,st,fr.this,el.get('f'),el.get('q',''),el['l'],base=True)
        if k=='init':
            fn=fr.fn
            outs=[]
            for o in s.ensure(fr,el['e'],st):
                if o[0]!='ok': outs.append(o); continue
                x=o[1]
                if el.get('n'):
                    L=('f',fr.this,el['n'])
                    v=s.val(fr,el['e'],x)
                    if el.get('rf'):
                        x.store[L]=('&',v); x._k=None
                        outs+= [('ok',y) for y in s.emit(fr,x,Ev('init',loc=L,name=el['n'],val=v,line=el['l']))]
                    else:
                        if v is not None and v!=L: s.write(x,L,v,(fr.id,'i',el['n']))
                        outs+= [('ok',y) for y in s.emit(fr,x,Ev('init',loc=L,name=el['n'],val=v,line=el['l']))]
                else: outs.append(('ok',x))
            return outs
        return [('ok',st)]

    def run_dtor(s,fr,st,loc,f,q,line,unw=False,member=None,base=False):
        cls=q.rsplit('::',1)[0] if q else ''
        v=s.lookup(st,loc)
        if isinstance(v,tuple) and v[0]=='lk' :
            if v[2]:
                st.store=dict(st.store); st.store.pop(loc,None); st._k=None
                return [('ok',o) for o in s.do_unlock(fr,st,v[1],line)]
            return [('ok',st)]
        outs=[('ok',x) for x in s.emit(fr,st,Ev('dtor',loc=loc,q=q,line=line,member=member,val=v,unw=unw,base=base))]
        fn=s.F.fns.get(f) if f else None
        if fn is not None and s.can_inline(fn,fr):
            res=[]
            for o in outs:
                x=o[1]
                f2=s.mkframe(fn,fr,('d',line,loc[2] if isinstance(loc,tuple) and len(loc)>2 else 0),loc,{},line,None,fr.fn.file)
                for k,vv,y in s.exec_fn(fn,f2,x):
                    if k=='ret': res.append(('ok',y))
                    elif unw is False: res.append(('exc',vv,(),y))
            return res
        return outs

    def can_inline(s,fn,fr):
        if fr is not None and fr.depth>=s.rule.max_depth: return False
        x=fr
        while x:
            if x.fn is fn: return False
            x=x.parent
        for p in s.opq:
            if fn.q.startswith(p): return False
        if not s.rule.inline(s,fn): return False
        r=s.is_relevant(fn)
        return r

    def is_relevant(s,fn):
        if s.rule.relevant(s,fn) is None: return True
        if not s.relcache: s.build_rel()
        return s.relcache.get(fn.id,False)

    def callees(s,fn):
        out=set()
        for e in fn.x.values():
            if e.get('f') and e['k'] in('call','ctor','fn','method','del','lambda'):
                out.add(e['f'])
                if e.get('virt'): out|=s.F.all_overriders(e['f'])
            if e['k']=='lambda':
                for f in e.get('fs',()): out.add(f)
        for b in fn.blocks.values():
            for el in b['e']:
                if not isinstance(el,int) and el.get('f'): out.add(el['f'])
        return out

    def build_rel(s):
        rel={}; rev={}
        for f in s.F.fns.values():
            for c in s.callees(f): rev.setdefault(c,set()).add(f.id)
        q=[f.id for f in s.F.fns.values() if s.rule.relevant(s,f)]
        for x in q: rel[x]=True
        while q:
            x=q.pop()
            for p in rev.get(x,()):
                if p not in rel: rel[p]=True; q.append(p)
        rel[-1]=True
        s.relcache=rel

    # ---------- expressions
    SIMPLE=('lit','this','str','null','enum','fn','flit','sizeof','method')
    def val(s,fr,eid,st):
        """value (or location, for glvalues) of an already evaluated expression"""
        if not eid: return None
        k=(fr.id,eid)
        if k in st.vals: return st.vals[k]
        e=fr.fn.x[eid]
        kk=e['k']
        if kk=='lit': return ('lit',int(e['v']))
        if kk=='this': return ('&',fr.this)
        if kk=='null': return ('null',)
        if kk=='str': return ('str',e.get('v'))
        if kk=='enum': return ('lit',int(e['v']),e['q']) if False else ('lit',int(e['v']))
        if kk=='fn': return ('fn',e['f'],e['q'])
        if kk=='sizeof': return ('lit',int(e['v'])) if 'v' in e else ('x',fr.id,eid)
        if kk=='ref': return s.refloc(fr,e,st)
        if kk=='mem':
            b=s.val(fr,e['b'],st)
            return s.memloc(st,b,e)
        if kk=='load':
            return s.lookup(st,s.val(fr,e['e'],st))
        if kk=='cast': return s.castv(st,s.val(fr,e['e'],st),e,fr)
        if kk=='cond':
            c=st.ch.get((fr.id,eid))
            if c is True: return s.val(fr,e['x'],st)
            if c is False: return s.val(fr,e['y'],st)
        if kk=='bin' and e['op']=='||' or kk=='bin' and e['op']=='&&':
            c=s.chose(fr,eid,e,st)
            if c is not None:
                if e['op']=='&&' and c is False: return ('lit',0)
                if e['op']=='||' and c is True: return ('lit',1)
                return s.val(fr,e['y'],st)
        return ('x',fr.id,eid)

    def chose(s,fr,eid,e,st):
        """which way `&&` or `||` went; in (a && b) && c, a false leaves the whole of it at once"""
        c=st.ch.get((fr.id,eid))
        if c is not None: return c
        x=e.get('x'); n=0
        while x is not None and n<30:
            n+=1
            i=fr.fn.x[x]
            if i is None: return None
            if i.get('k') in('cast','paren') : x=i.get('e'); continue
            if i.get('k')!='bin' or i.get('op')!=e['op']: return None
            c=st.ch.get((fr.id,x))
            if c is (e['op']=='||'): return c
            x=i.get('x')
        return None

    def memloc(s,st,b,e):
        if e.get('ar'): b=s.deref(b)
        L=('f',b,e['n'])
        if e.get('rf'):
            v=s.lookup(st,L)
            if isinstance(v,tuple) and v[0]=='&': return v[1]
            return ('*',L)
        return L

    def castv(s,st,v,e,fr):
        ck=e['ck']
        if ck in('PointerToBoolean',):
            return ('b','!=',v,('null',))
        if ck in('IntegralToBoolean',):
            if litv(v) is not None: return ('lit',1 if litv(v) else 0)
            if isinstance(v,tuple) and v[0] in('b','!'): return v
            return v
        if ck=='NullToPointer': return ('null',)
        if ck=='IntegralCast' and litv(v) is not None:
            ty=s.F.ty(e['ty']); w=ty.get('w',64); x=litv(v)&((1<<w)-1)
            if ty.get('sg') and x>>(w-1): x-=1<<w
            return ('lit',x)
        return v

    def refloc(s,fr,e,st):
        d=e['d']
        if e['dk']=='static':
            if 'v' in e and not e.get('x'): pass
            return ('g',e['q']+('' if not e.get('q','').endswith('::') else ''),d)
        if e['dk']=='bind':
            return s.val(fr,e['e'],st) if e.get('e') else ('v',fr.id,d,e['n'])
        c=fr.caps.get(d)
        if c is not None:
            if c[0]=='r': return c[1]
            L=('v',fr.id,d,e['n'])
        else: L=('v',fr.id,d,e['n'])
        ty=s.F.ty(e.get('dt',0))
        if ty.get('ref'):
            v=st.store.get(L)
            if isinstance(v,tuple) and v[0]=='&': return v[1]
            if c is not None: return L   # a copy of what the reference refers to
            return ('*',L)
        return L

    def ensure(s,fr,eid,st):
        """evaluate on demand an expression that is not an element of the CFG"""
        fn=fr.fn
        e=fn.x.get(eid)
        if e is None or e['k'] in s.SIMPLE or (fr.id,eid) in st.vals or eid in fn.evalblock: return [('ok',st)]
        return s.evalx(fr,eid,st)

    def evalx(s,fr,eid,st):
        fn=fr.fn
        e=fn.x[eid]
        k=e['k']
        if k in s.SIMPLE: return [('ok',st)]
        states=[('ok',st)]
        if k not in('cond',) and not(k=='bin' and e['op'] in('&&','||')):
            for c in children(e):
                if c not in fn.evalblock and fn.x[c]['k'] not in s.SIMPLE:
                    nx=[]
                    for o in states:
                        if o[0]=='ok': nx+=s.ensure(fr,c,o[1])
                        else: nx.append(o)
                    states=nx
        outs=[]
        for o in states:
            if o[0]!='ok': outs.append(o); continue
            outs+=s.eval1(fr,eid,e,k,o[1])
        if eid in fn.tdset:
            td=fn.tdset[eid]
            for o in outs:
                if o[0]=='ok':
                    x=o[1]
                    v=x.vals.get((fr.id,eid))
                    loc=s.target(fr,eid)
                    ent=(fr.id,'tmp',eid,loc,td.get('f'),td.get('q',''),tuple(e.get('t',())),td['l'])
                    if ent not in x.live: x.live=x.live+(ent,); x._k=None
        return outs

    def target(s,fr,eid):
        t=fr.fn.target.get(eid)
        if t is None: return ('t',fr.id,eid)
        if t[0]=='var':
            return ('v',fr.id,t[1],s.varname(fr.fn,t[1]))
        if t[0]=='field': return ('f',fr.this,t[1])
        if t[0]=='base': return fr.this
        if t[0]=='new': return ('new',fr.id,t[1])
        if t[0]=='ret': return fr.rettarget or ('t',fr.id,eid)
        return ('t',fr.id,eid)

    def varname(s,fn,d):
        nm=getattr(s,'_vn',None)
        if nm is None: nm=s._vn={}
        k=(fn.id,d)
        if k not in nm:
            for e in fn.x.values():
                if e['k']=='decl':
                    for v in e['v']: nm[(fn.id,v['d'])]=v['n']
            nm.setdefault(k,'?')
        return nm[k]

    def setv(s,fr,eid,st,v):
        st.vals[(fr.id,eid)]=v; st._k=None

    def access(s,fr,st,loc,mode,e,extra=None):
        return s.emit(fr,st,Ev('access',loc=loc,mode=mode,line=e['l'],e=e,extra=extra))

    def eval1(s,fr,eid,e,k,st):
        F=s.F
        if k=='ref':
            if e['dk']=='static' and 'v' in e:
                s.setv(fr,eid,st,('g',e['q'],e['d'])); st.store.setdefault(('g',e['q'],e['d']),('lit',int(e['v']))); return [('ok',st)]
            if e['dk']=='var' and 'v' in e:
                L=s.refloc(fr,e,st); s.setv(fr,eid,st,L); st.store.setdefault(L,('lit',int(e['v']))); return [('ok',st)]
            if e['dk']=='bind' and e.get('e'):
                outs=[]
                for o in s.ensure(fr,e['e'],st):
                    if o[0]=='ok': s.setv(fr,eid,o[1],s.val(fr,e['e'],o[1]))
                    outs.append(o)
                return outs
            s.setv(fr,eid,st,s.refloc(fr,e,st)); return [('ok',st)]
        if k=='mem':
            b=s.val(fr,e['b'],st)
            s.setv(fr,eid,st,s.memloc(st,b,e)); return [('ok',st)]
        if k=='load':
            L=s.val(fr,e['e'],st)
            sts=s.access(fr,st,L,'r',e)
            for x in sts: s.setv(fr,eid,x,s.lookup(x,L))
            return [('ok',x) for x in sts]
        if k=='cast':
            v=s.val(fr,e['e'],st)
            r=s.castv(st,v,e,fr)
            sts=s.emit(fr,st,Ev('cast',val=v,e=e,line=e['l']))
            for x in sts: s.setv(fr,eid,x,r)
            return [('ok',x) for x in sts]
        if k=='un':
            v=s.val(fr,e['e'],st); op=e['op']
            if op=='!':
                r=('lit',0 if litv(v) else 1) if litv(v) is not None else (v[1] if isinstance(v,tuple) and v[0]=='!' else ('!',v))
                s.setv(fr,eid,st,r); return [('ok',st)]
            if op=='*': s.setv(fr,eid,st,s.deref(v)); return [('ok',st)]
            if op=='&': s.setv(fr,eid,st,('&',v)); return [('ok',st)]
            if op in('++','--','post++','post--'):
                cur=s.lookup(st,v); one=('lit',1)
                d=1 if '+' in op else -1
                nv=('lit',litv(cur)+d) if litv(cur) is not None else ('b','+' if d>0 else '-',cur,one)
                if litv(nv) is not None and abs(litv(nv))>3: nv=('w',(fr.id,eid))
                outs=[]
                for x in s.access(fr,st,v,'r',e):
                    for y in s.emit(fr,x,Ev('write',loc=v,val=nv,line=e['l'],e=e,op=op)):
                        s.write(y,v,nv,(fr.id,eid))
                        s.setv(fr,eid,y,v if op in('++','--') else s.renamed(cur,v,(fr.id,eid)))
                        outs.append(('ok',y))
                return outs
            if op=='-' and litv(v) is not None: s.setv(fr,eid,st,('lit',-litv(v))); return [('ok',st)]
            s.setv(fr,eid,st,('u',op,v)); return [('ok',st)]
        if k=='bin':
            op=e['op']
            if op in('&&','||'):
                c=s.chose(fr,eid,e,st)
                if op=='&&' and c is False: v=('lit',0)
                elif op=='||' and c is True: v=('lit',1)
                else: v=s.val(fr,e['y'],st)
                st.ch.pop((fr.id,eid),None)
                s.setv(fr,eid,st,v); return [('ok',st)]
            a,b=s.val(fr,e['x'],st),s.val(fr,e['y'],st)
            if op==',': s.setv(fr,eid,st,b); return [('ok',st)]
            la,lb=litv(a),litv(b)
            r=None
            if la is not None and lb is not None:
                try: r={'+':lambda:la+lb,'-':lambda:la-lb,'*':lambda:la*lb,'<':lambda:int(la<lb),'>':lambda:int(la>lb),'<=':lambda:int(la<=lb),'>=':lambda:int(la>=lb),'==':lambda:int(la==lb),'!=':lambda:int(la!=lb),'&':lambda:la&lb,'|':lambda:la|lb}[op]()
                except KeyError: r=None
            if r is not None: v=('lit',r)
            else: v=('b',op,a,b)
            if depth(v)>60: v=('w',(fr.id,eid))
            s.setv(fr,eid,st,v)
            return [('ok',x) for x in s.emit(fr,st,Ev('bin',op=op,a=a,b=b,val=v,line=e['l'],e=e))]
        if k=='asg':
            op=e['op']; L=s.val(fr,e['x'],st); R=s.val(fr,e['y'],st)
            if op!='=':
                cur=s.lookup(st,L)
                if op in('&=','|=') and litv(R) in(0,1) and F.ty(e['ty']).get('bool'):
                    nv=('lit',0) if (op=='&=' and litv(R)==0) else ('lit',1) if (op=='|=' and litv(R)==1) else cur
                else: nv=('b',op[:-1],cur,R)
                sts=s.access(fr,st,L,'r',e)
            else: nv=R; sts=[st]
            outs=[]
            for x in sts:
                for y in s.emit(fr,x,Ev('write',loc=L,val=nv,line=e['l'],e=e,op=op)):
                    s.write(y,L,nv,(fr.id,eid))
                    s.setv(fr,eid,y,L)
                    outs.append(('ok',y))
            return outs
        if k=='cond':
            c=st.ch.get((fr.id,eid))
            if c is True: v=s.val(fr,e['x'],st)
            elif c is False: v=s.val(fr,e['y'],st)
            else:
                tv=truth_of(st.facts,s.val(fr,e['c'],st))
                v=s.val(fr,e['x'] if tv else e['y'],st) if tv is not None else ('x',fr.id,eid)
            st.ch.pop((fr.id,eid),None)
            s.setv(fr,eid,st,v); return [('ok',st)]
        if k=='idx':
            b=s.val(fr,e['b'],st); i=s.val(fr,e['x'],st)
            s.setv(fr,eid,st,('c','[]',b,i)); return [('ok',st)]
        if k=='decl':
            outs=[st]
            for v in e['v']:
                nx=[]
                for x in outs:
                    L=('v',fr.id,v['d'],v['n'])
                    if v.get('static'): L=('g',v['n'],v['d'])
                    if v.get('e'):
                        val=s.val(fr,v['e'],x)
                        if v.get('ref'):
                            ie=fr.fn.x[v['e']]
                            if not ie.get('lv'):
                                T=s.target(fr,v['e'])
                                if val!=T:
                                    T=('t',fr.id,v['e'])
                                    x.store[T]=val
                                else:
                                    pass
                                x.store[L]=('&',T) if T!=L else ('&',('t',fr.id,v['e']))
                                if T==L: # class prvalue constructed straight into the reference's slot
                                    s.move_tree(x,L,('t',fr.id,v['e']))
                                    x.store[L]=('&',('t',fr.id,v['e']))
                            else: x.store[L]=('&',val)
                            x._k=None
                        elif val is not None and val!=L:
                            s.write(x,L,val,(fr.id,eid))
                            lv=x.store.get(L)
                    else:
                        x.store.pop(L,None); x._k=None
                    if v.get('dt') is not None or v.get('rc'):
                        if not v.get('static'):
                            q=F.recs.get(v.get('rc'),{}).get('q','')
                            ent=(fr.id,'var',v['d'],L,v.get('dt'),q+'::~',tuple(e.get('t',())),e['l'])
                            x.live=tuple(l for l in x.live if not(l[0]==fr.id and l[1]=='var' and l[2]==v['d']))+(ent,)
                            x._k=None
                    nx+=s.emit(fr,x,Ev('decl',loc=L,v=v,val=s.lookup(x,L),line=e['l']))
                outs=nx
            return [('ok',x) for x in outs]
        if k=='ret':
            v=None
            if e.get('e'):
                v=s.val(fr,e['e'],st)
                T=fr.rettarget
                ie=fr.fn.x[e['e']]
                ty=F.ty(ie['ty'])
                if T is not None and not ie.get('lv') and isinstance(v,tuple) and v!=T and v[0] in('v','t') and v[1]==fr.id and ty.get('rc'):
                    s.move_tree(st,v,T); v=T
                rt=F.ty(fr.fn.rty)
                if rt.get('ref') and not ie.get('lv'): pass
                if depth(v)>60: v=('w',(fr.id,eid))
            st.vals[(fr.id,'ret')]=v; st._k=None
            return [('ok',x) for x in s.emit(fr,st,Ev('ret',val=v,line=e['l'],e=e))]
        if k=='throw':
            if e.get('rc'): ty=('rec',e['rc'])
            elif e.get('e'): ty=('other',F.tystr(e.get('tt',0)))
            else: ty=st.vals.get((fr.id,'exc'),('any',))
            outs=[]
            for x in s.emit(fr,st,Ev('throw',ty=ty,line=e['l'],e=e)):
                if s.rule.exc: outs.append(('exc',ty,tuple(e.get('t',())),x))
            return outs
        if k=='lambda':
            caps=[]
            for c in e['cp']:
                if c.get('this'): caps.append(('this',None,('&',fr.this)))
                elif 'd' in c:
                    if c.get('ref'):
                        v=s.val(fr,c['e'],st) if c.get('e') else None
                        caps.append((c['d'],'r',v))
                    else:
                        v=s.val(fr,c['e'],st) if c.get('e') else None
                        ie=fr.fn.x.get(c.get('e'))
                        if ie is not None and ie.get('lv') : v=s.lookup(st,v)
                        elif isinstance(v,tuple) and v[0] in('v','t'): v=s.lookup(st,v)
                        if ie is not None and ie['k']=='ctor' and ie.get('cp') and isinstance(v,tuple) and v[0]=='t': v=s.lookup(st,v)
                        caps.append((c['d'],'c',v))
            fs=tuple(e['fs']) if e.get('fs') else ((e['f'],) if e.get('f') else ())
            clo=('clo',e['rc'],fs,fr.this,tuple(caps))
            if depth(clo)>60: clo=('clo',e['rc'],fs,fr.this,())
            s.setv(fr,eid,st,clo)
            return [('ok',x) for x in s.emit(fr,st,Ev('lambda',clo=clo,line=e['l'],e=e))]
        if k=='new':
            L=('new',fr.id,eid)
            v=('&',L)
            iv=s.val(fr,e['e'],st) if e.get('e') else None
            if iv is not None and iv!=L and isinstance(iv,tuple) and iv[0] not in('x',): st.store[L]=iv
            s.setv(fr,eid,st,v)
            return [('ok',x) for x in s.emit(fr,st,Ev('new',val=v,line=e['l'],e=e))]
        if k=='del':
            v=s.val(fr,e['e'],st)
            outs=[]
            for x in s.emit(fr,st,Ev('delete',val=v,line=e['l'],e=e)):
                outs+=s.run_dtor(fr,x,s.deref(v),e.get('f'),'delete',e['l'])
            return outs
        if k=='ctor': return s.do_ctor(fr,eid,e,st)
        if k=='call': return s.do_call(fr,eid,e,st)
        if k=='ilist':
            vs=[s.val(fr,a,st) for a in e['a']]
            if len(vs)==1: v=vs[0]
            else: v=('il',)+tuple(vs)
            if depth(v)>60: v=('w',(fr.id,eid))
            s.setv(fr,eid,st,v)
            sts=[st]
            ty=F.ty(e['ty'])
            return [('ok',x) for x in s.emit(fr,st,Ev('ilist',vals=vs,line=e['l'],e=e,target=s.target(fr,eid)))]
        if k=='other' and 'v' in e:
            s.setv(fr,eid,st,('lit',int(e['v']))); return [('ok',st)]
        s.setv(fr,eid,st,('x',fr.id,eid))
        return [('ok',st)]

    def loopvars(s,fn,h):
        """integer-like locals which are modified inside the loop headed by block h: forgotten at the loop head"""
        k=(fn.id,h)
        r=s.ctrcache.get(k)
        if r is not None: return r
        preds={}
        for b in fn.blocks.values():
            for x in b['s']:
                if x is not None and x>=0: preds.setdefault(x,[]).append(b['b'])
        # blocks reachable from h
        reach=set(); q=[h]
        while q:
            x=q.pop()
            for y in fn.blocks[x]['s']:
                if y is not None and y>=0 and y not in reach: reach.add(y); q.append(y)
        body={h}; q=[p for p in preds.get(h,()) if p in reach]
        while q:
            x=q.pop()
            if x in body: continue
            body.add(x); q+=[p for p in preds.get(x,())]
        out={}
        def note(t):
            if t is not None and t['k']=='ref' and t['dk'] in('var','parm'):
                ty=s.F.ty(t.get('dt',0))
                if ty.get('ref') or ty.get('bool') or ty.get('enum'): return
                if ty.get('w') or ty.get('ptr') or ty.get('flt'): out[t['d']]=t['n']
        for bb in body:
            for el in fn.blocks[bb]['e']:
                if not isinstance(el,int): continue
                e=fn.x[el]
                if e['k']=='asg': note(fn.x.get(e['x']))
                elif e['k']=='un' and ('++' in e['op'] or '--' in e['op']): note(fn.x.get(e['e']))
                elif e['k'] in('call','ctor'):
                    for i,a in enumerate(e.get('a',())):
                        pk=e.get('pk',[])
                        if i<len(pk) and pk[i] in(2,3): note(fn.x.get(a))
        r=tuple(sorted(out.items()))
        s.ctrcache[k]=r
        return r

    def loop_head(s,frame,st,h):
        lv=s.loopvars(frame.fn,h)
        if not lv: return st
        st=st.copy()
        for d,n in lv:
            L=('v',frame.id,d,n)
            if L not in st.store: 
                if not any(mentions(f[1],L) or mentions(f[2],L) for f in st.facts): continue
            sym=('lh',frame.id,h,d)
            if s.rule.loopvar:
                r=s.rule.loopvar(s,st,frame,h,L,s.lookup(st,L),sym)
                if r is not None: st.rs=r
            s.clobber(st,L,('lh',frame.id,h))
            s.clobber(st,sym,('lh2',frame.id,h))
            st.store[L]=sym
        st._k=None
        return st

    def move_tree(s,st,A,B):
        def ren(t):
            if not isinstance(t,tuple): return t
            if t==A: return B
            ch=False; r=[]
            for c in t:
                n=ren(c) if isinstance(c,tuple) else c
                if n is not c: ch=True
                r.append(n)
            return tuple(r) if ch else t
        st.store={ren(k):ren(v) for k,v in st.store.items()}
        st.facts=frozenset((o,ren(a),ren(b)) for o,a,b in st.facts)
        st.held={ren(k):v for k,v in st.held.items()}
        # the object now lives on under its new name: its local destructor record disappears
        st.live=tuple(l for l in st.live if l[3]!=A)
        if hasattr(s.rule,'rename_rs'): st.rs=s.rule.rename_rs(st.rs,ren)
        st._k=None

    def copy_tree(s,st,A,B):
        """B becomes a copy of A"""
        st.store={k:v for k,v in st.store.items() if not(k==B or s.under(k,B))}
        add={}
        def ren(t):
            if t==A: return B
            if isinstance(t,tuple) and t[0] in('f','*'): 
                n=ren(t[1]); return (t[0],n)+t[2:] if n is not t[1] else t
            return t
        for k,v in st.store.items():
            if k==A or s.under(k,A):
                add[ren(k)]=v
        if B not in add: add[B]=s.lookup(st,A)
        if add.get(B)==B: add.pop(B)
        st.store.update(add); st._k=None

    def do_ctor(s,fr,eid,e,st):
        F=s.F
        T=s.target(fr,eid)
        q=e['q']; cls=q.rsplit('::',1)[0]
        args=[s.val(fr,a,st) for a in e['a']]
        s.sites.add((fr.fn.file,e['l'],q))
        if fr.fn.target.get(eid)==('base',) and cls.startswith('std::'): T=('f',fr.this,'<base>')
        # locks
        if cls in LOCK_CLASSES:
            if e.get('cp'):
                v=s.lookup(st,args[0])
                if isinstance(v,tuple) and v[0]=='lk':
                    st.store[args[0]]=('lk',v[1],0); st.store[T]=v; st._k=None
                s.setv(fr,eid,st,T); return [('ok',st)]
            if not args: s.setv(fr,eid,st,T); return [('ok',st)]
            M=args[0]
            defer=len(e['a'])>1 and 'defer_lock' in F.tystr(fr.fn.x[e['a'][1]]['ty'])
            adopt=len(e['a'])>1 and 'adopt_lock' in F.tystr(fr.fn.x[e['a'][1]]['ty'])
            if defer:
                st.store[T]=('lk',M,0); st._k=None
                s.setv(fr,eid,st,T); return [('ok',st)]
            sts=[st] if adopt else s.do_lock(fr,st,M,e['l'],cls)
            for x in sts:
                x.store=dict(x.store); x.store[T]=('lk',M,1); x._k=None
                s.setv(fr,eid,x,T)
            return [('ok',x) for x in sts]
        if cls in('std::atomic','std::__atomic_base') and len(args)==1 and not e.get('cp') and args[0] is not None:
            s.write(st,T,args[0],(fr.id,eid)); s.setv(fr,eid,st,T); return [('ok',x) for x in s.emit(fr,st,Ev('init',loc=T,name='',val=args[0],line=e['l']))]
        # transparent wrappers around closures / pointers
        if cls in('std::function','std::reference_wrapper','std::unique_ptr','std::shared_ptr') and args:
            v=args[0]
            ie=fr.fn.x[e['a'][0]]
            if ie.get('lv'): v=s.lookup(st,v)
            elif isinstance(v,tuple) and v[0] in('v','t'): v=s.lookup(st,v)
            sts=s.emit(fr,st,Ev('call',q=q,e=e,args=args,recv=T,line=e['l'],ctor=True,cls=cls))
            for x in sts:
                x.store[T]=v; x._k=None
                s.setv(fr,eid,x,T)
            return [('ok',x) for x in sts]
        if cls=='std::thread' and args and not e.get('cp'):
            f=args[0]
            if isinstance(f,tuple) and f[0] in('v','t'): f=s.lookup(st,f)
            s.threads.append((f,tuple(args[1:]),fr,e['l']))
            sts=s.emit(fr,st,Ev('thread',clo=f,args=args[1:],line=e['l'],loc=T,e=e))
            for x in sts: s.setv(fr,eid,x,T)
            return [('ok',x) for x in sts]
        fn=F.fns.get(e['f'])
        if cls=='std::chrono::duration' and fn is None and len(args)==1 and not e.get('cp'):
            v=args[0]
            if isinstance(v,tuple) and v[0] in('v','t','f','*'): v=s.lookup(st,v)
            if depth(v)<60:
                st.store[T]=v; st._k=None; s.setv(fr,eid,st,T); return [('ok',st)]
        if cls=='std::pair' and len(args)==2 and fn is None:
            v=('il',)+tuple(s.lookup(st,a) if isinstance(a,tuple) and a[0] in('v','t','f','*') else a for a in args)
            if depth(v)<60:
                st.store[T]=v; s.setv(fr,eid,st,T); return [('ok',st)]
        if cls=='std::pair' and len(args)==1 and fn is None and not e.get('cp'):
            v=s.lookup(st,args[0])
            if isinstance(v,tuple) and v[0]=='il':
                st.store[T]=v; s.setv(fr,eid,st,T); return [('ok',st)]
        sts=s.emit(fr,st,Ev('call',q=q,e=e,args=args,recv=T,line=e['l'],ctor=True,cls=cls,fn=fn))
        outs=[]
        for x in sts:
            if e.get('cp') and (fn is None or fn.dflt or fn.impl):
                src=args[0]
                if src!=T: s.copy_tree(x,src,T)
                # moving a lock-holding or closure value is a plain copy here
                s.setv(fr,eid,x,T)
                ys=s.access(fr,x,src,'r',e)
                outs+=[('ok',y) for y in ys]
                continue
            if fn is not None and s.can_inline(fn,fr):
                for y in [x]:
                    f2=s.mkframe(fn,fr,eid,T,{},e['l'],None,fr.fn.file)
                    s.bind(fr,f2,e,args,y)
                    for kk,vv,z in s.exec_fn(fn,f2,y):
                        if kk=='ret': s.setv(fr,eid,z,T); outs.append(('ok',z))
                        else: outs.append(('exc',vv,tuple(e.get('t',())),z))
                continue
            outs+=s.opaque_call(fr,eid,e,x,None,args,T)
        return outs

    def bind(s,fr,f2,e,args,st):
        fn=f2.fn
        for i,p in enumerate(fn.params):
            L=('v',f2.id,p['d'],p['n'])
            if i<len(args):
                a=args[i]
                ae=fr.fn.x.get(e['a'][i]) if i<len(e['a']) else None
                lv=bool(ae and ae.get('lv'))
                if p.get('ref'):
                    if lv or (isinstance(a,tuple) and a[0] in('t','v')): st.store[L]=('&',a)
                    else:
                        T=('t',f2.id,'p%d'%i)
                        st.store[T]=a; st.store[L]=('&',T)
                else:
                    v=s.lookup(st,a) if (lv or (isinstance(a,tuple) and a[0] in('t','v') )) else a
                    if depth(v)>60: v=('w',(f2.id,i))
                    ty=s.F.ty(p['ty'])
                    if isinstance(a,tuple) and a[0] in('t','v') and ty.get('rc'):
                        s.copy_tree(st,a,L)
                    if v is not None and v!=L: st.store[L]=v
            else:
                st.store.pop(L,None)
        st._k=None

    def volatile_name(s,q): return q.rsplit('::',1)[-1]

    def do_call(s,fr,eid,e,st):
        F=s.F
        q=e.get('q','')
        last=q.rsplit('::',1)[-1]
        args=[s.val(fr,a,st) for a in e['a']]
        recv=None
        if 'o' in e:
            recv=s.val(fr,e['o'],st)
            if e.get('ar') : recv=s.deref(recv)
        s.sites.add((fr.fn.file,e['l'],q))
        def ok(x,v):
            s.setv(fr,eid,x,v); return ('ok',x)
        # --- transparent
        if q in TRANSPARENT and (args or recv is not None):
            v=args[0] if args else s.deref(s.lookup(st,recv))
            if q in('std::addressof','std::__addressof'): v=('&',v)
            return [ok(st,v)]
        cls=q.rsplit('::',1)[0] if '::' in q else ''
        # --- locks
        if cls in('std::unique_lock','std::shared_lock') and recv is not None:
            lv=s.lookup(st,recv)
            if isinstance(lv,tuple) and lv[0]=='lk':
                if last=='lock':
                    sts=s.do_lock(fr,st,lv[1],e['l'],'lock')
                    for x in sts: x.store[recv]=('lk',lv[1],1); x._k=None
                    return [ok(x,None) for x in sts]
                if last=='unlock':
                    st.store=dict(st.store); st.store[recv]=('lk',lv[1],0)
                    return [ok(x,None) for x in s.do_unlock(fr,st,lv[1],e['l'])]
                if last in('owns_lock','operator-conv'): return [ok(st,('lit',lv[2]))]
                if last=='release':
                    st.store[recv]=('lk',lv[1],0); return [ok(st,('&',lv[1]))]
                if last=='operator=' :
                    sts=[st]
                    if lv[2]: sts=s.do_unlock(fr,st,lv[1],e['l'])
                    for x in sts:
                        src=s.lookup(x,args[0])
                        x.store[recv]=src if isinstance(src,tuple) else ('lk',lv[1],0)
                        if isinstance(src,tuple) and src[0]=='lk': x.store[args[0]]=('lk',src[1],0)
                        x._k=None
                    return [ok(x,recv) for x in sts]
        if cls in('std::mutex','std::recursive_mutex','std::timed_mutex','std::__mutex_base','std::shared_mutex') and recv is not None:
            if last=='lock': return [ok(x,None) for x in s.do_lock(fr,st,recv,e['l'],'lock')]
            if last=='unlock': return [ok(x,None) for x in s.do_unlock(fr,st,recv,e['l'])]
            if last=='try_lock':
                a=st.copy(); b=st
                r=[ok(x,('lit',1)) for x in s.do_lock(fr,a,recv,e['l'],'try')]
                return r+[ok(b,('lit',0))]
        if cls in('std::condition_variable','std::condition_variable_any','std::_V2::condition_variable_any') and recv is not None:
            if last.startswith('notify'):
                return [ok(x,None) for x in s.emit(fr,st,Ev('notify',loc=recv,line=e['l'],all=last=='notify_all',e=e))]
            if last in('wait','wait_for','wait_until'):
                lk=s.lookup(st,args[0]) if args else None
                M=lk[1] if isinstance(lk,tuple) and lk[0]=='lk' else args[0]
                pred=None
                if last=='wait' and len(args)>1: pred=args[1]
                if last!='wait' and len(args)>2: pred=args[2]
                outs=[]
                sts=s.emit(fr,st,Ev('cvwait',cv=recv,m=M,pred=pred is not None,line=e['l'],e=e,timed=last!='wait'))
                for x in sts:
                    s.shared_clobber(x,(fr.id,eid))
                    if pred is None:
                        outs.append(ok(x,('r',fr.id,eid))); continue
                    if isinstance(pred,tuple) and pred[0] in('v','t'): pred=s.lookup(x,pred)
                    s.inwait=getattr(s,'inwait',0)+1
                    res=s.call_closure(fr,eid,e,x,pred,[],[],None)
                    s.inwait-=1
                    for o in res:
                        if o[0]!='ok': outs.append(o); continue
                        v=o[1].vals.get((fr.id,eid))
                        tv=truth_of(o[1].facts,v) if v is not None else None
                        if tv is not False:
                            y=o[1].copy()
                            if v is not None and tv is None: y.facts=y.facts|frozenset(norm(v,True)); y._k=None
                            for z in s.emit(fr,y,Ev('cvwaited',cv=recv,m=M,line=e['l'],ok=True)): outs.append(ok(z,('lit',1) if last!='wait' else None))
                        if tv is not True:
                            y=o[1].copy()
                            if v is not None and tv is None: y.facts=y.facts|frozenset(norm(v,False)); y._k=None
                            s.emit(fr,y,Ev('cvagain',cv=recv,m=M,line=e['l']))
                        if last!='wait' and tv is not True:
                            y=o[1].copy()
                            if v is not None and tv is None: y.facts=y.facts|frozenset(norm(v,False)); y._k=None
                            for z in s.emit(fr,y,Ev('cvwaited',cv=recv,m=M,line=e['l'],ok=False)): outs.append(ok(z,('lit',0)))
                return outs
        if q in('std::make_pair','std::tie','std::make_tuple') and len(args)==2:
            v=('il',)+tuple(s.lookup(st,a) if isinstance(a,tuple) and a[0] in('v','t','f','*') else a for a in args)
            if depth(v)<60: return [ok(st,v)]
        if q in('std::swap','std::exchange') and len(args)==2 and all(s.scalar(fr,a) for a in e['a'][:1]):
            a,b=args
            va=s.lookup(st,a); vb=s.lookup(st,b) if isinstance(b,tuple) and b[0] in('v','t','f','*','p') else b
            outs=[]
            for x in s.emit(fr,st,Ev('write',loc=a,val=vb,line=e['l'],e=e,op='=')):
                s.write(x,a,vb,(fr.id,eid))
                va2=s.renamed(va,a,(fr.id,eid))
                if q=='std::exchange': outs.append(ok(x,va2)); continue
                for y in s.emit(fr,x,Ev('write',loc=b,val=va2,line=e['l'],e=e,op='=')):
                    s.write(y,b,va2,(fr.id,eid)); outs.append(ok(y,None))
            return outs
        # --- atomics
        if cls in('std::atomic','std::__atomic_base','std::__atomic_float','current::atomic_that_works') and recv is not None and not s.rule.raw_atomics:
            if last in('load','operator-conv'):
                sts=s.emit(fr,st,Ev('access',loc=recv,mode='r',atomic=True,line=e['l'],e=e))
                if s.rule.fresh_atomics:
                    for x in sts: s.clobber(x,recv,(fr.id,eid,'at'))
                return [ok(x,s.lookup(x,recv)) for x in sts]
            if last in('store','operator='):
                outs=[]
                for x in s.emit(fr,st,Ev('write',loc=recv,val=args[0],line=e['l'],e=e,op='=',atomic=True)):
                    s.write(x,recv,args[0],(fr.id,eid)); outs.append(ok(x,args[0]))
                return outs
            outs=[]
            for x in s.emit(fr,st,Ev('write',loc=recv,val=('r',fr.id,eid),line=e['l'],e=e,op=last,atomic=True)):
                if last in('compare_exchange_strong','compare_exchange_weak'):
                    y=x.copy()
                    # failure: expected is overwritten
                    s.clobber(y,args[0],(fr.id,eid,'f'))
                    outs.append(ok(y,('lit',0)))
                    s.write(x,recv,args[1],(fr.id,eid)); outs.append(ok(x,('lit',1)))
                else:
                    cur=s.lookup(x,recv)
                    s.clobber(x,recv,(fr.id,eid)); outs.append(ok(x,('r',fr.id,eid)))
            return outs
        # --- smart pointers / dereference of library objects
        fn=F.fns.get(e.get('f')) if e.get('f') else None
        if fn is None and recv is not None:
            if last in('operator->','operator*') and not args:
                sts=s.access(fr,st,recv,'r',e)
                outs=[]
                for x in sts:
                    v=s.lookup(x,recv)
                    x2=s.emit(fr,x,Ev('deref',loc=recv,val=v,line=e['l'],e=e))
                    for y in x2: outs.append(ok(y,s.deref(v) if last=='operator*' else (v if isinstance(v,tuple) and v[0]=='&' else ('&',('*',v)))))
                return outs
            if last=='get' and cls in('std::unique_ptr','std::shared_ptr','std::__shared_ptr') :
                return [ok(x,s.lookup(x,recv)) for x in s.access(fr,st,recv,'r',e)]
            if last=='operator-conv' and cls in('std::unique_ptr','std::shared_ptr','std::__shared_ptr','std::function'):
                return [ok(x,('b','!=',s.lookup(x,recv),('null',))) for x in s.access(fr,st,recv,'r',e)]
            if last=='operator=' and cls in('std::unique_ptr','std::shared_ptr','std::function','std::__shared_ptr') and args:
                v=args[0]
                if isinstance(v,tuple) and v[0] in('v','t','f','*'): v=s.lookup(st,v)
                outs=[]
                for x in s.emit(fr,st,Ev('write',loc=recv,val=v,line=e['l'],e=e,op='=',q=q)):
                    s.write(x,recv,v,(fr.id,eid)); outs.append(ok(x,recv))
                return outs
            if last=='operator()' :
                v=s.lookup(st,recv)
                if isinstance(v,tuple) and v[0]=='clo':
                    sts=s.access(fr,st,recv,'r',e)
                    outs=[]
                    for x in sts: outs+=s.call_closure(fr,eid,e,x,v,args,e['a'],s.target(fr,eid))
                    return outs
            # class assignment
            if last=='operator=' and len(args)==1:
                ae=fr.fn.x[e['a'][0]]
                outs=[]
                v=args[0]
                lv=s.lookup(st,v) if (ae.get('lv') or (isinstance(v,tuple) and v[0] in('v','t'))) else v
                sts=s.access(fr,st,args[0],'r',e) if ae.get('lv') else [st]
                for x0 in sts:
                    for x in s.emit(fr,x0,Ev('write',loc=recv,val=lv,line=e['l'],e=e,op='=',q=q)):
                        s.clobber(x,recv,(fr.id,eid))
                        if depth(lv)<60: x.store[recv]=lv
                        x._k=None
                        outs.append(ok(x,recv))
                if s.rule.exc and s.rule.throws(s,e,fr): outs+=[('exc',('any',),tuple(e.get('t',())),o[1].copy()) for o in list(outs)]
                return outs
        # comparison operators of library types
        if fn is None and 'op' in e and e['op'] in('==','!=','<','>','<=','>='):
            a,b=(recv,args[0]) if recv is not None else (args[0],args[1]) if len(args)==2 else (None,None)
            def rv(t,i):
                return s.lookup(st,t) if isinstance(t,tuple) and t[0] in('f','v','t','*') else t
            if a is not None:
                sts=[st]
                for t in(a,b):
                    if isinstance(t,tuple) and t[0] in('f','v','*','g'):
                        nx=[]
                        for x in sts: nx+=s.access(fr,x,t,'r',e)
                        sts=nx
                outs=[]
                for x in sts:
                    v=('b',e['op'],s.lookup(x,a) if isinstance(a,tuple) and a[0] in('f','v','t','*') else a, s.lookup(x,b) if isinstance(b,tuple) and b[0] in('f','v','t','*') else b)
                    if depth(v)>60: v=('w',(fr.id,eid))
                    for y in s.emit(fr,x,Ev('bin',op=e['op'],a=a,b=b,val=v,line=e['l'],e=e)): outs.append(ok(y,v))
                return outs
        # --- durations and time points are integers of one unit here
        if fn is None and cls in('std::chrono::duration','std::chrono') :
            def dv(t,i):
                if isinstance(t,tuple) and t[0] in('v','t','f','*'): return s.lookup(st,t)
                return t
            if last=='count' and recv is not None:
                outs=[]
                for x in s.access(fr,st,recv,'r',e): outs.append(ok(x,s.lookup(x,recv) if recv[0] in('v','t','f','*') else recv))
                return outs
            if last in('operator+','operator-') and len(args)==2:
                v=('b',last[-1],dv(args[0],0),dv(args[1],1))
                if depth(v)<60: return [ok(st,v)]
            if last in('operator++','operator--','operator+=','operator-=') and recv is not None:
                d=dv(args[0],0) if args and last[-1]=='=' else ('lit',1)
                v=('b',last[8],s.lookup(st,recv),d)
                if depth(v)>60: v=('w',(fr.id,eid))
                outs=[]
                for x in s.emit(fr,st,Ev('write',loc=recv,val=v,line=e['l'],e=e,op=last[8:],q=q)):
                    s.write(x,recv,v,(fr.id,eid)); outs.append(ok(x,recv))
                return outs
        # --- calls with a callee object
        cands=[]
        if fn is not None and not e.get('virt'): cands=[fn]
        elif e.get('virt'):
            ids={e['f']}|F.all_overriders(e['f'])
            # devirtualise on the static type of known locals
            cands=[F.fns[i] for i in ids if i in F.fns]
        sts=s.emit(fr,st,Ev('call',q=q,e=e,args=args,recv=recv,line=e['l'],fn=fn,cls=cls,virt=bool(e.get('virt'))))
        outs=[]
        for x in sts:
            # call through a pointer-like value
            if not q and e.get('ce'):
                cv=s.val(fr,e['ce'],x)
                if isinstance(cv,tuple) and cv[0]=='*' and isinstance(cv[1],tuple) and cv[1][0]=='fn': cv=cv[1]
                if isinstance(cv,tuple) and cv[0]=='fn' and cv[1] in F.fns and s.can_inline(F.fns[cv[1]],fr):
                    outs+=s.inline_call(fr,eid,e,x,F.fns[cv[1]],None,args); continue
                outs+=s.opaque_call(fr,eid,e,x,None,args,None); continue
            done=False
            # a lambda's operator() with known closure value
            if fn is not None and recv is not None and fn.lastq=='operator()' and '(lambda)' in fn.q:
                clo=s.lookup(x,recv) if not(isinstance(recv,tuple) and recv[0]=='clo') else recv
                outs+=s.call_closure(fr,eid,e,x,clo if isinstance(clo,tuple) and clo[0]=='clo' else ('clo',fn.rc,(fn.id,),('p',0,'closure'),()),args,e['a'],s.target(fr,eid),fn)
                continue
            inl=[c for c in cands if s.can_inline(c,fr)]
            if inl and len(inl)==len(cands):
                for c in inl:
                    outs+=s.inline_call(fr,eid,e,x.copy() if len(inl)>1 else x,c,recv,args)
                done=True
            if not done:
                outs+=s.opaque_call(fr,eid,e,x,recv,args,None)
        return outs

    def inline_call(s,fr,eid,e,x,c,recv,args):
        outs=[]
        f2=s.mkframe(c,fr,eid,recv if recv is not None else ('R',),{},e['l'],s.target(fr,eid),fr.fn.file)
        s.bind(fr,f2,e,args,x)
        sts=s.emit(f2,x,Ev('enter',fn=c,line=e['l'],recv=recv,args=args,e=e))
        for x2 in sts:
            for kk,vv,z in s.exec_fn(c,f2,x2):
                if kk=='ret':
                    for w in s.emit(fr,z,Ev('leave',fn=c,val=vv,line=e['l'],recv=recv,e=e)):
                        s.setv(fr,eid,w,vv); outs.append(('ok',w))
                else: outs.append(('exc',vv,tuple(e.get('t',())),z))
        return outs

    def call_closure(s,fr,eid,e,x,clo,args,argids,rettarget,fn=None):
        F=s.F
        if isinstance(clo,tuple) and clo[0]=='fn': 
            c=F.fns.get(clo[1])
            if c is not None and s.can_inline(c,fr):
                e2=dict(e); e2['a']=argids
                return s.inline_call(fr,eid,e2,x,c,None,args)
        if not(isinstance(clo,tuple) and clo[0]=='clo'):
            e2=dict(e); e2['a']=argids
            return s.opaque_call(fr,eid,e2,x,None,args,None)
        cand=[fn] if fn is not None else [F.fns[f] for f in clo[2] if f in F.fns]
        outs=[]
        for c in cand:
            if not s.can_inline(c,fr):
                e2=dict(e); e2['a']=argids
                outs+=s.opaque_call(fr,eid,e2,x.copy(),None,args,None); continue
            y=x.copy()
            caps={}
            this=clo[3]
            f2=s.mkframe(c,fr,('clo',eid),this,caps,e['l'],rettarget,fr.fn.file)
            for cp in clo[4]:
                if cp[0]=='this': continue
                if cp[1]=='r': caps[cp[0]]=('r',cp[2])
                else:
                    caps[cp[0]]=('c',)
                    # own copy
                    nm=None
                    for ee in c.x.values():
                        if ee['k']=='ref' and ee['d']==cp[0]: nm=ee['n']; break
                    if nm is not None and cp[2] is not None:
                        L=('v',f2.id,cp[0],nm)
                        if cp[2]!=L: y.store[L]=cp[2]
            e2=dict(e); e2['a']=argids
            s.bind(fr,f2,e2,args,y)
            for x2 in s.emit(f2,y,Ev('enter',fn=c,line=e['l'],recv=clo,args=args,e=e)):
                for kk,vv,z in s.exec_fn(c,f2,x2):
                    if kk=='ret':
                        for w in s.emit(fr,z,Ev('leave',fn=c,val=vv,line=e['l'],recv=clo,e=e)):
                            s.setv(fr,eid,w,vv); outs.append(('ok',w))
                    else: outs.append(('exc',vv,tuple(e.get('t',())),z))
        if not cand:
            e2=dict(e); e2['a']=argids
            outs+=s.opaque_call(fr,eid,e2,x,None,args,None)
        return outs

    def opaque_call(s,fr,eid,e,st,recv,args,T):
        F=s.F
        q=e.get('q',''); last=q.rsplit('::',1)[-1]
        outs=[]
        pure=True
        sts=[st]
        site=(fr.id,eid)
        ext=e.get('f') not in F.fns
        if recv is not None:
            mut=not e.get('cm') and last not in NONMUT and not(last=='operator[]' and 'map' not in q) and not last.startswith('operator-conv')
            nx=[]
            for x in sts: nx+=s.access(fr,x,recv,'w' if mut else 'r',e,extra=q)
            sts=nx
            if mut: pure=False
        pk=e.get('pk',[])
        for i,a in enumerate(args):
            kk=pk[i] if i<len(pk) else 0
            ae=fr.fn.x.get(e['a'][i]) if i<len(e['a']) else None
            isl=isinstance(a,tuple) and a[0] in('f','*','g','v') and bool(ae and ae.get('lv'))
            if isl:
                nx=[]
                for x in sts: nx+=s.access(fr,x,a,'w' if kk in(2,) or (kk==3) else 'r',e,extra=q)
                sts=nx
            if kk in(2,3,5): pure=False
        for x in sts:
            if recv is not None and mut: s.clobber(x,recv,site)
            for i,a in enumerate(args):
                kk=pk[i] if i<len(pk) else 0
                ae=fr.fn.x.get(e['a'][i]) if i<len(e['a']) else None
                cur=x.store.get(a) if isinstance(a,tuple) else None
                if isinstance(cur,tuple) and cur and cur[0]=='lk': continue   # a lock passed by reference comes back as it was
                if kk==2 and isinstance(a,tuple): s.clobber(x,a,site)
                elif kk==3 and isinstance(a,tuple) and ae and ae.get('lv') and not (isinstance(s.lookup(x,a),tuple) and s.lookup(x,a)[0]=='clo'): s.clobber(x,a,site)
                elif kk==5 and isinstance(a,tuple) and a[0]=='&': s.clobber(x,a[1],site)
        outs=[]
        for x in sts:
            if s.rule.exc:
                th=s.rule.throws(s,e,fr)
                if th:
                    for ty in (th if isinstance(th,(list,tuple)) and th and isinstance(th[0],tuple) else [('any',)]):
                        y=x.copy(); y.tr=(y.tr,'%s:%s %s throws'%(short(fr.fn.file),e['l'],q or 'call')); outs.append(('exc',ty,tuple(e.get('t',())),y))
            if T is not None:
                s.clobber(x,T,site)
                if args and len(args)==1 and not pure is None:
                    a=args[0]
                    # value-ish construction from one argument
                    x.store[T]=('c','ctor:'+q.rsplit('::',1)[-1],a) if depth(a)<60 else ('w',site)
                elif len(args)==0: x.store[T]=('dflt',q.rsplit('::',1)[-1])
                x._k=None
                s.setv(fr,eid,x,T)
            else:
                if last in('operator<<','operator>>') and e.get('lv') and isinstance(recv if recv is not None else args[0] if args else None,tuple) and ('stream' in q or q.startswith('std::operator')):
                    v=recv if recv is not None else args[0]
                    s.setv(fr,eid,x,v)
                    for y in s.emit(fr,x,Ev('called',q=q,e=e,args=args,recv=recv,line=e['l'],val=v,ctor=False)): outs.append(('ok',y))
                    continue
                if pure and (recv is not None or args) and (ext or e.get('cm')):
                    def cur(a,i):
                        return a
                    v=('c',q)+((recv,) if recv is not None else ())+tuple(s.lookup(x,a) if isinstance(a,tuple) and a[0]=='v' and not s.iscontainer(a) else a for a in args)
                    if s.rule.volatile and q.startswith(s.rule.volatile) and not any(z is None for z in v):
                        # another thread may change it: every evaluation yields a value of its own
                        s.clobber(x,('r',fr.id,eid),site)
                        v=v+(('r',fr.id,eid),)
                    if any(z is None for z in v) or depth(v)>60: v=('r',fr.id,eid)
                else: v=('r',fr.id,eid)
                if v==('r',fr.id,eid):
                    s.clobber(x,v,site)
                s.setv(fr,eid,x,v)
            for y in s.emit(fr,x,Ev('called',q=q,e=e,args=args,recv=recv,line=e['l'],val=x.vals.get((fr.id,eid)),ctor=T is not None)):
                outs.append(('ok',y))
        return outs

    def iscontainer(s,a): return False
    def scalar(s,fr,x):
        e=fr.fn.x.get(x)
        ty=s.F.ty(e.get('ty',0)) if e else {}
        return bool(ty.get('w') or ty.get('ptr') or ty.get('bool') or ty.get('enum') or ty.get('flt'))

    # ---------- entry points
    def run(s,fn,this=('R',),st=None,args=None):
        s.fnof=getattr(s,'fnof',{})
        fn.prep()
        fr=s.mkframe(fn,None,0,this,{},None,('retval',),None)
        s.rule.fr0=fr
        st=st or s.new_state()
        for i,p in enumerate(fn.params):
            L=('v',fr.id,p['d'],p['n'])
            if args and i<len(args): st.store[L]=args[i]
            elif p.get('ref'): st.store[L]=('&',('p',i,p['n']))
        outs=s.exec_fn(fn,fr,st)
        for o in outs: s.rule.end(s,o[2],o)
        return outs

    def run_closure(s,clo,args=()):
        s.fnof=getattr(s,'fnof',{})
        res=[]
        for f in clo[2]:
            c=s.F.fns.get(f)
            if c is None: continue
            c.prep()
            caps={}
            fr=s.mkframe(c,None,('thread',f),clo[3],caps,None,('retval',),None)
            st=s.new_state()
            for cp in clo[4]:
                if cp[0]=='this': continue
                if cp[1]=='r': caps[cp[0]]=('r',cp[2])
                else:
                    caps[cp[0]]=('c',)
                    for ee in c.x.values():
                        if ee['k']=='ref' and ee['d']==cp[0]:
                            L=('v',fr.id,cp[0],ee['n'])
                            if cp[2] is not None and cp[2]!=L: st.store[L]=cp[2]
                            break
            for i,p in enumerate(c.params):
                L=('v',fr.id,p['d'],p['n'])
                if i<len(args): st.store[L]=args[i]
                elif p.get('ref'): st.store[L]=('&',('p',i,p['n']))
            outs=s.exec_fn(c,fr,st)
            for o in outs: s.rule.end(s,o[2],o)
            res+=outs
        return res

STDEXC={'std::out_of_range':('std::out_of_range','std::logic_error','std::exception'),
        'std::invalid_argument':('std::invalid_argument','std::logic_error','std::exception'),
        'std::bad_alloc':('std::bad_alloc','std::exception'),'std::system_error':('std::system_error','std::runtime_error','std::exception')}

def short(f):
    if not f: return '?'
    return f[6:] if f.startswith('/repo/') else f
