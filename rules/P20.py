"""Routes of the HTTP server (blocks/http/impl/posix_server.h). The table of the routes is only touched under its mutex. The lookup strips one
component after another from the end of the path and returns the first handler registered for what remains with the number of components stripped.
Registration validates every argument count of the mask before it changes anything, then sets each; the scope returned removes just those.
A handler in use is waited for after the mutex is released. The thread of the server starts after everything it uses."""
from rulelib import *
import lib
ASSUME=['std::map, std::string and std::function behave as specified','memory is not exhausted','a scope is not copied out of the server it came from']
S='current::http::HTTPServerPOSIX'
def short_(q): return (q or '').rsplit('::',1)[-1]
def un(t):
    if isinstance(t,tuple):
        if len(t)==3 and t[0]=='old': return un(t[2])
        return tuple(un(x) for x in t)
    return t
def isc(t,*names): return isinstance(t,tuple) and len(t)>2 and t[0]=='c' and short_(t[1]) in names
class Roles:
    def __init__(s,F):
        fl=F.recbyq.get(S)
        if not fl: raise Broken('no class '+S)
        fl=fl[0]['fields']; s.fields=fl
        def one(what,p):
            r=[f['n'] for f in fl if p(F.tystr(f['ty']))]
            if len(r)!=1: raise Broken('%s of the HTTP server: %r'%(what,r))
            return r[0]
        s.h=one('the routes',lambda t:'map<' in t and 'Owned' in t); s.m=one('the mutex',lambda t:'mutex' in t); s.t=one('the thread',lambda t:'std::thread' in t)
        s.H=fld(s.h); s.M=fld(s.m)
class Locked(Rule):
    """the routes are only touched under the mutex; an Owned handler is not destroyed under it"""
    opaque=('std::','current::url','current::Optional','current::Owned','current::sync','current::MakeOwned','current::Exception','current::AccumulativeScopedDeleter','current::FileSystem','current::net','current::strings')
    cap=300; out_cap=300
    def __init__(s,F,ro,fn=None):
        s.F=F; s.ro=ro; s.name='locked'; s.n=0
        if fn is not None and fn.q.startswith(S+'::ServeStatic'): s.opaque=s.opaque+(S+'::Register',)     # analysed on its own
    def init(s): return None
    def throws(s,eng,e,fr): return None
    def on(s,eng,st,ev):
        if ev.k in('access','write','call','deref') :
            for l in (ev.loc,ev.recv):
                if l is not None and s.ro.h in path_fields(l) and path_root(l)[0] in('R','v','p','clo','t') and mentions_kind(l,lambda x:isinstance(x,tuple) and len(x)==3 and x[0]=='f' and x[2]==s.ro.h):
                    s.n+=1
                    if not any(isinstance(m,tuple) and m[:1]==('f',) and m[2]==s.ro.m for m in st.held): eng.report(ev.fr,ev.line,'the routes are used without the mutex',st,rule='locked')
class Find(Rule):
    keep_root_facts=True
    opaque=Locked.opaque; cap=400; out_cap=400
    # state: cur (the location of what remains), phase, decoded, added, cut, lookups, found
    def __init__(s,F,fn,ro): s.F=F; s.fn=fn; s.ro=ro; s.name='find'; s.nlook=0; s.nret=0
    def init(s): return (None,'start',None,False,False,None,False)
    def isbase(s,l): return isinstance(l,tuple) and l[0]=='f' and l[2]=='base_path' and l[1][0]=='p'
    def ispath(s,v): return isinstance(v,tuple) and v[0]=='p' and v[1]==0
    def cutpos(s,eng,t,cur):
        """the position after the last slash of cur"""
        t=un(t)
        if isinstance(t,tuple) and t[:2]==('b','+'):
            a,b=t[2],t[3]
            if a==('lit',1): a,b=b,a
            if b==('lit',1) and isc(a,'rfind','find_last_of') and un(a[2]) in(cur,('p',0,'path')) and len(a)>3 and (litv(a[3])==47 or a[3]==('str','/')): return True
        return False
    def iscur(s,eng,st,x,cur):
        x=un(x)
        if x==cur: return True
        return cur is not None and x==un(eng.lookup(st,cur))
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        cur,ph,dec,add,cut,look,bor=st.rs
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='find')
        if ev.k in('write','decl'):
            l=ev.loc
            if s.ispath(un(ev.val)) and (s.isbase(l) or ev.k=='decl' and 'string' in s.F.tystr(ev.v['ty']) and '&' not in s.F.tystr(ev.v['ty'])):
                if cur is None: return (l,'based',None,False,False,None,False)
            if l==cur and cur is not None and ev.k=='write' and not (isc(ev.val,'substr') and s.okcut(eng,st,ev.val,cur)):
                R('what remains of the path is replaced'); return
        if ev.k=='branch' and look is not None:
            t=ev.val; pol=ev.pol
            while isinstance(t,tuple) and t and t[0]=='!': t=t[1]; pol=not pol
            v=un(look[1] if look[0]=='o' else look[3]); k=None; t=un(t)
            if isinstance(t,tuple) and len(t)==4 and t[1] in('==','!=') and v in t[2:]:
                o=t[3] if t[2]==v else t[2]
                if s.ends(o) and o[2]==v[2]: k=pol==(t[1]=='!=')
                elif litv(o)==0: k=pol==(t[1]=='!=')
            elif t==v: k=pol
            if k is not None: return (cur,ph,dec,add,cut,look[:-1]+(k,),bor)
        if ev.k=='call' and cur is not None and ev.recv==cur:
            n=short_(ev.q); u=un(ev.args[0]) if ev.args else None
            if n=='pop_back' or n=='resize' and isinstance(u,tuple) and u[:2]==('b','-') and u[3]==('lit',1) and isc(u[2],'length','size') and s.iscur(eng,st,u[2][2],cur): return s.pop(eng,st,ev,R)
        if ev.k=='called' and cur is not None:
            n=short_(ev.q)
            if n=='substr' and ev.recv is not None and s.iscur(eng,st,ev.recv,cur) and not cut and s.cutpos(eng,ev.args[0],cur) and (len(ev.args)<2 or (litv(ev.args[1]) or 0)>1<<62): return (cur,ph,('component',un(ev.val)),add,cut,look,bor)
            if n=='DecodeURIComponent' and isinstance(dec,tuple) and dec[0]=='component':
                a=ev.args[0]; a=un(eng.lookup(st,a) if a[0] in('v','t') else a)
                if a==dec[1]: return (cur,ph,ev.val,add,cut,look,bor)
            if n=='add' and 'URLPathArgs' in ev.q:
                if dec is None or un(eng.lookup(st,ev.args[0]) if ev.args[0][0] in('v','t') else ev.args[0])!=dec and ev.args[0]!=dec: R('what is added to the arguments is not the decoded last component of the path')
                if add: R('a component is added to the arguments twice')
                if look is None: R('a component is stripped before looking for a handler of the whole')
                elif not s.failed(st,look): R("a component is stripped although a handler may have been found")
                return (cur,ph,None,True,cut,look,bor)
            if n in('resize','erase') and ev.recv==cur and (n=='resize' or len(ev.args)<2 or (litv(ev.args[1]) or 0)>1<<62):
                a=ev.args[0]
                if s.cutpos(eng,a,cur):
                    if cut: R('two components are stripped for one argument')
                    if look is None or not s.failed(st,look): R('a component is stripped although a handler may have been found')
                    return (cur,ph,dec,add,True,look,bor)
                u=un(a)
                if isinstance(u,tuple) and u[:2]==('b','-') and u[3]==('lit',1) and isc(u[2],'length','size') and (s.iscur(eng,st,u[2][2],cur) or s.ispath(u[2][2])): return
                R('what remains of the path is cut elsewhere than after its last slash'); return
            if n in('append','push_back','assign','insert','clear','replace','operator+=','swap') and ev.recv==cur: R('what remains of the path is changed'); return
            if n in('find','count','contains') and 'map' in ev.q and ev.recv==s.ro.H:
                if not s.iscur(eng,st,ev.args[0],cur): R('the handler is not looked for by what remains of the path')
                if add!=cut: R('the number of arguments is not the number of the components stripped')
                if not s.trimmed(st,cur): R('what remains of the path may end by a slash')
                s.nlook+=1
                return (cur,ph,None,False,False,('o',ev.val,None),bor)
            if n in('find','count','contains') and 'map' in ev.q and ev.recv is not None and mentions(ev.recv,s.ro.H) and ev.recv!=s.ro.H:
                a=un(ev.args[0])
                a=un(eng.lookup(st,a)) if a[0] in('v','t') else a
                if not(isc(a,'size') and 'URLPathArgs' in a[1]): R('the handler is not looked for by the number of the arguments')
                if add or cut: R('the number of arguments is not the number of the components stripped')
                return (cur,ph,dec,add,cut,('i',look[1] if look and look[0]=='o' and look[2] else None,ev.recv,ev.val,None),bor)
            if n=='Borrowed':
                ok=look is not None and look[0]=='i' and ev.args and un(ev.args[0])==un(('f',('*',look[3]),'second')) and look[4] is True and look[1] is not None and un(look[2])==un(('f',('*',look[1]),'second'))
                if not ok: R('what is returned is not the handler found')
                if add or cut: R('the number of arguments is not the number of the components stripped')
                return (cur,ph,dec,add,cut,look,True)
    def okcut(s,eng,st,v,cur): return False
    def pop(s,eng,st,ev,R):
        cur=st.rs[0]
        c=(cur,un(eng.lookup(st,cur)))
        ok1=any(op=='==' and {x for x in(litv(a),litv(b))}&{47} and any(isc(y,'back','operator[]') and un(y[2]) in c for y in(a,b)) for op,a,b in st.facts)
        ok2=any(any(isc(y,'length','size') and un(y[2]) in c for y in(a,b)) for op,a,b in st.facts if op in('>','<','>=','<=','!=')) or any(op=='!=' and (a in c and b==('str','/') or b in c and a==('str','/')) for op,a,b in st.facts)
        if not ok1 or not ok2: R('the last character of what remains of the path is dropped although it may not be a trailing slash')
        return
    def trimmed(s,st,cur):
        for op,a,b in st.facts:
            if op=='!=' and 47 in(litv(a),litv(b)) and any(isc(y,'back') for y in(a,b)): return True
            if op in('<','<=') and isc(a,'length','size') and litv(b) is not None and litv(b)<=(1 if op=='<=' else 2): return True
            if op in('>','>=') and isc(b,'length','size') and litv(a) is not None and litv(a)<=(1 if op=='>=' else 2): return True
            if op=='==' and isc(a,'length','size') and litv(b)==1: return True
            if op=='==' and ('str','/') in(a,b): return True
        return False
    def ends(s,t): return isc(t,'end','cend')
    def failed(s,st,look): return look[-1] is False
    def end(s,eng,st,out):
        if out[0]!='ret' or not getattr(s,'fr0',None): return
        cur,ph,dec,add,cut,look,bor=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='find')
        s.nret+=1
        if bor:
            if not s.isbase(cur) : 
                if eng.lookup(st,('f',('p',1,s.fn.params[1]['n']),'base_path'))!=cur: R('the part of the path which matched is not told')
            return
        if any(op=='T' and isc(a,'empty') or op=='!=' and 47 in(litv(a),litv(b)) and any(isc(y,'operator[]','front','at') for y in(a,b)) for op,a,b in st.facts) and look is None: return
        if look is None: R('no handler is returned without looking for one'); return
        if not s.failed(st,look): R('no handler is returned although one may have been found')
        if add or cut: R('the search stops before the last handler is looked for')
        c=(cur,un(eng.lookup(st,cur)),('p',0,'path'))
        if not any(op=='==' and (a in c and b==('str','/') or b in c and a==('str','/')) or op in('<','<=','==') and isc(a,'length','size') and litv(b) in(1,2) for op,a,b in st.facts): R('the search stops before the root')
class Table(Rule):
    keep_root_facts=True
    """DoRegisterHandler and UnRegister. Counters are followed by the number of steps since they were initialised; the bit of the mask and the key have to be at the same step"""
    opaque=Locked.opaque+(S+'::ValidateRoute',); cap=400; out_cap=400
    def __init__(s,F,fn,ro,kind):
        s.F=F; s.fn=fn; s.ro=ro; s.kind=kind; s.name='table'; s.nset=0; s.nbits=0
        ps={}
        for p in fn.params:
            t=F.tystr(p['ty'])
            if 'CountMask' in t: ps['mask']=p['n']
            elif 'function' in t: ps['handler']=p['n']
            elif 'ReRegister' in t: ps['policy']=p['n']
            elif 'string' in t: ps['path']=p['n']
        s.ps=ps; s.maxargs=enumvals(F,'URLPathArgs').get('MaxArgsCount')
        if s.maxargs is None or 'mask' not in ps or 'path' not in ps or kind=='set' and len(ps)!=4: raise Broken(fn.q+': parameters')
        s.upd=enumvals(F,'::SilentlyUpdateExisting').get('SilentlyUpdateExisting')
        if s.upd is None: raise Broken('ReRegisterRoute')
    # state: phase, levels (frozenset of (loc,level)), bit None|True|False|'unknown', andval, done flags, loop
    def init(s): return ('check' if s.kind=='set' else 'write',frozenset(),None,None,frozenset(),'none',None)
    def isp(s,t,n): return isinstance(t,tuple) and t and t[0] in('p','v') and t[-1]==s.ps.get(n)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        ph,lv,bit,av,did,loop,ret=st.rs
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='table')
        L=dict(lv)
        if ev.k=='decl' or ev.k=='write':
            t=s.F.tystr(ev.v['ty']) if ev.k=='decl' else None
            v=litv(ev.val) if isinstance(ev.val,tuple) else None
            if ev.k=='decl' and v is not None:
                if 'CountMask' in t and v==1 : L[ev.loc]=('m',0)
                elif v==0 and t.replace('const ','') in('unsigned long','size_t','std::size_t','unsigned int','int','unsigned short'): L[ev.loc]=('i',0); loop='begun'; bit=None; did=frozenset()
                else: return
                return (ph,frozenset(L.items()),bit,av,did,loop,ret)
            if ev.k=='write' and ev.loc in L:
                k,n=L[ev.loc]
                if v is not None:
                    if k=='m' and v==1 or k=='i' and v==0:
                        L[ev.loc]=(k,0)
                        if k=='i': loop='begun'; bit=None; did=frozenset()
                    else: L[ev.loc]=(k,'?')
                elif k=='i':
                    x=un(ev.val); ok=isinstance(x,tuple) and x[:2]==('b','+') and ('lit',1) in x[2:]
                    if loop=='in': s.advance(eng,st,ev,R)
                    L[ev.loc]=(k,s.inc(n) if ok else '?'); bit=None; did=frozenset(); av=None
                    loop='next'
                elif k=='m':
                    L[ev.loc]=(k,s.inc(n) if av==('sh',ev.val) else '?'); av=None
                return (ph,frozenset(L.items()),bit,av,did,loop,ret)
        if ev.k=='branch':
            t=ev.val; pol=ev.pol
            while isinstance(t,tuple) and t and t[0]=='!': t=t[1]; pol=not pol
            u=un(t)
            if isinstance(u,tuple) and u[:1]==('b',) and len(u)==4 and u[1] in('==','!='):
                x,y=u[2],u[3]
                if isc(x,'end','cend'): x,y=y,x
                if isc(y,'end','cend') and isc(x,'find') and x[2]==y[2] and x[2]!=s.ro.H: return (ph,lv,bit,av,did|{('i',pol==(u[1]=='!='))},loop,ret)
                if isc(x,'size') and litv(y)==0 and 'erased' in did: return (ph,lv,bit,av,did|{('empty',pol==(u[1]=='=='))},loop,ret)
            if isc(u,'empty') and 'erased' in did: return (ph,lv,bit,av,did|{('empty',pol)},loop,ret)
            if isinstance(t,tuple) and t[:1]==('b',) and len(t)==4:
                op,a,b=t[1],t[2],t[3]
                l=litv(b)
                if l is not None and (op,l) in((('<=',s.maxargs)),('<',s.maxargs+1),('!=',s.maxargs+1)) and isinstance(un(a),tuple) and (un(a)[0] in('lh','lit','v','b')) and loop in('begun','next'):
                    return (ph,lv,None if pol else bit,av,frozenset() if pol else did,'in' if pol else 'done',ret)
                if av is not None and av[0]=='and' and av[1] in(un(a),un(b)) and op in('==','!='):
                    o=un(b) if un(a)==av[1] else un(a)
                    zero=litv(o)==0 and not(av[2]==('lit',0))
                    s.nbits+=1
                    return (ph,lv,(pol if op=='==' else not pol)!=zero if True else None,av,did,loop,ret)
            if av is not None and av[0]=='and' and un(t)==av[1]: return (ph,lv,pol,av,did,loop,ret)
        if ev.k=='called' and ev.val is not None or ev.k=='called':
            n=short_(ev.q); q=ev.q or ''
            if 'url' in q and n=='operator<<':
                m=[x for x in L.values() if x[0]=='m']
                if m and litv(ev.args[1])==1: return (ph,lv,bit,('sh',ev.val),did,loop,ret)
                if litv(ev.args[0])==1: return (ph,lv,bit,('by',un(ev.val),un(ev.args[1])),did,loop,ret)
            if 'url' in q and n=='operator<<=' and ev.args[0] in L:
                L[ev.args[0]]=('m',s.inc(L[ev.args[0]][1]) if litv(ev.args[1])==1 else '?')
                return (ph,frozenset(L.items()),bit,av,did,loop,ret)
            if 'url' in q and n=='operator&':
                a=[x for x in ev.args]
                if not any(s.isp(un(x),'mask') for x in a): R('the mask tested is not the one given'); return
                m=[(l,x) for l,x in L.items() if x[0]=='m']; i=[(l,x) for l,x in L.items() if x[0]=='i']
                o=[x for x in a if not s.isp(un(x),'mask')]
                if av is not None and av[0]=='by' and o and un(o[0])==av[1]:
                    if i and i[-1][1][1]!='?': L[i[-1][0]]=('i','k')
                else:
                    if len(i)<1 or len(m)<1: R('the bit tested is not followed'); return
                    # the counters of the loop at hand are those in scope; the last declared
                    if not any(x[1]==y[1]!='?' for _,x in m for _,y in i): R('the bit of the mask and the number of the arguments are not in step')
                    for l,x in m+i:
                        if x[1]!='?': L[l]=(x[0],'k' if any(y[1]==x[1] for _,y in (i if x[0]=='m' else m)) else x[1])
                if loop!='in': R('the mask is tested outside of the loop over the numbers of arguments')
                return (ph,frozenset(L.items()),bit,('and',un(ev.val),un(o[0]) if o else None),did,loop,ret)
            # the table
            if 'map' in q:
                onH=ev.recv==s.ro.H
                inner=not onH and ev.recv is not None and (mentions(un(ev.recv),s.ro.H) or un(ev.recv)[0]=='r')
                if onH and n in('find','operator[]','at','erase','emplace','try_emplace','insert','count') and ev.args and not(s.isp(un(ev.args[0]),'path') or n=='erase' and s.outer(un(eng.lookup(st,ev.args[0]) if ev.args[0][0] in('v','t') else ev.args[0]))):
                    R('the routes of another path are used')
                if onH and n in('operator[]','emplace','try_emplace','insert'):
                    if ph=='check' and loop!='done': R('the routes are changed before every argument count has been validated')
                    return ('write',lv,None,None,frozenset(),'none' if ph=='check' else loop,ret)
                if onH and n=='erase':
                    if 'erased' not in did or ('empty',True) not in did: R('all routes of a path are removed although some may remain')
                    return (ph,lv,bit,av,did|{'outer'},loop,ret)
                if onH and n in('clear','swap','extract','merge'): R('routes of other paths are removed')
                if inner and n in('find','operator[]','at','count','emplace','try_emplace','insert_or_assign') and ev.args and 'Owned' in s.innertype(ev):
                    if not s.iskey(eng,st,ev.args[0],L): R('the key is not the number of the arguments at hand')
                if inner and n in('clear','swap','extract','merge'): R('routes of other argument counts are removed')
                if inner and n=='erase':
                    if s.kind=='set': R('a route is removed while registering')
                    if bit is not True: R('a route which is not in the mask is removed')
                    if 'retired' not in did: R('a handler is destroyed, which waits for its users, under the mutex')
                    return (ph,lv,bit,av,did|{'erased'},loop,ret)
            if n in('push_back','emplace_back') and 'vector' in q and ev.args and isinstance(ev.args[0],tuple) and ev.args[0][0]=='f' and ev.args[0][2]=='second':
                if not any(x[0]==ev.recv for x in (ret or ())) : R('a handler is retired into what is destroyed under the mutex')
                return (ph,lv,bit,av,did|{'retired'},loop,ret)
            if n=='vector' and ev.val is not None and not ev.args and not st.held: return (ph,lv,bit,av,did,loop,(ret or ())+((ev.val,),))
            if n=='MakeOwned': return (ph,lv,bit,av,did|({('own',ev.val)} if s.isp(un(ev.args[0]),'handler') else set()),loop,ret)
            if n=='operator=' and 'Owned' in q:
                if s.kind!='set' or bit is not True: R('a route which is not in the mask is set')
                if ('own',ev.args[0]) not in did: R('what is registered is not the handler given')
                if 'retired' not in did and not s.known(st,False): R('a handler is destroyed, which waits for its users, under the mutex')
                s.nset+=1
                return (ph,lv,bit,av,did|{'set'},loop,ret)
        if ev.k=='throw':
            if ph=='write' and s.kind=='set': R('registration fails after it has begun to change the routes')
            if s.kind=='set' and ph=='check':
                u=s.policy(st)
                if bit is not True: R('registration fails because of an argument count which is not in the mask')
                elif not(s.known(st,False) and u is True or s.known(st,True) and u is False): R('registration fails although the argument count is free, or is there to be updated')
            if s.kind!='set':
                if bit is not True or not s.known(st,False): R('removing a route fails although it is registered')
    def innertype(s,ev): return (ev.q or '')+'Owned'
    def inc(s,n): return {0:1,1:2,'k':'k+1','k+1':'k+2'}.get(n,'?')
    def outer(s,t): return isc(t,'find') and t[2]==s.ro.H
    def iskey(s,eng,st,x,L):
        i=[l for l,v in L.items() if v[0]=='i' and v[1]=='k']
        return x in i or un(eng.lookup(st,x) if isinstance(x,tuple) and x[0] in('v','t') else x) in [un(eng.lookup(st,l)) for l in i]
    def policy(s,st):
        for op,a,b in st.facts:
            x,y=un(a),un(b)
            for p,l in((x,litv(y)),(y,litv(x))):
                if s.isp(p,'policy') and l is not None:
                    if op=='==': return l==s.upd
                    if op=='!=': return (l!=s.upd)      # two policies only
        return None
    def known(s,st,present):
        """whether the route at hand is known to be there (present=True) or not"""
        end=lambda t: isc(t,'end','cend')
        did=st.rs[4]; o=None; i=True if ('i',True) in did else False if ('i',False) in did else None
        for op,a,b in st.facts:
            if op not in('==','!='): continue
            x,y=un(a),un(b)
            if end(x): x,y=y,x
            if not(end(y) and isc(x,'find')): continue
            if x[2]==s.ro.H:
                if y[2]==s.ro.H and s.isp(x[3],'path'): o=op=='!='
            elif y[2]==x[2]: i=op=='!='
        if present: return i is True
        return o is False or i is False
    def advance(s,eng,st,ev,R):
        ph,lv,bit,av,did,loop,ret=st.rs
        if bit is None: R('an argument count is skipped'); return
        if ph=='check' and bit:
            u=s.policy(st)
            if s.known(st,True):
                if u is not True: R('a route which is already registered passes the validation')
            elif s.known(st,False):
                if u is not False: R('a route which is not registered passes the validation of an update')
            else: R('it is not found out whether the route is registered')
        if ph=='write' and s.kind=='set' and bit and 'set' not in did: R('a route of the mask is not set')
        if s.kind!='set' and bit:
            if 'erased' not in did: R('a route of the mask is not removed')
            elif 'outer' not in did and ('empty',False) not in did: R('a path may be left without routes')
    def end(s,eng,st,out):
        if out[0]!='ret' or not getattr(s,'fr0',None): return
        ph,lv,bit,av,did,loop,ret=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='table')
        if any(op=='==' and (s.isp(un(a),'mask') and litv(b)==0 or s.isp(un(b),'mask') and litv(a)==0) for op,a,b in st.facts): return
        if ph!='write' or loop!='done': R('not every argument count is considered')
class Scope(Rule):
    keep_root_facts=True
    """what DoRegisterHandler returns; and the removal it stands for"""
    opaque=Locked.opaque+(S+'::ValidateRoute',); cap=400; out_cap=400
    def __init__(s,T): s.T=T; s.F=T.F; s.fn=T.fn; s.name='scope'; s.n=0; s.alias={}
    def init(s): return None
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        if ev.k=='decl':
            for r in s.T.ps:
                if s.T.isp(ev.val,r): s.alias[ev.loc[-1]]=s.T.ps[r]
        if ev.k=='called' and short_(ev.q)=='AccumulativeScopedDeleter' and ev.fr.depth==0: return ('some' if ev.args else 'none')
    def end(s,eng,st,out):
        if out[0]!='ret' or not getattr(s,'fr0',None): return
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='scope')
        zero=any(op=='==' and (s.T.isp(un(a),'mask') and litv(b)==0 or s.T.isp(un(b),'mask') and litv(a)==0) for op,a,b in st.facts)
        if zero: return
        u=s.T.policy(st); s.n+=1
        if st.rs is None or u is None: R('what is returned does not depend on the policy'); return
        if (st.rs=='none')!=u: R('an update returns a scope which removes the route, or a registration does not')
class Undo(Rule):
    opaque=Locked.opaque+(S+'::UnRegister',)
    def __init__(s,F,fn,ps,alias): s.F=F; s.fn=fn; s.ps=ps; s.name='undo'; s.alias=alias
    def init(s): return 0
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        if ev.k=='call' and ev.q==S+'::UnRegister':
            def nm(t):
                t=un(t)
                while isinstance(t,tuple) and t and t[0] in('*','&'): t=t[1]
                n=t[-1] if isinstance(t,tuple) and t else None
                return s.alias.get(n,n) if isinstance(n,str) else None
            if [nm(a) for a in ev.args]!=[s.ps['path'],s.ps['mask']]: eng.report(ev.fr,ev.line,'the scope does not remove what has been registered',st,rule='scope')
            return st.rs+1
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs!=1 and getattr(s,'fr0',None): eng.report(s.fr0,s.fn.line,'the scope does not remove what has been registered',st,rule='scope')
class Over(Rule):
    """an overload of Register hands on the path, the mask, the handler and the policy"""
    opaque=Locked.opaque+(S+'::DoRegisterHandler',)
    def __init__(s,F,fn,order): s.F=F; s.fn=fn; s.order=order; s.name='over'; s.upd={**enumvals(F,'::SilentlyUpdateExisting'),**enumvals(F,'::ThrowOnAttempt')}; s.upd.setdefault('ThrowOnAttempt',1-s.upd['SilentlyUpdateExisting'])
    def init(s): return (0,frozenset())
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        n,fs=st.rs
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='over')
        names={p['n']:s.F.tystr(p['ty']) for p in s.fn.params}
        if ev.k=='called' and short_(ev.q) in('function','forward','move') and ev.args: return (n,fs|{(ev.val,ev.args[0])})
        if ev.k=='call' and ev.q==S+'::DoRegisterHandler':
            d=dict(fs)
            for role,a in zip(s.order,ev.args):
                a=un(a); k=0
                while k<4:
                    k+=1
                    if a in d: a=d[a]; continue
                    if isinstance(a,tuple) and a and a[0]=='t':
                        b=eng.lookup(st,a)
                        if b==a or b is None: break
                        a=b; continue
                    break
                if role=='path' and not(isinstance(a,tuple) and a[0] in('p','v') and a[-1]=='path'): R('another path is registered than the one given')
                if role=='mask':
                    if any('CountMask' in t for t in names.values()):
                        if not(isinstance(a,tuple) and a[0] in('p','v') and 'CountMask' in names.get(a[-1],'')): R('another mask is registered than the one given')
                    elif litv(a)!=1: R('a route without arguments is not registered as such')
                if role=='policy':
                    w=(s.fn.ta or '').split(',')[0].strip('<> ').rsplit('::',1)[-1]
                    if w in s.upd and litv(a)!=s.upd[w]: R('the policy asked for is not used')
                if role=='handler':
                    hn=[p['n'] for p in s.fn.params][-1]
                    if not mentions_kind(a,lambda x:isinstance(x,tuple) and len(x)>1 and x[0] in('p','v') and x[-1]==hn): R('what is registered is not the handler given: '+repr(a)[:120])
            return (n+1,fs)
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs[0]!=1 and getattr(s,'fr0',None): eng.report(s.fr0,s.fn.line,'the handler is not registered',st,rule='over')
def go(c,r,F,f,rule,what,n=1):
    e=Engine(F,r); e.run(f); c.from_engine(e); c.obligation(rule,what,n=n); return r
def run(c):
    F=lib.facts('w_http.cc'); ro=Roles(F)
    fs=[f for f in F.fns.values() if (f.q or '').startswith(S+'::') and not f.implicit and not f.ctor and not f.dtor]
    n=0
    for f in fs:
        r=f.q[len(S)+2:]
        if r.endswith('::') or '~' in r: continue
        top='::' not in r
        if top and f.acc!=0 and r!='Thread': continue     # private ones are followed from the public ones
        if top and r in('LocalPort','Join'): continue
        if not top and not(r.startswith('ServeStaticFilesFrom') or 'operator()' in r): continue
        n+=go(c,Locked(F,ro,f),F,f,'locked',f.q+(f.ta or '')[:60]).n
    if not c.viol and n<10: raise Broken('the routes are used %d times'%n)
    fs=F.find(S+'::FindHandler')
    if not fs: raise Broken('FindHandler')
    for f in fs:
        r=go(c,Find(F,f,ro),F,f,'find',f.q)
        if not c.viol and (r.nlook<1 or r.nret<2): raise Broken('FindHandler is not understood')
    D=F.find(S+'::DoRegisterHandler'); U=F.find(S+'::UnRegister')
    if not D or not U: raise Broken('DoRegisterHandler, UnRegister')
    for f in D:
        t=Table(F,f,ro,'set'); go(c,t,F,f,'table',f.q)
        if not c.viol and (t.nset<1 or t.nbits<2): raise Broken('DoRegisterHandler is not understood')
        r=go(c,Scope(t),F,f,'scope',f.q)
        if not c.viol and r.n<2: raise Broken('the scope is not understood')
        k=[g for g in F.fns.values() if g.q.startswith(S+'::DoRegisterHandler::(lambda)::operator()')]
        if not k: raise Broken('the lambda of the scope')
        for g in k: go(c,Undo(F,g,t.ps,r.alias),F,g,'scope',g.q)
        order=[next(a for a,b in t.ps.items() if b==p['n']) for p in f.params]
    for f in U: go(c,Table(F,f,ro,'unset'),F,f,'table',f.q)
    for f in F.find(S+'::Register'): go(c,Over(F,f,order),F,f,'over',f.q+(f.ta or '')[:60])
    names=[f['n'] for f in ro.fields]
    used={'find':ro.h}
    late=[x for x in names[names.index(ro.t)+1:]]
    c.obligation('order','std::thread of '+S)
    if late: c.violation('order','blocks/http/impl/posix_server.h',0,'the thread of the server is started before %s, which it uses, is constructed'%', '.join(late),S)
    c.floor('locked',8); c.floor('over',6)
