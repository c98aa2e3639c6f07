"""One response per HTTP request (bricks/net/http/impl/server.h, blocks/http/request.h, blocks/http/impl/posix_server.h). The flag
of the connection is a typestate: nothing is sent once it is set, whoever sends leaves it set, a second attempt throws, and the destructor
answers 500 exactly when nothing has been sent. The parser answers a malformed request once and then throws. The server thread gives each accepted
connection to one handler, or answers 404 itself. A moved-from Request sends nothing. A chunked response is, on every path, the pending bytes followed by the size in
hex, CRLF, the data, CRLF; the cache is never overrun; the zero chunk is sent once, at the end, unless writing has failed."""
from rulelib import *
import lib
ASSUME=['handlers of the user let only exceptions derived from current::Exception out','a handler keeps the Request alive while it uses its connection']
SC='current::net::GenericHTTPServerConnection'
IMPL=SC+'::ChunkedResponseSender::Impl'
def short_(q): return (q or '').rsplit('::',1)[-1]
def sends(q): return (q or '').startswith('current::net::HTTPResponder::SendHTTPResponse')
def writes(q): return q=='current::net::Connection::BlockingWrite'
def recid(F,q):
    r=F.recbyq.get(q)
    if not r: raise Broken('no class '+q)
    return r[0]['id']
class Once(Rule):
    exc=True; cap=300; out_cap=300
    opaque=('current::net::HTTPResponder','current::net::Connection','current::net::GenericHTTPRequestData','current::Exception','current::url',SC+'::ChunkedResponseSender')
    def __init__(s,F,fn): s.F=F; s.fn=fn; s.name='once'; s.flag=fld('responded_'); s.sock=recid(F,'current::net::SocketException'); s.saw=0; s.ends=[]
    def init(s): return (0,None,None)          # responses, flag at the entry, last value written
    def throws(s,eng,e,fr):
        q=e.get('q') or ''
        return [('rec',s.sock)] if sends(q) or writes(q) else None
    def entry(s,st,rs):
        if rs[1] is None and rs[2] is None:
            if ('F',s.flag,None) in st.facts: return (rs[0],False,None)
            if ('T',s.flag,None) in st.facts: return (rs[0],True,None)
            for op,a,b in st.facts:
                if op in('==','!=') and s.flag in(a,b):
                    l=litv(a if b==s.flag else b)
                    if l is not None: return (rs[0],bool(l)==(op=='=='),None)
        return rs
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        rs=s.entry(st,st.rs)
        if ev.k=='write' and ev.loc==s.flag:
            if litv(ev.val) not in(1,True): eng.report(ev.fr,ev.line,'the flag that the request has been answered is changed to something else than true',st,rule='once')
            return (rs[0],rs[1],True)
        if ev.k=='call' and (sends(ev.q) or writes(ev.q)):
            s.saw+=1
            if rs[1] is not False: eng.report(ev.fr,ev.line,'a response is sent although one may have been sent already',st,rule='once')
            if rs[0]: eng.report(ev.fr,ev.line,'a second response is sent',st,rule='once')
            return (rs[0]+1,rs[1],rs[2])
        if rs!=st.rs: return rs
    def end(s,eng,st,out):
        n,e,w=s.entry(st,st.rs); f=getattr(s,'fr0',None)
        if f is None: return
        def R(m): eng.report(f,s.fn.line,m,st,rule='once')
        if s.fn.dtor:
            if out[0]=='exc': R('an exception of sending leaves the destructor')
            if out[0]=='ret' and e is not True and n!=1: R('the connection is destroyed unanswered without the 500')
            return
        if out[0]=='ret':
            if n and w is not True and not any(op=='T' and a==s.flag for op,a,b in st.facts): R('a response is sent and this is not recorded')
            if e is True and (w or s.fn.lastq in('SendHTTPResponse','SendChunkedHTTPResponse')): R('a second attempt to respond does not throw')
            if s.fn.lastq in('SendHTTPResponse','SendChunkedHTTPResponse') and n!=1 and e is not True: R('nothing is sent')
            if s.fn.lastq=='DoNotSendAnyResponse' and w is not True: R('that no response is to be sent is not recorded')
class Init(Rule):
    opaque=('current::net::HTTPResponder','current::net::Connection','current::net::GenericHTTPRequestData','current::net::IPAndPort')
    def __init__(s,fn): s.fn=fn; s.name='once'; s.ok=None
    def end(s,eng,st,out):
        if out[0]!='ret': return
        v=eng.lookup(st,fld('responded_'))
        s.ok=litv(v) in(0,False) and s.ok is not False
def connection(c,F):
    for r in F.recbyq.get(SC,()):
        F.canon(SC,[('responded_',r'^bool$'),('connection_',r'(^|::)Connection$')])
    fns=[f for f in F.fns.values() if f.rc and F.recs.get(f.rc,{}).get('q')==SC]
    if not fns: raise Broken('no methods of '+SC)
    n=0
    for f in fns:
        if f.implicit: continue
        if f.ctor:
            r=Init(f); e=Engine(F,r); e.run(f)
            if not r.ok: c.violation('once',f.file,f.line,'a new connection does not begin unanswered',function=f.q)
            c.from_engine(e); continue
        r=Once(F,f); e=Engine(F,r); e.run(f); c.from_engine(e)
        if r.saw: n+=1
        c.obligation('once',f.q+(f.ta or '')[:60])
    if n<5: raise Broken('only %d senders'%n)
# ---- the request
REFS=('connection','http_data','headers','body')
def unconv(eng,st,t,n=0): return t
class Req(Rule):
    exc=False
    opaque=('current::net','current::url','current::time','std::basic_string')
    def __init__(s,fn,move): s.fn=fn; s.name='request'; s.move=move; s.got={}
    def init(s): return ()
    def on(s,eng,st,ev):
        if ev.k=='init' and ev.loc and ev.loc[0]=='f' and ev.loc[1]==THIS: s.got.setdefault(ev.loc[2],set()).add((ev.val,ev.line,ev.fr.fn.file))
        if ev.k=='call' and ev.recv is not None and isinstance(ev.recv,tuple) and ev.recv[:2]==('f',THIS) and ev.args and short_(ev.q)==(ev.q or '').rsplit('::',2)[-2]: s.got.setdefault(ev.recv[2],set()).add((ev.args[0],ev.line,ev.fr.fn.file))
class Respond(Rule):
    exc=False; cap=200
    opaque=(SC,'current::Exception','current::net::','current::http::Response')
    def __init__(s,fn): s.fn=fn; s.name='request'; s.params=[]
    def init(s): return 0
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        if ev.k!='call': return
        n=short_(ev.q)
        if (ev.q or '').startswith(SC) and n in('SendHTTPResponse','SendChunkedHTTPResponse') or n=='DoRespondViaHTTP':
            uc=fld('unique_connection')
            if not any(op=='T' and mentions(a,uc) or op=='!=' and (mentions(a,uc) or mentions(b,uc)) for op,a,b in st.facts): eng.report(ev.fr,ev.line,'a response is sent through a Request which may have been moved from',st,rule='request')
            if n!='DoRespondViaHTTP':
                if not(isinstance(ev.recv,tuple) and (mentions(ev.recv,fld('connection')) or mentions(ev.recv,uc))): eng.report(ev.fr,ev.line,'the response is not sent to the connection of the request',st,rule='request')
                want=[('p',i,p['n']) for i,p in enumerate(s.fn.params)]
                a=list(ev.args or ())
                if len(a)!=len(want) or not all(s.same(x,y) for x,y in zip(a,want)): eng.report(ev.fr,ev.line,'the response sent is not the one given',st,rule='request')
            if st.rs: eng.report(ev.fr,ev.line,'a response is sent twice',st,rule='request')
            return 1
    def same(s,a,p):
        if a==p or isinstance(a,tuple) and a and a[0]=='v' and a[-1]==p[2]: return True
        return isinstance(a,tuple) and (mentions(a,p) or a[0] in('v','t') and a[-1]==p[2])
    def end(s,eng,st,out):
        if out[0]=='ret' and not st.rs and getattr(s,'fr0',None): eng.report(s.fr0,s.fn.line,'no response is sent',st,rule='request')
def request(c,F):
    q='current::http::Request'
    for f in F.find(q+'::Request'):
        if not f.params: continue
        p='rhs' ; move='Request' in F.tystr(f.params[0]['ty'])
        r=Req(f,move); e=Engine(F,r); e.run(f)
        src=('p',0,f.params[0]['n'])
        for x in ('unique_connection',)+REFS:
            if x not in r.got: raise Broken('%s: %s is not initialised'%(q,x))
        for x,vs in r.got.items():
            for v,line,file in vs:
                if v==('f',THIS,x): continue
                if x=='unique_connection': ok=v==(('f',src,x) if move else src)
                elif x=='method' and move and v==('f',src,'method'): ok=True
                elif x in REFS or x=='method': ok=mentions(v,('f',src,'unique_connection') if move else src) and not(move and x in REFS and not mentions_kind(v,lambda t: t==('*',('f',src,'unique_connection'))) and x!='unique_connection') or move and v==('f',src,x) and x in REFS
                elif move: ok=v==('f',src,x)
                else: ok=True
                want={'headers':'headers','body':'Body','http_data':'HTTPRequest','method':'Method'}.get(x)
                if ok and want and not(move and v in(('f',src,x),)) and not mentions_kind(v,lambda t: isinstance(t,tuple) and t and t[0]=='c' and short_(t[1])==want): ok=False
                if not ok: c.violation('request',file,line,'%s of a %s Request is not that of its connection'%(x,'moved' if move else 'new'),function=f.q)
        if not move:
            b=[x for x in r.got['url_path_args']]
            if not all(mentions_kind(v,lambda t: isinstance(t,tuple) and t and t[0] in('v','p') and t[-1]==f.params[1]['n']) or v==('f',THIS,'url_path_args') for v,_,_ in b): c.violation('request',f.file,f.line,'the URL arguments of a Request are not those given',function=f.q)
        c.from_engine(e); c.obligation('request',f.q+('(move)' if move else ''))
    ops=F.find(q+'::operator()')+F.find(q+'::SendChunkedResponse')
    if len(ops)<4: raise Broken('Request::operator()')
    for f in ops:
        r=Respond(f); e=Engine(F,r); e.run(f); c.from_engine(e); c.obligation('request',f.q+(f.ta or '')[:60])
# ---- the server thread
class Serve(Rule):
    exc=True; cap=300; out_cap=300; fresh_atomics=True
    opaque=('current::url',SC,'current::net','current::http::Request::Request','current::http::HTTPServerPOSIX::FindHandler','current::Exception')
    def __init__(s,F,fn): s.F=F; s.fn=fn; s.name='serve'; s.exc_=recid(F,'current::Exception'); s.n=set()
    def init(s): return ('none',None,None)
    def throws(s,eng,e,fr):
        q=e.get('q') or ''
        if s.user(q,e) or short_(q) in('Accept','SendHTTPResponse') or short_(q)=='make_unique': return [('rec',s.exc_)]
    def user(s,q,e=None): return q.startswith('std::function') and q.endswith('operator()')
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        state,conn,args=st.rs
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='serve')
        if ev.k=='call':
            n=short_(ev.q)
            if n=='Accept':
                s.n.add('accept')
                if state=='open': R('the server goes on to the next request without having answered or passed on the last one')
                return ('accepting',None,None)
            if ev.recv is not None and (ev.q or '').startswith(SC) and n in('SendHTTPResponse','SendChunkedHTTPResponse','DoNotSendAnyResponse'):
                if state in('moved','handled'): R('the connection is used after it has been given to the handler')
                elif state!='open': R('a second response')
                if n=='DoNotSendAnyResponse':
                    if not any(op=='T' and mentions(a,fld('terminating_')) for op,a,b in st.facts): R('a request is dropped although the server is not being stopped')
                else:
                    s.n.add('404')
                    if not any('NotFound' in repr(a) for a in ev.args or ()): R('the request without a route is not answered by 404')
                return ('answered',conn,args)
            if n=='FindHandler':
                s.n.add('find')
                if state!='open': R('the route is looked up for something else than the request at hand')
                if not mentions_kind(ev.args[0],lambda t: isinstance(t,tuple) and t and t[0]=='c' and short_(t[1])=='HTTPRequest'): R('the route is not looked up by the path of the request')
                elif not(isinstance(ev.args[0],tuple) and ev.args[0][0]=='f' and ev.args[0][2]=='path'): R('the route is not looked up by the path of the request')
                return (state,conn,ev.args[1])
            if n=='Request' and ev.q=='current::http::Request::Request' and len(ev.args or ())==2:
                if state!='open': R('the request is passed on twice')
                a=ev.args[1]
                if args is None or not(a==args or eng.lookup(st,a)==args or mentions(eng.lookup(st,a),args)): R('the request is passed on with other URL arguments than those of its route')
                return ('moved',conn,args)
            if s.user(ev.q or ''):
                s.n.add('handler')
                if state!='moved': R('the handler is called %s'%('twice' if state=='handled' else 'without the request'))
                return ('handled',conn,args)
        if ev.k=='called' and short_(ev.q)=='make_unique' and state=='accepting': return ('open',ev.val,None)
        if ev.k=='catch' and state in('open','accepting'): return ('none',None,None)
        if ev.k=='init' and state=='accepting' and 'HTTPServerConnection' in repr(ev.loc): return ('open',None,None)
    def end(s,eng,st,out):
        if out[0]=='exc': eng.report(s.fr0,s.fn.line,'an exception ends the thread of the server',st,rule='serve')
        elif st.rs[0]=='open': eng.report(s.fr0,s.fn.line,'the server stops without having answered or passed on the last request',st,rule='serve')
def serve(c,F):
    fs=F.find('current::http::HTTPServerPOSIX::Thread')
    if not fs: raise Broken('HTTPServerPOSIX::Thread')
    for f in fs:
        r=Serve(F,f); e=Engine(F,r); e.run(f); c.from_engine(e)
        if not e.reports and not r.n>={'accept','404','find','handler'}: raise Broken('the server thread: '+str(r.n))
        c.obligation('serve',f.q)
# ---- the parser
class Parse(Rule):
    cap=60; out_cap=60
    opaque=('current::net::HTTPResponder','current::net::Connection','current::url','current::strings','current::Exception','current::net::HTTPDefaultHelper','current::net::http','std::')
    KNOWN=('ChunkSizeNotAValidHEXValue','HTTPPayloadTooLarge','HTTPRequestBodyLengthNotProvided')
    def __init__(s,fn): s.fn=fn; s.name='parse'; s.n=0
    def init(s): return 0
    def relevant(s,eng,fn): return None
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        if ev.k=='call' and sends(ev.q):
            s.n+=1
            if st.rs: eng.report(ev.fr,ev.line,'a malformed request is answered twice',st,rule='parse')
            return 1
        if ev.k=='call' and short_(ev.q)=='BlockingRead' and st.rs: eng.report(ev.fr,ev.line,'the parser goes on after it has answered the request',st,rule='parse')
        if ev.k=='throw':
            t=s.ty(eng,ev)
            if t in s.KNOWN and not st.rs: eng.report(ev.fr,ev.line,'the parser gives up (%s) without having answered the request'%t,st,rule='parse')
    def ty(s,eng,ev):
        t=ev.ty
        if isinstance(t,tuple) and t and t[0]=='rec': return short_(eng.F.recs.get(t[1],{}).get('q'))
        return ''
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs: eng.report(s.fr0,s.fn.line,'the parser has answered the request and accepts it nevertheless',st,rule='parse')
def parse(c,F):
    q='current::net::GenericHTTPRequestData::GenericHTTPRequestData'
    fs=[f for f in F.find(q) if len(f.params)>=2 and not f.implicit]
    if not fs: raise Broken(q)
    for f in fs:
        r=Parse(f); e=Engine(F,r); e.run(f); c.from_engine(e)
        if r.n<3: raise Broken('%s: %d answers'%(q,r.n))
        c.obligation('parse',F.recfull(f)[:100],n=r.n)
# ---- chunks
def lin(t,C):
    """t as {atom: coefficient}, with the constant under 1"""
    if isinstance(t,tuple):
        if t[0]=='lit' and isinstance(t[1],int): return {1:t[1]} if t[1] else {}
        if t[0]=='b' and t[1] in('+','-'):
            a=dict(lin(t[2],C)); 
            for k,v in lin(t[3],C).items(): a[k]=a.get(k,0)+(v if t[1]=='+' else -v)
            return {k:v for k,v in a.items() if v}
        if t==C or t[0]=='old' and mentions(t,C): return {'C':1}
    return {t:1}
def ladd(a,b,k=1):
    r=dict(a)
    for x,v in b.items(): r[x]=r.get(x,0)+k*v
    return {x:v for x,v in r.items() if v}
def frz(d): return tuple(sorted(d.items(),key=repr))
CRLF='\r\n'
class Chunk(Rule):
    exc=True; cap=400; out_cap=400
    opaque=('current::net::Connection','current::strings','current::Exception')
    def __init__(s,F,fn,cap): s.F=F; s.fn=fn; s.name='chunk'; s.capn=cap; s.sock=recid(F,'current::net::SocketException'); s.C=fld('cache_size_'); s.buf=fld('data_cache_'); s.dead=fld('can_no_longer_write_'); s.n=set()
        # sent and pending: pieces; size: of the cache now; ineq: known inequalities e<=0; vals: meaning of opaque results
    def init(s): return ((),('C',),frz({'C':1}),frozenset(),frozenset(),None)
    def throws(s,eng,e,fr): return [('rec',s.sock)] if writes(e.get('q')) else None
    def mean(s,eng,st,t,vals,n=0):
        """the text a term stands for, as a tuple of pieces"""
        d=dict(vals)
        if t in d: return d[t]
        if isinstance(t,tuple):
            if t[0]=='str': return (t[1],)
            if t[0]=='g' and t[1].endswith('kCRLF'): return (CRLF,)
            if t[0]=='p' and t==s.data: return ('DATA',)
            if t[0]=='c' and short_(t[1]) in('c_str','data','begin','cbegin'): return s.mean(eng,st,t[2],vals,n+1)
            if t[0]=='&' and isinstance(t[1],tuple) and t[1][0]=='c' and short_(t[1][1]) in('operator[]','front','at'): return s.mean(eng,st,t[1][2],vals,n+1)
            if t[0] in('v','t') and n<4:
                x=eng.lookup(st,t)
                if x!=t: return s.mean(eng,st,x,vals,n+1)
            if t[0]=='c' and t[1].startswith('ctor') and len(t)>=3 and 'basic_string' in t[1]: return s.mean(eng,st,t[2],vals,n+1)
        return (('?',t),)
    def text(s,p):
        r=[]
        for x in p:
            if isinstance(x,str) and x not in('DATA','HEX','C') and r and isinstance(r[-1],str) and r[-1] not in('DATA','HEX','C'): r[-1]+=x
            else: r.append(x)
        return tuple(r)
    def length(s,eng,st,a): return lin(a,s.C)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        sent,pend,size,ineq,vals,z=st.rs
        s.data=('p',0,s.fn.params[0]['n']) if s.fn.params else None
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='chunk')
        if ev.k=='catch': return (sent,pend,size,ineq,vals|{('caught','caught')},z)
        if ev.k=='branch':
            ts=norm(ev.val,ev.pol); new=set(ineq)
            for op,a,b in ts:
                if op=='F' and a==s.C or op in('==','<=') and a==s.C and litv(b)==0 or op=='==' and b==s.C and litv(a)==0 or op=='<' and a==s.C and litv(b)==1:
                    if pend==('C',): return (sent,(),frz({}),ineq,vals,z)
                if op in('<','<='):
                    new.add(frz(ladd(ladd(lin(a,s.C),lin(b,s.C),-1),{1:1 if op=='<' else 0})))
            for i in new-ineq:
                for j in new:
                    d=ladd(dict(i),dict(j))
                    if d.get(1,0)>0 and all(v>=0 for v in d.values()): z='never'     # two branches which exclude each other
            if s.data is not None:
                for op,a,b in ts:
                    isz=lambda t: isinstance(t,tuple) and t[0]=='c' and short_(t[1]) in('size','length') and t[2]==s.data
                    ise=lambda t: isinstance(t,tuple) and t[0]=='c' and short_(t[1])=='empty' and t[2]==s.data
                    v=None
                    if ise(a): v='empty' if op=='T' else 'some' if op=='F' else None
                    elif op in('<=','==') and (isz(a) and litv(b)==0 or isz(b) and litv(a)==0): v='empty'
                    elif op=='F' and isz(a): v='empty'
                    elif op=='T' and isz(a) or op in('<','!=') and (isz(b) and litv(a)==0 or isz(a) and litv(b)==0 and op=='!='): v='some'
                    if v:
                        if z not in(None,v): z='never'
                        else: z=v
            if (frozenset(new),z)!=(ineq,st.rs[5]): return (sent,pend,size,frozenset(new),vals,z)
            return
        if ev.k=='called' and isinstance(ev.val,tuple):
            n=short_(ev.q); v=None
            if n=='Printf' and len(ev.args)==2 and ev.args[0]==('str','%lX') and isinstance(ev.args[1],tuple) and ev.args[1][0]=='c' and short_(ev.args[1][1]) in('size','length') and ev.args[1][2]==s.data: v=('HEX',)
            elif n=='operator+' and ev.args: v=sum([s.mean(eng,st,a,vals) for a in ([ev.recv] if ev.recv is not None else [])+list(ev.args)],())
            elif n=='basic_string' and ev.args and len(ev.args)<=2: v=s.mean(eng,st,ev.args[0],vals)
            if v is not None: return (sent,pend,size,ineq,frozenset([x for x in vals if x[0]!=ev.val]+[(ev.val,s.text(v))]),z)
            return
        if ev.k=='write' and ev.loc==s.C:
            l=lin(ev.val,s.C)
            # the written value replaces the size: it has to be the size of what is pending
            if 'C' not in sent and 'C' not in s.flat(pend): l={k:v for k,v in l.items() if k!='C'}
            return (sent,pend,frz(l),ineq,vals,z)
        if ev.k!='call': return
        n=short_(ev.q)
        zero='C' not in sent and 'C' not in s.flat(pend)
        dz=lambda d: {k:v for k,v in d.items() if not(zero and k=='C')}
        if n in('memcpy','memmove') and ev.args and (mentions(ev.args[0],s.buf)):
            s.n.add('cache')
            off=dz(ladd(lin(ev.args[0],s.C),{s.buf:-1})); L=lin(ev.args[2],s.C); m=s.mean(eng,st,ev.args[1],vals)
            cur=s.plen(pend,eng,st)
            if z!='never' and frz(off)!=frz(cur): R('what is cached is not put right after what is there')
            tot=ladd(off,L)
            need=ladd(tot,{1:-s.capn})
            if z!='never' and not any(s.implied(need,dict(i)) for i in ineq): R('what is cached may not fit in the cache')
            if frz(L)!=frz(s.tlen(eng,st,ev.args[1],m)): R('what is cached is not the whole of it')
            return (sent,pend+((m,frz(L)),),size,ineq,vals,z)
        if writes(ev.q):
            a=[x for x in ev.args]; s.n.add('write')
            if a and a[0]==s.buf:
                if frz(lin(a[1],s.C))!=frz(s.plen(pend)): R('the cache is not sent as a whole')
                return (sent+s.flat(pend),(),size,ineq,vals,z)
            if pend and z!='never': R('something is sent before what is cached')
            if frz(dict(size))!=frz({}) and pend==() and sent and z!='never' and not s.fn.dtor: R('the cache is sent and not emptied')
            m=s.mean(eng,st,a[0],vals)
            if len(a)==3 and m==s.mean(eng,st,a[1],vals): pass
            elif len(a)==3 and frz(lin(a[1],s.C))!=frz(s.tlen(eng,st,a[0],m)) and not(isinstance(a[1],tuple) and a[1][0]=='c' and short_(a[1][1]) in('end','cend')): R('what is sent is not the whole of it')
            return (sent+m,pend,size,ineq,vals,z)
    def flat(s,pend):
        r=()
        for x in pend: r+=('C',) if x=='C' else x[0]
        return r
    def plen(s,pend,eng=None,st=None):
        d={}
        for x in pend: d=ladd(d,{'C':1} if x=='C' else dict(x[1]))
        return d
    def tlen(s,eng,st,t,m):
        if all(isinstance(x,str) and x not in('DATA','HEX') for x in m): return {1:sum(len(x) for x in m)}
        while isinstance(t,tuple) and (t[0]=='c' and short_(t[1]) in('c_str','data') or t[0]=='&'):
            t=t[1] if t[0]=='&' else t[2]
            if isinstance(t,tuple) and t[0]=='c' and short_(t[1]) in('operator[]','front','at'): t=t[2]
        return {('c',s.szq(t),t):1}
    def szq(s,t):
        return s.sizes.get(t,'std::basic_string::size')
    sizes={}
    def implied(s,need,have):
        d=ladd(have,need,-1)          # have-need>=0 with all atoms sizes
        return all(v>=0 for v in d.values())
    def end(s,eng,st,out):
        if not getattr(s,'fr0',None): return
        sent,pend,size,ineq,vals,z=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='chunk')
        if z=='never': return
        if out[0]=='exc':
            if litv(eng.lookup(st,s.dead)) not in(1,True): R('writing fails and this is not recorded')
            return
        if s.fn.dtor:
            dead=('T',s.dead,None) in st.facts
            if dead:
                if sent: R('something is sent after writing has failed')
                return
            got=s.text(tuple(x for x in sent if x!='C'))
            caught=('caught','caught') in vals
            if caught: return
            if 'C' in sent[1:] or pend==('C',): R('the cached chunks are not sent at the end')
            if got!=('0\r\n\r\n',): R('the chunked response is not ended by one zero chunk')
            return
        all_=tuple(x for x in s.text(sent+s.flat(pend)) if x!='C')
        want=('HEX',CRLF,'DATA',CRLF) if z=='some' else () if z=='empty' else None
        if want is None: R('whether there are data is not looked at'); return
        if all_!=want: R('a chunk is not its size in hex, CRLF, the data and CRLF: '+repr(all_))
        if 'C' in sent[1:] or 'C' in s.flat(pend)[1:]: R('the order of the chunks changes')
        if frz(dict(size))!=frz(s.plen(pend)): R('the size of the cache is not that of what is cached')
        fl=('p',1,s.fn.params[1]['n'])
        if pend and any(op=='==' and ('lit',1) in(a,b) and s.flagp(fl,a,b) for op,a,b in st.facts): R('a flushed chunk stays in the cache')
    def flagp(s,fl,a,b): return any(isinstance(x,tuple) and x and x[0] in('p','v') and x[-1]==fl[2] for x in(a,b))
class Forward(Rule):
    """an overload of Send passes the data and the flag on, once"""
    opaque=('current::net::Connection','current::strings','current::serialization','current::JSON',IMPL+'::SendImpl')
    def __init__(s,fn): s.fn=fn; s.name='chunk'
    def init(s): return 0
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        if ev.k=='call' and short_(ev.q)=='SendImpl':
            if st.rs: eng.report(ev.fr,ev.line,'a chunk is sent twice',st,rule='chunk')
            fl=s.fn.params[-1]['n']
            if not(isinstance(ev.args[1],tuple) and ev.args[1][-1]==fl): eng.report(ev.fr,ev.line,'whether to flush is not passed on',st,rule='chunk')
            return 1
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs!=1: eng.report(s.fr0,s.fn.line,'the chunk is not sent',st,rule='chunk')
def chunk(c,F):
    F.canon(IMPL,[('cache_size_',r'^(uint64_t|unsigned long|size_t|std::size_t|std::uint64_t)$'),('data_cache_',r'char\s*\['),('can_no_longer_write_',r'^bool$'),('connection_',r'Connection$')])
    n=0
    for f in F.find(IMPL+'::SendImpl')+[f for f in F.fns.values() if f.dtor and F.recs.get(f.rc,{}).get('q')==IMPL]:
        import re
        b=[x for x in F.recs[f.rc]['fields'] if x['n']=='data_cache_']
        m=re.search(r'\[(\d+)\]',F.tystr(b[0]['ty'])) if b else None
        m=m or re.search(r'ChunkedResponseSender<(\d+)',F.recfull(f))
        if not m: raise Broken('the size of the cache')
        r=Chunk(F,f,int(m.group(1)))
        r.sizes={}
        for x in f.x.values():
            if x['k']=='call' and short_(x.get('q')) in('size','length'): pass
        r.sizes={('p',0,f.params[0]['n']):('std::vector::size' if 'vector' in F.tystr(f.params[0]['ty']) else 'std::basic_string::size')} if f.params else {}
        e=Engine(F,r); e.run(f); c.from_engine(e); n+=1
        if not e.reports and 'write' not in r.n: raise Broken(f.q+': nothing is written')
        c.obligation('chunk',F.recfull(f)[-60:]+'::'+f.lastq+(f.ta or '')[:40])
    if n<4: raise Broken('SendImpl')
    for f in F.find(IMPL+'::Send')+F.find(SC+'::ChunkedResponseSender::Send')+F.find(SC+'::ChunkedResponseSender::operator()'):
        r=Forward(f); e=Engine(F,r); e.run(f); c.from_engine(e); c.obligation('chunk',f.q+(f.ta or '')[:40])
def run(c):
    F=lib.facts('w_http.cc')
    connection(c,F); request(c,F); serve(c,F); parse(c,F); chunk(c,F)
    c.floor('once',8); c.floor('request',6); c.floor('parse',3); c.floor('chunk',10)
