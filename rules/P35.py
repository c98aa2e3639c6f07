"""An HTTP response carries the given code, headers, content type and body (bricks/net/http/impl/server.h, blocks/http/response.h). The text each function
writes is computed symbolically, piece by piece: the status line, the header lines (one for every header and every cookie), the length of
exactly the range which is sent, a blank line, the range. Every overload passes its own parameters on, or the documented default. A Response keeps
what it is given and responds with just that."""
from rulelib import *
import lib
ASSUME=['Connection::BlockingWrite sends the whole of what it is given','JSON() is the serialization of its argument']
H='current::net::HTTPResponder'; SC='current::net::GenericHTTPServerConnection'; RS='current::http::Response'
def short_(q): return (q or '').rsplit('::',1)[-1]
def ispar(t,n): return isinstance(t,tuple) and t and t[0] in('p','v') and t[-1]==n
def un(t):
    if isinstance(t,tuple):
        if len(t)==3 and t[0]=='old': return un(t[2])
        return tuple(un(x) for x in t)
    return t
class Text(Rule):
    """mean(): the text a term stands for, as a tuple of pieces (strings and terms); streams: what has been put into them"""
    cap=300; out_cap=300
    def upd(s,eng,st,ev,vals):
        """vals after the event: facts about opaque results and streams"""
        if ev.k!='called' or not isinstance(ev.val,tuple): return vals
        n=short_(ev.q); v=None
        if n=='operator<<' and ev.val:
            o=ev.val; a=ev.args[-1]
            return s.put(vals,o,s.text(s.get(vals,o)+s.mean(eng,st,a,vals,char=ev.q=='std::operator<<')))
        if n=='write' and ev.recv is not None and ev.recv[0] in('v','p'):
            return s.put(vals,ev.recv,s.text(s.get(vals,ev.recv)+s.mean(eng,st,ev.args[0],vals)))
        if n=='operator+' and (ev.q or '').startswith('std::') and ev.args: v=sum([s.mean(eng,st,a,vals,char=True) for a in ev.args],())
        elif n in('operator+=','append','push_back') and ev.recv is not None and 'string' in (ev.q or ''):
            return s.put(vals,ev.recv,s.text(s.mean(eng,st,ev.recv,vals)+s.mean(eng,st,ev.args[0],vals,char=True)))
        elif n=='str' and ev.recv is not None: v=s.get(vals,ev.recv)
        elif n=='basic_string' and ev.args and len(ev.args)<=2: v=s.mean(eng,st,ev.args[0],vals)
        elif n=='JSON' and len(ev.args)==1: v=(('JSON',s.deref(eng,st,ev.args[0])),)
        elif n=='PrepareHTTPResponseHeader':
            o=ev.args[0]; return s.put(vals,o,s.text(s.get(vals,o)+(('HDR',)+tuple(s.arg(eng,st,a,vals) for a in ev.args[1:]),)))
        elif n=='HTTPResponseCodeAsString': v=(('REASON',s.arg(eng,st,ev.args[0],vals)),)
        if v is not None: return s.put(vals,ev.val,s.text(v))
        return vals
    def arg(s,eng,st,a,vals):
        """an argument: a parameter, a global or a default-constructed object"""
        d=dict(vals)
        if a in d: 
            m=d[a]; return m[0] if len(m)==1 else m
        x=eng.lookup(st,a) if isinstance(a,tuple) and a[0] in('v','t') else a
        if x!=a: return s.arg(eng,st,x,vals)
        return a
    def deref(s,eng,st,a):
        x=eng.lookup(st,a) if isinstance(a,tuple) and a[0] in('v','t') else a
        return x if x is not None else a
    def put(s,vals,k,v): return frozenset([x for x in vals if x[0]!=k]+[(k,v)])
    def get(s,vals,o): return dict(vals).get(o,())
    def text(s,p):
        r=[]
        for x in p:
            if isinstance(x,str) and r and isinstance(r[-1],str): r[-1]+=x
            elif x!='': r.append(x)
        return tuple(r)
    def mean(s,eng,st,t,vals,n=0,char=False):
        d=dict(vals)
        if t in d: return d[t]
        if isinstance(t,tuple):
            if t[0]=='str': return (t[1],)
            if t[0]=='lit' and char and isinstance(t[1],int) and 0<t[1]<127: return (chr(t[1]),)
            if t[0]=='lit' and not char: return (str(t[1]),)
            if t[0]=='g' and t[1].endswith('kCRLF'): return ('\r\n',)
            if t[0]=='g' and t[1].endswith('kHeaderKeyValueSeparator'): return (':',)
            if t[0]=='c' and short_(t[1]) in('c_str','data'): return s.mean(eng,st,t[2],vals,n+1)
            if t[0]=='c' and t[1].startswith('ctor') and len(t)>=3 and 'basic_string' in t[1]: return s.mean(eng,st,t[2],vals,n+1)
            if t[0] in('v','t') and n<5:
                x=eng.lookup(st,t)
                if x!=t and x is not None: return s.mean(eng,st,x,vals,n+1)
            if t[0] in('c','b') and any(isinstance(x,tuple) and x[:1]==('t',) for x in t): t=tuple(s.deref(eng,st,x) if isinstance(x,tuple) and x[:1]==('t',) else x for x in t)
        return (t,)
OPQ=('std::','current::JSON','current::serialization','current::net::Connection','current::net::http','current::net::HTTPResponseCodeAsString','current::Exception',H+'::PrepareHTTPResponseHeader')
EMPTY='empty headers'
class Send(Text):
    """one overload of SendHTTPResponse, or SendChunkedHTTPResponse"""
    opaque=OPQ
    def __init__(s,F,fn,kind): s.F=F; s.fn=fn; s.name='send'; s.kind=kind; s.done=0
    def init(s): return (frozenset(),(),frozenset())
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        vals,out,fresh=st.rs
        if ev.k=='called':
            n=short_(ev.q)
            if n=='Headers' and (ev.q or '').startswith('current::net::http::Headers') and not ev.args:
                return (s.put(vals,ev.val,(EMPTY,)),out,fresh)
            if n=='BlockingWrite':
                a=[x for x in ev.args]
                if len(a)==3:
                    b,e=[s.deref(eng,st,x) for x in a[:2]]
                    if n_len(b) is None: x=s.of(b,('begin','cbegin')); out+=(('BODY',b,e,s.mean(eng,st,x,vals) if x is not None else ()),)
                    else: out+=s.mean(eng,st,a[0],vals)
                else: out+=s.mean(eng,st,a[0],vals)
                return (vals,s.text(out),fresh)
            v=s.upd(eng,st,ev,vals)
            if v!=vals: return (v,out,fresh)
    def end(s,eng,st,out):
        if out[0]!='ret' or not getattr(s,'fr0',None): return
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='send')
        vals,o,_=st.rs; F=s.F; fn=s.fn
        ps=[(i,p['n'],F.tystr(p['ty'])) for i,p in enumerate(fn.params)]
        code=[n for i,n,t in ps if 'HTTPResponseCodeValue' in t]; hdr=[n for i,n,t in ps if 'Headers' in t]
        if s.kind=='chunked': ct=[n for i,n,t in ps if 'string' in t]; obj=None
        else:
            rest=[x for x in ps[1:] if 'HTTPResponseCodeValue' not in x[2] and 'Headers' not in x[2]]
            # the body comes first: one object, or a range
            body=[rest[0]]
            if len(rest)>1 and rest[1][2]==rest[0][2] and rest[1][0]==2 and 'string' not in rest[0][2].replace('__normal_iterator','') : body.append(rest[1])
            elif len(rest)>1 and rest[1][0]==2 and 'iterator' in rest[1][2]: body.append(rest[1])
            ct=[n for i,n,t in rest[len(body):]]; obj=body
        if not o: 
            R('nothing is written'); return
        h=o[0]
        if not(isinstance(h,tuple) and h[0]=='HDR' and len(h)>=4): R('the response does not begin with its header'); return
        s.done=1
        if code:
            if not ispar(h[2],code[0]): R('the code of the response is not the one given')
        elif 'OK' not in repr(h[2]) and h[2]!=('lit',200): R('the default code of the response is not 200')
        if hdr:
            if not ispar(h[3],hdr[0]): R('the headers of the response are not those given')
        elif h[3]!=EMPTY: R('the response has headers which were not given')
        if len(h)<5: c_=None
        else: c_=h[4]
        isj=obj and not(len(obj)>1 or 'string' in obj[0][2] or 'vector' in obj[0][2] or 'iterator' in obj[0][2])
        if ct:
            if not ispar(c_,ct[0]): R('the content type of the response is not the one given')
        else:
            want='kDefaultJSONContentType' if isj else 'kDefaultContentType'
            if c_ is not None and not want in repr(c_): R('the default content type of the response is not %s'%want)
        if s.kind=='chunked':
            if o[1:]!=('Transfer-Encoding: chunked\r\n\r\n',): R('the header of a chunked response does not end by its transfer encoding and a blank line')
            if litv(h[1])!=1: R('a chunked response does not keep the connection alive')
            return
        if len(o)!=5 or o[1]!='Content-Length: ' or o[3]!='\r\n\r\n' or o[4][0]!='BODY':
            R('the response is not its header, the length, a blank line and the body'); return
        b,e,m=o[4][1:]
        if not(isinstance(o[2],tuple) and s.islen(tuple(s.deref(eng,st,x) for x in o[2]),b,e)): R('the length of the response is not that of its body')
        # the body
        if len(obj)>1: ok=ispar(b,obj[0][1]) and ispar(e,obj[1][1])
        else:
            x=s.of(b,('begin','cbegin')); y=s.of(e,('end','cend'))
            ok=x is not None and x==y
            if ok:
                if isj:
                    ok=len(m)==2 and isinstance(m[0],tuple) and m[0][0]=='JSON' and ispar(m[0][1],obj[0][1]) and m[1]=='\n'
                else: ok=ispar(x,obj[0][1])
        if not ok: R('the body of the response is not what is given')
    def of(s,t,names):
        if isinstance(t,tuple) and t[0]=='c' and short_(t[1]) in names: return t[2]
    def islen(s,t,b,e):
        if t[0]=='b' and t[1]=='-' or t[0]=='c' and short_(t[1])=='operator-': return t[2:]==(e,b)
        if t[0]=='c' and short_(t[1])=='distance': return t[2:]==(b,e)
        if t[0]=='c' and short_(t[1]) in('size','length'): return s.of(b,('begin','cbegin'))==t[2]
        return False
def n_len(t):
    """a text with a length rather than a range"""
    if isinstance(t,tuple) and (t[0] in('str','g') or t[0]=='c' and short_(t[1]) in('c_str','data')): return 1
class Header(Text):
    """PrepareHTTPResponseHeader"""
    opaque=('std::','current::net::HTTPResponseCodeAsString')
    cap=200; out_cap=200
    def __init__(s,F,fn): s.F=F; s.fn=fn; s.name='header'; s.lines=set()
    # vals, the pieces of the current line, lines seen, pending header element, pending cookie, pending param
    def init(s): return (frozenset(),(),frozenset(),None,None,None)
    def rename_rs(s,rs,ren):
        return (frozenset((ren(k) if isinstance(k,tuple) else k,tuple(ren(x) if isinstance(x,tuple) else x for x in v)) for k,v in rs[0]),tuple(ren(x) if isinstance(x,tuple) else x for x in rs[1]),rs[2])+tuple(ren(x) if isinstance(x,tuple) else x for x in rs[3:])
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        vals,line,seen,ph,pc,pp=st.rs
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='header')
        if ev.k=='branch':
            w=s.which(ev.val)
            if w is None:
                for op,a,b in norm(ev.val,ev.pol):
                    if op=='T' and isinstance(a,tuple) and a[0]=='c' and short_(a[1])=='empty' and pp and len(pp)>1 and mentions(a[2],pp[1]): return (vals,line,seen,ph,pc,pp[:2]+('empty',))
                return
            if w[0]=='p': line=s.params(line,pp,R)
            k,it=w; more=(ev.val[1]=='!=')==bool(ev.pol) if isinstance(ev.val,tuple) and ev.val[0]=='b' else bool(ev.pol)
            cur={'h':ph,'c':pc,'p':pp}[k]
            if more:
                if cur and cur[0]=='todo': R('a header is skipped' if k=='h' else 'a cookie is skipped' if k=='c' else 'a parameter of a cookie is skipped')
                if k=='p' : new=(ph,pc,('todo',it))
                elif k=='h': new=(('todo',it),pc,pp)
                else: new=(ph,('todo',it),pp)
            else:
                if cur and cur[0]=='todo': R('the last header is skipped' if k=='h' else 'the last cookie is skipped' if k=='c' else 'the last parameter of a cookie is skipped')
                new=(ph,pc,None) if k=='p' else (('end',),pc,pp) if k=='h' else (ph,('end',),pp)
            return (vals,line,seen)+new
        if ev.k!='called': return
        n=short_(ev.q)
        os=('p',0,s.fn.params[0]['n'])
        if n=='operator<<' and ev.val==os or n in('write','put') and ev.recv==os:
            t=s.mean(eng,st,ev.args[-1 if n!='write' else 0],vals,char=ev.q=='std::operator<<' or n=='put')
            full=s.text(line+t); new=(ph,pc,pp); cur=()
            for x in full:
                if not isinstance(x,str): cur+=(x,); continue
                parts=x.split('\r\n')
                for j,q in enumerate(parts):
                    if q: cur=s.text(cur+(q,))
                    if j<len(parts)-1:
                        new=s.line(eng,st,ev,cur,seen,new,R); seen=seen|{s.kind(cur)}; cur=()
            ph,pc,pp=new
            # a parameter of a cookie is being written
            if cur and isinstance(cur[0],str) and cur[0].startswith('Set-Cookie: ') and pp and pp[0]=='todo':
                if any(isinstance(x,tuple) and x[0]=='f' and x[2]=='first' and mentions(x,pp[1]) for x in cur[4:]): pp=('done',pp[1])
            # the value of the parameter, unless empty
            return (vals,cur,seen,ph,pc,pp)
        v=s.upd(eng,st,ev,vals)
        if v!=vals: return (v,line,seen,ph,pc,pp)
    def which(s,v):
        if not(isinstance(v,tuple) and v[0]=='b' and v[1] in('!=','==')): return None
        r=repr(v[3])
        if 'end' not in r: 
            v=('b',v[1],v[3],v[2]); r=repr(v[3])
            if 'end' not in r: return None
        if "'params'" in r: k='p'
        elif "'cookies'" in r: k='c'
        elif "'headers'" in r: k='h'
        else: return None
        return k,v[2][1] if v[2][0]=='f' and v[2][2]=='iterator' else v[2]
    def params(s,l,pp,R):
        """the parameter of the cookie which has been written"""
        rest=un(l[4:]); pp=un(pp)
        if not rest or l[0]!='Set-Cookie: ': return l
        ok=rest[0]=='; ' and len(rest)>1 and isinstance(rest[1],tuple) and rest[1][0]=='f' and rest[1][2]=='first' and pp and len(pp)>1 and mentions(rest[1],pp[1])
        if ok:
            if len(rest)==2: ok=len(pp)==3
            else: ok=len(rest)==4 and rest[2]=='=' and rest[3]==('f',rest[1][1],'second')
        if not ok: R('a parameter of a cookie is not written as it is')
        return l[:4]
    def kind(s,l): return 'first' if l and isinstance(l[0],str) and l[0].startswith('HTTP/') else 'type' if l and l[0]=='Content-Type: ' else 'conn' if l and isinstance(l[0],str) and l[0].startswith('Connection: ') else 'other'
    def line(s,eng,st,ev,l,seen,new,R):
        ph,pc,pp=new; k=s.kind(l); fn=s.fn
        P=[p['n'] for p in fn.params]
        if k!='first' and 'first' not in seen: R('the response does not begin with the status line')
        if k in seen and k!='other': R('a line is written twice')
        if not l: R('a blank line inside the header')
        elif k=='first':
            if not(len(l)==4 and l[0]=='HTTP/1.1 ' and ispar(l[1],P[2]) and l[2]==' ' and isinstance(l[3],tuple) and l[3][0]=='REASON' and ispar(l[3][1],P[2])): R('the status line is not the version, the code and its reason')
        elif k=='type':
            if not(len(l)==2 and ispar(l[1],P[4])): R('the content type written is not the one given')
        elif k=='conn':
            keep=None
            for op,a,b in st.facts:
                if op in('==','!=') and any(ispar(x,P[1]) for x in(a,b)):
                    v=litv(b) if litv(b) is not None else litv(a)
                    if v in(0,1): keep=(v==1)==(op=='==')
            if l!=('Connection: '+('keep-alive' if keep else 'close'),) or keep is None: R('whether the connection is kept is not as given')
        elif isinstance(l[0],str) and l[0].startswith('Set-Cookie: '):
            ok=len(l)>=4 and l[0]=='Set-Cookie: ' and pc and pc[0]=='todo' and l[1]==('f',l[1][1],'first') and l[2]=='=' and l[3][0]=='f' and l[3][2]=='value' and mentions(l[1],pc[1]) and mentions(l[3],pc[1])
            if not ok: R('a cookie is not written as it is')
            if len(l)>4: R('something follows the parameters of a cookie')
            return (ph,('done',pc[1]) if pc and len(pc)>1 else pc,pp)
        else:
            ok=len(l)==3 and isinstance(l[0],tuple) and l[0][0]=='f' and l[0][2]=='header' and l[1]==': ' and l[2]==('f',l[0][1],'value') and ph and ph[0]=='todo' and mentions(l[0],ph[1])
            if not ok: R('a header is not written as its name and its value')
            return (('done',ph[1]) if ph and len(ph)>1 else ph,pc,pp)
        return new
    def end(s,eng,st,out):
        if out[0]!='ret': return
        vals,line,seen,ph,pc,pp=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='header')
        if not seen>={'first','type','conn'}: R('a line of the header is missing: %s'%sorted({'first','type','conn'}-seen))
        if line: R('the last line of the header is not ended')
        if ph!=('end',): R('the headers are not all written')
        if pc!=('end',): R('the cookies are not all written')
# ---- Response
FIELDS=('body','code','content_type','headers')
class Build(Text):
    opaque=('std::','current::JSON','current::serialization','current::net')
    def __init__(s,F,fn,kind): s.F=F; s.fn=fn; s.name='response'; s.kind=kind
    def init(s): return (frozenset(),frozenset())        # vals, fields set: (name, pieces)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        vals,got=st.rs; L=None
        if ev.k=='called' and short_(ev.q)=='operator=' and isinstance(ev.recv,tuple) and ev.recv[:2]==('f',THIS): L,v=ev.recv[2],s.mean(eng,st,ev.args[0],vals)
        if ev.k in('write','init') and isinstance(ev.loc,tuple) and ev.loc[:2]==('f',THIS): L,v=ev.loc[2],s.mean(eng,st,ev.val,vals)
        if ev.k=='called' and short_(ev.q)=='assign' and isinstance(ev.recv,tuple) and ev.recv[:2]==('f',THIS): L,v=ev.recv[2],s.mean(eng,st,ev.args[0],vals)
        if L is not None:
            if any(x[0]==L and x[1]!=v for x in got) and s.kind!='ctor': pass
            return (vals,frozenset([x for x in got if x[0]!=L]+[(L,v)]))
        if ev.k=='called' and isinstance(ev.recv,tuple) and ev.recv[:2]==('f',THIS) and short_(ev.q) in('SetCookie','Set','SetHeader','operator[]','SetHeaderOrCookie'):
            return (vals,frozenset(list(got)+[(ev.recv[2],tuple(ev.args))]))
        v=s.upd(eng,st,ev,vals)
        if v!=vals: return (v,got)
    def end(s,eng,st,out):
        if out[0]!='ret' or not getattr(s,'fr0',None): return
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='response')
        vals,got=st.rs; F=s.F; fn=s.fn; g=dict(got)
        ps=[(i,p['n'],F.tystr(p['ty'])) for i,p in enumerate(fn.params)]
        def isp(v,n): return v is not None and len(v)==1 and ispar(v[0],n)
        if s.kind=='construct':
            if len(ps)==1 and 'Response' in ps[0][2] and 'CodeValue' not in ps[0][2]:
                src=('p',0,ps[0][1])
                for f in FIELDS+('initialized',):
                    if g.get(f)!=(('f',src,f),): R('%s of the response is not copied'%f)
                return
            body=not('HTTPResponseCodeValue' in ps[0][2])
            code=[n for i,n,t in ps if 'HTTPResponseCodeValue' in t]; hdr=[n for i,n,t in ps if 'Headers' in t]
            ci=[i for i,n,t in ps if 'HTTPResponseCodeValue' in t][0]
            name=[n for i,n,t in ps if 0<i<ci and 'string' in t]; ct=[n for i,n,t in ps if i>ci and 'string' in t]
            if not isp(g.get('code'),code[0]): R('the code of the response is not the one given')
            if hdr and not isp(g.get('headers'),hdr[0]): R('the headers of the response are not those given')
            if not hdr and 'headers' in g: R('the response has headers which were not given')
            isj=body and 'string' not in ps[0][2] and 'char' not in ps[0][2]
            if ct:
                if not isp(g.get('content_type'),ct[0]): R('the content type of the response is not the one given')
            else:
                w='kDefaultJSONContentType' if isj else 'kDefaultContentType'
                if not w in repr(g.get('content_type')): R('the default content type of the response is not %s'%w)
            if not body:
                if g.get('body') not in(('',),()): R('the body of a response without one is not empty')
            else: s.body(g.get('body'),ps[0][1],isj,name and name[0],R)
        elif s.kind=='setter':
            n=fn.lastq; L={'Body':'body','JSON':'body','Code':'code','ContentType':'content_type','Headers':'headers','SetHeader':'headers','SetCookie':'headers'}.get(n)
            if n in('DisableCORS','EnableCORS'):
                if g.get('cors_header')!=(('1' if n=='EnableCORS' else '0'),) : R('whether the CORS header is sent is not set as asked for')
                if set(g)-{'cors_header'}: R('something else of the response changes')
                return
            if g.get('initialized')!=('1',): R('the response is not marked as one to be sent')
            if L not in g: R('what is given is not kept in the response'); return
            if n in('Body','Code','ContentType','Headers'):
                if not isp(g.get(L),ps[0][1]): R('what is kept in the response is not what is given')
            if n=='JSON':
                s.body(g.get('body'),ps[0][1],True,ps[1][1] if len(ps)>1 else None,R)
                if 'kDefaultJSONContentType' not in repr(g.get('content_type')): R('the content type of a JSON response is not set')
            if n=='SetCookie' and not all(any(mentions_kind(a,lambda t: ispar(t,p)) for a in g[L]) for _,p,_ in ps): R('not all of the cookie is kept')
            if set(g)-{L,'initialized','content_type'} or 'content_type' in g and n not in('JSON','ContentType'): R('something else of the response changes')
    def body(s,v,obj,isj,name,R):
        v=v or ()
        def j(x): return isinstance(x,tuple) and x[0]=='JSON' and ispar(x[1],obj)
        if not isj: ok=len(v)==1 and ispar(v[0],obj)
        elif name: ok=len(v)==5 and v[0]=='{"' and ispar(v[1],name) and v[2]=='":' and j(v[3]) and v[4]=='}\n'
        else: ok=len(v)==2 and j(v[0]) and v[1]=='\n'
        if not ok: R('the body of the response is not what is given')
class RCtor(Rule):
    opaque=('std::','current::net',RS+'::Construct')
    def __init__(s,F,fn): s.F=F; s.fn=fn; s.name='response'; s.tmp={}
    def init(s): return (None,None)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        i,k=st.rs
        if ev.k=='called' and short_(ev.q)=='basic_string' and ev.args: s.tmp[ev.val]=ev.args[0]
        if ev.k in('init','write') and ev.loc==fld('initialized'):
            if k: eng.report(ev.fr,ev.line,'a response is marked after it is constructed',st,rule='response')
            return (litv(ev.val),k)
        if ev.k=='call' and short_(ev.q)=='Construct':
            want=[p['n'] for p in s.fn.params]
            def same(a,i,n): return mentions_kind(a,lambda t: t==('p',i,n) or ispar(t,n) or n is not None and isinstance(t,tuple) and t[0] in('p','v') and t[-1]==n)
            # the arguments of a pack share one name: compare the positions as well
            ps=[('p',i,p['n']) for i,p in enumerate(s.fn.params)]
            if len(ev.args)<len(ps): ok=False
            else: ok=all(mentions(a,p) or mentions(s.deref(eng,st,a),p) or mentions(s.tmp.get(a),p) for a,p in zip(ev.args,ps))
            if not ok: eng.report(ev.fr,ev.line,'the arguments of a response are not passed on as they are',st,rule='response')
            return (i,(k or 0)+1)
    def deref(s,eng,st,a):
        return eng.lookup(st,a) if isinstance(a,tuple) and a[0] in('v','t') else a
    def end(s,eng,st,out):
        if out[0]!='ret' or not getattr(s,'fr0',None): return
        if st.rs[1]!=1: eng.report(s.fr0,s.fn.line,'the response is not constructed from its arguments',st,rule='response')
        if st.rs[0] not in(1,True): eng.report(s.fr0,s.fn.line,'a response with content is not marked as one to be sent',st,rule='response')
class DoRespond(Rule):
    opaque=('std::','current::net','current::http::Request')
    def __init__(s,F,fn): s.F=F; s.fn=fn; s.name='respond'
    def init(s): return (0,())
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        n,cors=st.rs
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='respond')
        if ev.k=='called' and short_(ev.q)=='Headers' and len(ev.args)==1 and ev.args[0]==fld('headers'): return (n,cors+((ev.val,False),))
        if ev.k=='called' and short_(ev.q)=='SetCORSHeader': return (n,tuple((x,True) if x==ev.recv else (x,y) for x,y in cors))
        if ev.k=='call' and (ev.q or '').startswith('current::http::Request::') and short_(ev.q)=='operator()' or ev.k=='call' and short_(ev.q)=='SendHTTPResponse':
            if n: R('a response is sent twice')
            T=lambda f: ('T',fld(f),None) in st.facts
            if not T('initialized'): R('a response without content is sent')
            a=list(ev.args)+[None]*4
            if a[0]!=fld('body'): R('the body sent is not that of the response')
            if a[1]!=fld('code'): R('the code sent is not that of the response')
            if a[3]!=fld('content_type'): R('the content type sent is not that of the response')
            if a[2]==fld('headers'): c=False
            else:
                c=dict(cors).get(a[2])
                if c is None: R('the headers sent are not those of the response')
            if c is not None and c!=T('cors_header') or not T('cors_header') and ('F',fld('cors_header'),None) not in st.facts: R('the CORS header is sent, or not, against what was asked for')
            return (1,cors)
    def end(s,eng,st,out):
        if out[0]=='ret' and not st.rs[0] and ('F',fld('initialized'),None) not in st.facts and getattr(s,'fr0',None): eng.report(s.fr0,s.fn.line,'a response with content is not sent',st,rule='respond')
def go(c,r,F,f,rule,what):
    e=Engine(F,r); e.run(f); c.from_engine(e); c.obligation(rule,what)
def run(c):
    F=lib.facts('w_http.cc')
    n=0
    for f in F.find(H+'::SendHTTPResponse'):
        r=Send(F,f,'plain'); go(c,r,F,f,'send',f.q+'(%s)'%', '.join(F.tystr(p['ty'])[:30] for p in f.params[1:])); n+=r.done
    for f in F.find(SC+'::SendChunkedHTTPResponse'):
        r=Send(F,f,'chunked'); go(c,r,F,f,'send',f.q+(f.ta or '')); n+=r.done
    if not c.viol and n<25: raise Broken('only %d senders understood'%n)
    fs=F.find(H+'::PrepareHTTPResponseHeader')
    if not fs: raise Broken('PrepareHTTPResponseHeader')
    for f in fs: go(c,Header(F,f),F,f,'header',f.q)
    for f in F.find(RS+'::Construct'): go(c,Build(F,f,'construct'),F,f,'response',f.q+str(f.line)+(f.ta or '')[:50])
    for m in('Body','JSON','Code','ContentType','Headers','SetHeader','SetCookie','DisableCORS','EnableCORS'):
        k=F.find(RS+'::'+m)
        if not k: raise Broken('Response::'+m)
        for f in k: go(c,Build(F,f,'setter'),F,f,'response',f.q)
    for f in F.find(RS+'::Response'):
        if f.implicit or not f.params or 'Response' in F.tystr(f.params[0]['ty']) and 'CodeValue' not in F.tystr(f.params[0]['ty']): continue
        go(c,RCtor(F,f),F,f,'response',f.q+(f.ta or '')[:60])
    fs=F.find(RS+'::DoRespondViaHTTP')
    if not fs: raise Broken('DoRespondViaHTTP')
    for f in fs: go(c,DoRespond(F,f),F,f,'respond',f.q)
    c.floor('send',25); c.floor('response',25)
