"""Parsing JSON (typesystem/serialization/json). Each deserializer is interpreted symbolically, once per type and format: whatever the
JSON is, on every path the destination is filled from exactly the value at hand, or an exception of the JSON parser is thrown because the value does not
match. A typed accessor is used only on a value known to have that type, an element only within the bounds, a member only if it exists;
a number is not narrowed unless it is known to fit; every element is taken once, in order; when patching, an absent value changes nothing
and is not an error. The parser comes back to the enclosing value, and every entry point passes the format, the text and the destination on."""
from rulelib import *
import lib,re
ASSUME=['rapidjson parses its input correctly, and its accessors return the value of the type they are named after','the names of the members of a JSON object are strings',
        'VisitAllFields visits every field of a structure']
J='current::serialization::json::'; DI='current::serialization::DeserializeImpl'
P=('p',0,'json_parser')
RJ='rapidjson::Generic'
OPQ=('rapidjson','std::','current::Exception','current::serialization::json::JSONSchema','current::serialization::json::JSONUninit','current::serialization::json::InvalidJSON',
     J+'JSONParser::Inner',J+'JSONParser::Path','current::Value','current::Optional','current::reflection','current::VariantImpl','current::FromString','current::UncheckedMove',J+'JSONVariantPerStyle')
ACC={'GetString':('IsString',),'GetStringLength':('IsString',),'GetUint64':('IsUint64','IsUint'),'GetInt64':('IsInt64','IsInt'),'GetUint':('IsUint',),'GetInt':('IsInt',),'GetBool':('IsBool','IsTrue','IsFalse'),
     'GetDouble':('IsNumber','IsDouble'),'GetFloat':('IsNumber','IsDouble'),'Begin':('IsArray',),'End':('IsArray',),'Size':('IsArray',),'GetArray':('IsArray',),'GetObject':('IsObject',),
     'MemberBegin':('IsObject',),'MemberEnd':('IsObject',),'HasMember':('IsObject',),'FindMember':('IsObject',),'MemberCount':('IsObject',)}
UINT={'unsigned char':8,'unsigned short':16,'unsigned int':32,'unsigned long':64}
SINT={'signed char':8,'char':8,'short':16,'int':32,'long':64}
def sh(q): return (q or '').rsplit('::',1)[-1]
def un(t):
    if isinstance(t,tuple):
        if len(t)==3 and t[0]=='old': return un(t[2])
        return tuple(un(x) for x in t)
    return t
class Parse(Rule):
    opaque=OPQ; exc=True; transparent=('current::serialization::',); cap=300; out_cap=300; keep_root_facts=True
    def inline(s,eng,fn):
        q=fn.q
        if q=='current::serialization::Deserialize': return False
        if q.endswith('::DoDeserialize') and q.startswith(DI) and fn.params and len(fn.params)==2: return s.F.tystr(fn.params[1]['ty'])==s.F.tystr(s.fn.params[1]['ty']) and fn.id!=s.fn.id
        if '::DeserializeTupleImpl' in q and q.endswith('::DoIt') or q.endswith('::DoLoadVariant') or q.endswith('::WithObject'): return False
        return True
    def __init__(s,F,fn,given=False):
        s.F=F; s.fn=fn; s.name='parse'; s.m={}; s.start={}; s.given=given
        s.p=('p',0,fn.params[0]['n']) if fn.params else P
        s.full=F.recfull(fn); s.patch='JSONPatcher<' in s.full
        s.simple='Minimalistic' in s.full or 'JavaScript' in s.full
        s.fs='NewtonsoftFSharp' in s.full
        s.setup()
    def setup(s):
        s.cur=('f',s.p,'current_'); s.V=('*',s.cur); s.d=('p',1,s.fn.params[1]['n'])
        t=s.F.tystr(s.fn.params[1]['ty']).replace('&','').strip(); s.ty=t
        s.kind=None; s.N=None; s.bits=None
        b=re.sub(r'^const ','',t)
        def st(*p): return any(b.startswith(x) for x in p)
        if st('current::Optional'): s.kind='optional'
        elif st('current::VariantImpl') or 'VariantImpl<' in b.split('CSI_')[0] and st('current'): s.kind='variant'
        elif st('std::vector'): s.kind='vector'
        elif st('std::array'): s.kind='array'; s.N=int(re.findall(r'(\d+)U?L?>$',b)[0])
        elif st('std::pair'): s.kind='pair'
        elif st('std::tuple'): s.kind='tuple'
        elif st('std::set','std::unordered_set'): s.kind='set'
        elif st('std::map','std::unordered_map'): s.kind='map'; s.skey=bool(re.match(r'std::(unordered_)?map<std::(__cxx11::)?basic_string|std::(unordered_)?map<std::string',b))
        elif 'chrono' in b: s.kind='scalar'; s.getter=('GetInt64',); s.need=[('IsInt64',)]
        elif 'basic_string' in b or b=='std::string': s.kind='string'; s.need=[('IsString',)]
        elif b in UINT: s.kind='scalar'; s.getter=('GetUint64','GetUint'); s.bits=UINT[b]; s.uns=True; s.need=[('IsUint64',)]+([('IsUint',)] if s.bits<=32 else [])
        elif b in SINT: s.kind='scalar'; s.getter=('GetInt64','GetInt'); s.bits=SINT[b]; s.uns=False; s.need=[('IsInt64',)]+([('IsInt',)] if s.bits<=32 else [])
        elif b in('float','double'): s.kind='scalar'; s.getter=('GetDouble','GetFloat') if b=='float' else ('GetDouble',); s.need=[('IsNumber',)]
        elif b=='bool': s.kind='bool'; s.need=[('IsTrue','IsFalse'),('IsBool',)]
        elif b.endswith('TypeID'): s.kind='typeid'; s.need=[('IsString',)]
        elif 'CSI_' in b or b.endswith('CurrentStruct'): s.kind='struct'
        else:
            u=s.enum(b)
            if u is None: raise lib.Broken('the kind of '+b)
            s.kind='scalar'; n,s.uns=u; s.bits=n; s.getter=('GetUint64','GetUint') if s.uns else ('GetInt64','GetInt'); s.need=[('IsUint64',) if s.uns else ('IsInt64',),('IsNumber',)]
    def enum(s,b):
        m={'EnumI':(32,False),'EnumU':(16,True),'EnumS':(16,False),'EnumL':(64,True)}
        return m.get(b.rsplit('::',1)[-1])
    # state: touched, ready (cleared or sized), loop, pending ((sub,local),..), fresh locals, marks
    def init(s): return (False,frozenset(),None,(),frozenset(),frozenset())
    def stable(s,eng,loc): return mentions(loc,s.p)
    def frozen(s,loc): return mentions(loc,s.p)
    def M(s,t):
        """what a term stands for"""
        t=un(t)
        if t in s.m: return s.m[t]
        if isinstance(t,tuple) and t and t[0] in('c','*','&','f','b','!') :
            t=tuple(s.M(x) if isinstance(x,tuple) else x for x in t)
            if s.N is not None and t[0]=='c' and t[1]=='std::array::size' and t[2]==s.d: return ('lit',s.N)
            if t[0]=='c' and t[1]=='[]' and len(t)==4 and isinstance(t[2],tuple) and t[2][:1]==('c',) and sh(t[2][1])=='Begin': return ('c',RJ+'Value::operator[]',t[2][2],t[3])
            if t[0]=='b' and t[1]=='+' and isinstance(t[2],tuple) and t[2][:1]==('c',) and sh(t[2][1])=='Begin' and litv(t[3]) is not None: return ('&',('c',RJ+'Value::operator[]',t[2][2],t[3]))
            if t[0]=='c' and t[1]=='[]' and len(t)==4 and t[3]==('lit',0): return ('*',t[2])
        return t
    def fact(s,st,op,a,b=None):
        for f in st.facts:
            if f[0]==op and s.M(f[1])==a and (b is None or s.M(f[2])==b): return True
        return False
    MAJ={'IsNull':'n','IsTrue':'b','IsFalse':'b','IsBool':'b','IsObject':'o','IsArray':'a','IsString':'s','IsNumber':'d','IsInt':'d','IsUint':'d','IsInt64':'d','IsUint64':'d','IsDouble':'d'}
    def feasible(s,st):
        '''the facts of the path do not contradict each other: a value has one type'''
        tr={}; fa={}; eq=set(); ne=set()
        for op,a,b in st.facts:
            x=s.M(a)
            if op in 'TF' and isinstance(x,tuple) and x[:1]==('c',) and len(x)==3 and sh(x[1]) in s.MAJ: (tr if op=='T' else fa).setdefault(x[2],set()).add(sh(x[1]))
            if op in('==','!=') and b is not None: (eq if op=='==' else ne).add(frozenset((x,s.M(b))))
        if eq&ne: return False
        for v,t in tr.items():
            f=fa.get(v,set())
            if t&f or len({s.MAJ[x] for x in t})>1: return False
            if 'IsBool' in f and t&{'IsTrue','IsFalse'} or 'IsBool' in t and f>={'IsTrue','IsFalse'} or t>={'IsTrue','IsFalse'}: return False
            if 'IsNumber' in f and any(s.MAJ[x]=='d' for x in t): return False
        return True
    def nonnull(s,st): return s.given or any(f[0] in('!=',) and s.cur in(un(f[1]),un(f[2])) and ('null',) in f or f[0]=='T' and un(f[1])==s.cur for f in st.facts)
    def null(s,st): return any(f[0]=='==' and s.cur in(un(f[1]),un(f[2])) and ('null',) in f or f[0]=='F' and un(f[1])==s.cur for f in st.facts)
    def pred(s,st,v,names,op='T'):
        for f in st.facts:
            if f[0]==op:
                t=s.M(f[1])
                if isinstance(t,tuple) and t[:1]==('c',) and sh(t[1]) in names and len(t)>2 and t[2]==v: return True
        return False
    def E(s,a):
        """&value or a reference -> the JSON value"""
        a=s.M(a)
        return a[1] if isinstance(a,tuple) and a[:1]==('&',) else a
    def var(s,t):
        t=un(t)
        if isinstance(t,tuple) and t:
            if t[0]=='lh' and len(t)>3: return t[3]
            if t[0]=='v': return t[2]
        return None
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        tou,rdy,loop,pend,fresh,marks=rs=st.rs
        def R(m):
            if s.feasible(st): eng.report(ev.fr,ev.line,s.ty[:60]+': '+m,st,rule='parse')
        n=sh(ev.q); q=ev.q or ''
        if ev.k in('decl','init','write') and isinstance(ev.loc,tuple) and ev.loc[0]=='v':
            v=s.M(ev.val) if ev.val is not None else None
            if v is None and isinstance(ev.val,tuple): v=ev.val
            if not(isinstance(v,tuple) and v[:2]==('b','+')): s.start.setdefault(ev.loc[2],set()).add(v)
            if ev.k=='decl': return (tou,rdy,loop,tuple(x for x in pend if x[1]!=ev.loc),fresh|{ev.loc},marks)
        s.look(st,ev,R)
        if ev.k=='branch':
            l=s.branch(ev.val,ev.pol,loop,R,marks)
            if l=='in' and loop=='next' and any(m[:1]==('use',) and ('adv',m[1]) not in marks for m in marks if isinstance(m,tuple)): R('the loop over the elements does not advance')
            if l!=loop:
                return (tou,rdy,l,() if l=='in' else pend,fresh if l!='in' else frozenset(),marks)
        return s.fill(eng,st,ev,R,rs)
    def look(s,st,ev,R):
        n=sh(ev.q); q=ev.q or ''
        if ev.k in('call','called') and q.startswith(RJ):
            r=s.E(ev.recv) if ev.recv is not None else None
            if ev.k=='called':
                if n in('Begin','End','MemberBegin','MemberEnd','operator[]','FindMember') and r is not None and isinstance(ev.val,tuple) and ev.val[0]=='r': s.m[ev.val]=('c','rapidjson::GenericValue::'+n,r)+tuple(s.M(a) for a in ev.args or ())
                if n=='operator->' and r is not None: s.m[ev.val]=r
                if n=='operator*' and r is not None and isinstance(ev.val,tuple) and ev.val[0]!='*': s.m[ev.val]=('*',r)
            else:
                if isinstance(r,tuple) and mentions(r,s.V) or r==s.V:
                    if not s.nonnull(st): R('the current value is looked at, and there may be none')
                if 'GenericValue' in q or True:
                    if n in ACC and r is not None and not(n in('GetString','GetStringLength') and isinstance(r,tuple) and r[0]=='f' and r[2]=='name'):
                        if not s.pred(st,r,ACC[n]) and not(s.given and r==s.V and ACC[n]==('IsObject',)): R('%s of a value which is not known to be so: %s is not checked'%(n,' or '.join(ACC[n])))
                    if n=='operator[]' and r is not None and ev.args and 'Iterator' not in q:
                        k=s.M(ev.args[0])
                        if isinstance(k,tuple) and (k[0]=='str' or s.strkey(ev,k)):
                            if not any(f[0]=='T' and isinstance(s.M(f[1]),tuple) and s.M(f[1])[:1]==('c',) and sh(s.M(f[1])[1])=='HasMember' and s.M(f[1])[2:]==(r,k) for f in st.facts) and not s.mini(): R('a member of an object is taken, and may not exist')
                        else:
                            if not s.pred(st,r,('IsArray',)): R('an element is taken of a value which is not known to be an array')
                            elif not s.inb(st,r,k): R('an element is taken, and may be beyond the end of the array')
        if ev.k=='called' and isinstance(ev.val,tuple):
            if n=='FromString' and ev.args and isinstance(s.M(ev.args[0]),tuple) and ev.args[0][0]=='v' and st.store.get(un(ev.args[0])) is not None: s.m[ev.val]=('FromString',s.M(st.store[un(ev.args[0])]))
            elif q=='current::Value' and ev.args: s.m[ev.val]=('Value',s.M(ev.args[0]))
            elif n=='FromString' and ev.args: s.m[ev.val]=('FromString',s.M(ev.args[0]))
            elif n=='basic_string' and ev.args: s.m[ev.val]=('string',)+tuple(s.M(a) for a in ev.args)
            elif 'chrono::duration' in q and ev.args and n=='duration': s.m[ev.val]=('duration',s.M(ev.args[0]))
            elif s.kind=='map' and n=='operator[]' and ev.args and q.startswith('std::') and ev.recv is not None and un(ev.recv)==s.d: s.m[ev.val]=('c',q,s.d,un(ev.args[0]))
            elif s.kind=='vector' and n=='emplace_back' and not ev.args and ev.recv is not None and un(ev.recv)==s.d: s.m[ev.val]=('c','std::vector::back',s.d)
            elif q.startswith('std::') and n in('get','__get_helper') and ev.args and 'tuple' in s.kind_(): s.m[ev.val]=('get',ev.val)
    def kind_(s): return s.kind or ''
    def strkey(s,ev,k): return False
    def mini(s): return False
    def inb(s,st,r,k):
        sz=('c','Size',r)
        def issz(t):
            t=s.M(t); return isinstance(t,tuple) and len(t)==3 and t[0]=='c' and sh(t[1])=='Size' and t[2]==r
        exact=None
        for f in st.facts:
            if f[0]=='==' and (issz(f[1]) or issz(f[2])):
                o=litv(f[2] if issz(f[1]) else f[1])
                if o is not None: exact=o
            if f[0] in('<',) and un(f[1])==k and issz(f[2]): return True
            if f[0]=='!=' and s.kind in('vector','array','set') and (un(f[1])==k and issz(f[2]) or un(f[2])==k and issz(f[1])) and s.var(k) is not None: return True
        if exact is None:
            for f in st.facts:
                # lit <= Size, lit < Size
                if f[0]=='<=' and litv(f[1]) is not None and issz(f[2]): exact=max(exact or 0,litv(f[1]))
                if f[0]=='<' and litv(f[1]) is not None and issz(f[2]): exact=max(exact or 0,litv(f[1])+1)
        if s.lock and r==s.V and s.kind in('vector','array') and s.var(k) is not None: return True
        if exact is None: return False
        if litv(k) is not None: return 0<=litv(k)<exact
        for f in st.facts:
            if f[0]=='<' and un(f[1])==k and litv(s.M(f[2])) is not None and litv(s.M(f[2]))<=exact: return True
            if f[0]=='<=' and un(f[1])==k and litv(f[2]) is not None and litv(f[2])<exact: return True
        return False
    lock=False
    def dit(s,t):
        '''an iterator over the destination'''
        t=un(t)
        if isc(t,'begin') and t[2:]==(s.d,): return True
        return any(isc(un(x),'begin') and un(x)[2:]==(s.d,) for x in s.start.get(s.var(t),()))
    def branch(s,t,pol,x,R,marks=frozenset()):
        while isinstance(t,tuple) and t and t[0]=='!': t=t[1]; pol=not pol
        if not(isinstance(t,tuple) and len(t)==4 and t[0] in('b','c') and isinstance(t[1],str)): return x
        op=t[1].rsplit('operator',1)[-1]
        if op not in('==','!=','<','>','<=','>='): return x
        a,b=s.M(t[2]),s.M(t[3])
        def bound(y):
            if s.kind in('vector','array') and isinstance(y,tuple) and y[:1]==('c',) and sh(y[1]) in('end','cend') and y[2:]==(s.d,) and (s.kind=='array' or 'sized' in marks): s.lock=True; return True
            return isinstance(y,tuple) and y[:1]==('c',) and sh(y[1]) in('End','MemberEnd','Size') and len(y)>2 and y[2]==s.V or s.kind=='array' and litv(y)==s.N
        if bound(a) and litv(b) is None: v=t[3]
        elif bound(b) and litv(a) is None: v=t[2]
        else: return x
        if bound(a) and bound(b): return x
        strict=op in('!=','<','>','==','<=','>=')
        more=pol if op in('!=','<','>') else not pol
        if op in('<=','>='):
            # `i <= size` goes too far, `size <= i` does not
            if (op=='<=' and bound(b)) or (op=='>=' and bound(a)): R('the loop over the elements goes beyond the last one'); return x
        if x=='in': R('an element is skipped'); return x
        if x=='did':
            if more: R('the loop over the elements does not advance')
            else: return 'done'
            return x
        if x in(None,'next'): return 'in' if more else 'done'
        return x
    def adv(s,ev):
        if ev.k=='write' and isinstance(ev.val,tuple) and un(ev.val)[:2]==('b','+') and ('lit',1) in ev.val and isinstance(ev.loc,tuple) and ev.loc[0]=='v': return True
        return ev.k=='call' and sh(ev.q)=='operator++'
    def begun(s,v,R):
        """the loop variable begins at the first element"""
        for x in s.start.get(v,()):
            x=s.M(x)
            if litv(x)==0: continue
            if isinstance(x,tuple) and x[:1]==('c',) and sh(x[1]) in('Begin','MemberBegin') and x[2]==s.V: continue
            if isinstance(x,tuple) and x and x[0]=='v': continue
            R('the loop over the elements does not begin at the first one')
    def elem(s,e):
        """-> the loop variable and the part ('' | 'name' | 'value' | 0 | 1) if e is the current element of the loop over V"""
        part=''
        if isinstance(e,tuple) and e[:1]==('f',) and e[2] in('name','value'): part=e[2]; e=e[1]
        elif isinstance(e,tuple) and e[:1]==('c',) and sh(e[1])=='operator[]' and litv(e[3]) is not None and e[2]!=s.V: part=litv(e[3]); e=e[2]
        if isinstance(e,tuple) and e[:1]==('*',): e=e[1]
        elif isinstance(e,tuple) and e[:1]==('c',) and sh(e[1])=='operator[]' and e[2]==s.V: e=e[3]
        else: return None
        if isinstance(e,tuple) and e[:1]==('c',) and sh(e[1]) in('Begin','MemberBegin') and e[2]==s.V: return ('first',part)
        v=s.var(e)
        return None if v is None else (v,part)
    def fill(s,eng,st,ev,R,rs):
        tou,rdy,loop,pend,fresh,marks=rs
        n=sh(ev.q); q=ev.q or ''; d=s.d
        if s.lock and ev.k=='write' and s.adv(ev): marks=marks|{('adv',ev.loc[2])}; rs=(tou,rdy,loop,pend,fresh,marks)
        if s.lock and loop=='next' and s.adv(ev): return rs
        if loop in('did','in') and s.adv(ev) and s.kind in('vector','array','set','map'):
            if s.lock and loop=='in' and ev.k=='write': return rs
            if loop=='in': R('an element is skipped')
            return (tou,rdy,'next',(),frozenset(),marks)
        if ev.k=='write' and isinstance(ev.loc,tuple) and path_root(ev.loc)==d or ev.k=='write' and isinstance(ev.loc,tuple) and s.M(ev.loc)[:1]==('c',) and mentions(s.M(ev.loc),d):
            v=s.M(ev.val)
            if s.kind in('scalar','bool'): s.scalar(st,v,R); return (True,rdy,loop,pend,fresh,marks|{'val'})
            if s.kind=='typeid': s.tid(st,v,R); return (True,rdy,loop,pend,fresh,marks|{'val'})
            if un(ev.loc)==d and s.kind in('set','map','vector') and ('sink',un(ev.val)) in marks: return (True,rdy|{d},loop,pend,fresh,marks|{'sunk'})
            if un(ev.loc)==d and s.kind=='string':
                if not(isinstance(v,tuple) and v[0]=='string' and len(v)>=3 and s.get(v[1],'GetString') and s.get(v[2],'GetStringLength')): R('the string is not the whole of the one in the JSON')
                return (True,rdy,loop,pend,fresh,marks|{'val'})
            if s.kind=='map' and s.M(ev.loc)[:1]==('c',) and sh(s.M(ev.loc)[1])=='operator[]': return s.put(ev,R,rs,[],d,[s.M(ev.loc)[3],un(ev.val)])[1]
            if un(ev.loc)==d and s.kind in('set','map','vector') and isinstance(v,tuple) and (v[:1]==('dflt',) or v==('il',)) :
                if 'any' in marks or loop in('in','did','next'): R('the container is cleared after its elements are there')
                return (True,rdy|{d},loop,pend,fresh,marks-{'sized'})
            if s.kind=='vector' and loop=='in':
                # destination[i] = tmp
                ok,rs2=s.put(ev,R,rs,[v],ev.loc)
                if ok: return rs2
        if ev.k=='call':
            args=[s.M(a) for a in ev.args or ()]
            recv=un(ev.recv) if ev.recv is not None else None
            if recv==d and n in('clear','resize') :
                if n=='resize' and not(args and isinstance(args[0],tuple) and args[0][:1]==('c',) and sh(args[0][1])=='Size' and args[0][2]==s.V) and litv(args[0])!=0: R('the container is resized to something else than the number of elements')
                if loop is not None and ('any' in marks or loop!='done'): R('the container is cleared after its elements are there')
                return (True,rdy|{d},loop,pend,fresh,marks|({'sized'} if n=='resize' and litv(args[0])!=0 else set()))
            if n=='assign' and recv==d and s.kind=='string':
                if not(len(args)==2 and s.get(args[0],'GetString') and s.get(args[1],'GetStringLength')): R('the string is not the whole of the one in the JSON')
                return (True,rdy,loop,pend,fresh,marks|{'val'})
            if n=='operator=' and recv==d or ev.k=='call' and n=='operator=' and args and args[0]==d and recv is None:
                a=args[-1]
                if s.kind=='optional':
                    if a==('null',): return (True,rdy,loop,pend,fresh,(marks-{'T'})|{'null'})
                    return (True,rdy,loop,pend,fresh,(marks-{'null'})|({'T'} if a not in [x for k,x in marks if k=='loc'] else {'val'}) if False else (marks|{'T'})|({'val'} if ('loc',un(ev.args[-1])) in marks else set()))
                if s.kind=='string':
                    if not(isinstance(a,tuple) and a[0]=='string' and len(a)>=3 and s.get(a[1],'GetString') and s.get(a[2],'GetStringLength')): R('the string is not the whole of the one in the JSON')
                    return (True,rdy,loop,pend,fresh,marks|{'val'})
                if s.kind in('scalar',): s.scalar(st,a,R); return (True,rdy,loop,pend,fresh,marks|{'val'})
                if s.kind=='typeid': s.tid(st,a,R); return (True,rdy,loop,pend,fresh,marks|{'val'})
                if s.kind in('set','map','vector') and ('sink',un(ev.args[-1])) in marks: return (True,rdy|{d},loop,pend,fresh,marks|{'sunk'})
                return (True,rdy,loop,pend,fresh,marks)
            if n in('swap','exchange') and s.kind in('set','map','vector') and any(un(a)==d for a in list(ev.args)+[recv]) and any(('sink',un(a)) in marks for a in list(ev.args)+[recv] if isinstance(a,tuple)):
                return (True,rdy|{d},loop,pend,fresh,marks|{'sunk'})
            if n=='Inner' and q.startswith(J+'JSONParser'):
                return s.inner(st,ev,args,R,rs)
            if n in('Deserialize','DoDeserialize') and q.startswith('current::serialization::Deserialize') and un(ev.args[0])==s.p:
                t=args[1]
                if s.kind=='optional':
                    if t==('Value',d):
                        if 'T' not in marks: R('an optional is deserialized into before it exists')
                        return (True,rdy,loop,pend,fresh,marks|{'val'})
                    if isinstance(t,tuple) and t[0]=='v': return (tou,rdy,loop,pend,fresh,marks|{('loc',t)})
                if s.kind=='struct' and t==d: return (True,rdy,loop,pend,fresh,marks|{'super'})
            if n=='WithObject' and s.kind=='struct' and args and args[0]==d: return (True,rdy,loop,pend,fresh,marks|{'fields'})
            if n=='DoIt' and q.startswith('current::serialization::DeserializeTuple') and s.kind=='tuple' and args==[s.p,d]: 
                if not s.pred(st,s.V,('IsArray',)): R('the elements of a tuple are taken of a value which is not known to be an array')
                if not any(f[0]=='==' and any(isinstance(s.M(x),tuple) and s.M(x)[:1]==('c',) and sh(s.M(x)[1])=='Size' and s.M(x)[2]==s.V for x in f[1:]) and any(litv(x)==s.ntuple() for x in f[1:]) for f in st.facts): R('the elements of a tuple are taken, and their number is not checked')
                return (True,rdy,loop,pend,fresh,marks|{'elems'})
            if n=='DoLoadVariant' and s.kind=='variant' and args==[s.p,d]: return (True,rdy,loop,pend,fresh,marks|{'val'})
            if n in('emplace','insert','push_back','emplace_back','try_emplace','insert_or_assign') and s.kind in('set','map','vector') and recv is not None and (recv==d or recv[0]=='v'):
                ok,rs2=s.put(ev,R,rs,args,recv)
                return rs2
            if n=='get' and q.startswith('std::'): return
            if recv==d and n not in('size','empty','begin','end','operator[]','reserve','back','front','data','find','count'): return (True,rdy,loop,pend,fresh,marks)
    def ntuple(s):
        d=0; n=1
        for ch in s.ty[s.ty.index('<')+1:s.ty.rindex('>')]:
            d+=ch in'<('; d-=ch in'>)'
            if ch==',' and d==0: n+=1
        return n
    def get(s,t,*names): return isinstance(t,tuple) and t[:1]==('c',) and sh(t[1]) in names and t[2]==s.V
    def scalar(s,st,v,R):
        if s.kind=='bool':
            ok=s.get(v,'IsTrue','GetBool') or litv(v)==1 and s.pred(st,s.V,('IsTrue',)) or litv(v)==0 and (s.pred(st,s.V,('IsFalse',)) or s.pred(st,s.V,('IsBool',)) and s.pred(st,s.V,('IsTrue',),'F'))
            if litv(v)==0 and not ok and s.pred(st,s.V,('IsTrue',),'F') : ok=s.pred(st,s.V,('IsFalse','IsBool'))
            if ok and s.get(v,'IsTrue') and not(s.pred(st,s.V,('IsTrue','IsFalse','IsBool'))): ok=False
            if not ok: R('the value is not the one in the JSON')
            return
        w=v
        if isinstance(w,tuple) and w[:1]==('duration',): w=w[1]
        elif isinstance(w,tuple) and w[:1]==('c',) and 'duration' in w[1] and len(w)>2: w=w[-1]
        if not s.get(w,*s.getter): R('the value is not the one in the JSON'); return
        if s.bits is None or s.bits==64: return
        g=sh(w[1]); 
        if s.bits==32 and g in('GetInt','GetUint'): return
        if s.bits==32 and s.pred(st,s.V,('IsUint',) if s.uns else ('IsInt',)): return
        lo,hi=(0,2**s.bits-1) if s.uns else (-2**(s.bits-1),2**(s.bits-1)-1)
        up=dn=False
        for op,a,b in st.facts:
            if op not in('<','<='): continue
            if s.M(a)==w and litv(b) is not None and litv(b)-(op=='<')<=hi: up=True
            if s.M(b)==w and litv(a) is not None and litv(a)+(op=='<')>=lo: dn=True
        if not(up and (dn or s.uns)): R('a number is narrowed to %d bits, and may not fit'%s.bits)
    def tid(s,st,v,R):
        ok=isinstance(v,tuple) and v[:1]==('FromString',) or isinstance(v,tuple) and v[:1]==('c',) and sh(v[1])=='FromString' and (v:=(v[0],v[2]))
        x=v[1] if ok else None
        if not(ok and isinstance(x,tuple) and x[:2]==('b','+') and s.get(x[2],'GetString') and x[3]==('lit',1)): R('the type id is not the number in the JSON'); return
        if not any(f[0]=='==' and any(s.M(y)==('*',x[2]) or s.M(y)==('c','[]',x[2],('lit',0)) for y in f[1:]) and any(litv(y)==84 for y in f[1:]) for f in st.facts): R('a type id which does not begin with a T')
    def inner(s,st,ev,args,R,rs):
        tou,rdy,loop,pend,fresh,marks=rs
        e,t=s.E(ev.args[0]),un(ev.args[1]); tm=s.M(ev.args[1])
        if s.kind in('vector','array','set','map'):
            x=s.elem(e)
            if x is None: R('something else than an element of the array is parsed'); return rs
            if loop!='in': R('an element is parsed outside of the loop over the elements' if loop!='did' else 'two elements are parsed at once'); 
            if x[0]!='first': s.begun(x[0],R)
            part=x[1]
            ok={'vector':part=='','array':part=='','set':part==''}.get(s.kind,part in(('name','value') if s.skey else (0,1)) if s.kind=='map' else False)
            if not ok: R('something else than an element of the container is parsed')
            if s.lock and isinstance(t,tuple) and t[:1]==('*',) and s.dit(t[1]):
                return (True,rdy,'did',pend,fresh,frozenset(m for m in marks if not(isinstance(m,tuple) and m[0] in('use','adv')))|{('use',x[0])})
            if isinstance(tm,tuple) and tm[:1]==('c',) and sh(tm[1]) in('operator[]','at') and tm[2]==s.d and s.kind in('vector','array'):
                k=e[3] if isinstance(e,tuple) and e[0]=='c' else None
                if tm[3]!=k: R('an element is parsed into a different place')
                if s.kind=='vector' and 'sized' not in marks: R('an element is parsed into a vector which is not resized')
                return (True,rdy,'did',pend,fresh,marks)
            if s.kind=='vector' and isinstance(tm,tuple) and tm[:1]==('c',) and sh(tm[1])=='back' and tm[2]==s.d:
                if 'slot' not in marks: R('an element is parsed over the previous one')
                elif s.d not in rdy: R('an element is added, and the container is not cleared')
                elif 'sized' in marks: R('an element is added to a vector which already has its size')
                return (True,rdy,'did',pend,fresh,(marks-{'slot'})|{'any'})
            if isinstance(t,tuple) and isinstance(path_root(t),tuple) and path_root(t)[0]=='v':
                if path_root(t) not in fresh or any(v==t for p_,v in pend): R('an element is parsed into a variable which holds what is left of the previous one')
                return (tou,rdy,loop,(pend+((part,t),))[:8],fresh,marks)
            R('an element is parsed into something else'); return rs
        if s.kind=='pair':
            k=None
            if isinstance(e,tuple) and e[:1]==('c',) and sh(e[1])=='operator[]' and e[2]==s.V:
                k=litv(e[3])
                if e[3][0]=='str': k={'Item1':0,'Item2':1}.get(e[3][1]) if s.fs else None
            want=('f',s.d,('first','second')[k]) if k in(0,1) else None
            if tm!=want: R('an element of the pair is parsed into a different place')
            return (True,rdy,loop,pend,fresh,marks|{('el',k)})
        if s.kind=='optional':
            if not(isinstance(e,tuple) and e[:1]==('c',) and sh(e[1])=='operator[]' and e[2]==('c',e[1],s.V,('str','Fields')) and litv(e[3])==0) or not s.fs: R('the optional is parsed from something else'); return rs
            if tm==('Value',s.d):
                if 'T' not in marks: R('an optional is deserialized into before it exists')
                return (True,rdy,loop,pend,fresh,marks|{'val'})
            if isinstance(t,tuple) and t[0]=='v': return (tou,rdy,loop,pend,fresh,marks|{('loc',t)})
        return rs
    def put(s,ev,R,rs,args,recv,raw=None):
        tou,rdy,loop,pend,fresh,marks=rs
        if raw is None: raw=[un(a) for a in (ev.args if ev.k=='call' else [ev.val])]
        raw=[a for a in raw if isinstance(a,tuple)]
        want=('name','value') if s.kind=='map' and s.skey else (0,1) if s.kind=='map' else ('',)
        if loop!='in': 
            if ev.k=='write': return False,rs
            R('an element is added outside of the loop over the elements'); return True,rs
        if not raw and s.kind=='vector' and recv==s.d:
            if 'slot' in marks: R('two elements are added at once')
            return True,(True,rdy,loop,pend,fresh,marks|{'slot'})
        def pos(a,v):
            """where v is used in a"""
            if a==v: return ()
            if v[:1]==('f',) and v[1]==a: return ({'first':0,'second':1}.get(v[2],9),)
            if isinstance(a,tuple):
                for i,x in enumerate(a):
                    if isinstance(x,tuple):
                        r=pos(x,v)
                        if r is not None: return (i,)+r
            return None
        got=[]
        for i,a in enumerate(raw):
            for p,v in pend:
                r=pos(a,v)
                if r is None: r=pos(s.M(a),v)
                if r is not None: got.append(((i,)+r,p))
        got=[p for r,p in sorted(got,key=lambda z:z[0])]
        if tuple(got)!=want:
            if ev.k=='write' and s.kind!='map': return False,rs
            R('what is added is not the element which is parsed'); return True,rs
        sink=recv if recv[0]=='v' else s.d
        if ev.k=='write' and s.kind=='vector':
            if 'sized' not in marks: R('an element is put into a vector which is not resized')
        elif sink==s.d and s.d not in rdy: R('an element is added, and the container is not cleared')
        elif sink==s.d and 'sized' in marks: R('an element is added to a vector which already has its size')
        return True,(True if sink==s.d else tou,rdy,'did',(),fresh,marks|({('sink',sink)} if sink!=s.d else {'any'}))
    def end(s,eng,st,out):
        if not getattr(s,'fr0',None) or not s.feasible(st): return
        tou,rdy,loop,pend,fresh,marks=st.rs
        def R(m,rule='parse'): eng.report(s.fr0,s.fn.line,s.ty[:60]+': '+m,st,rule=rule)
        nn,nu=s.nonnull(st),s.null(st)
        if out[0]=='exc': return s.thrown(eng,st,out,R,nn,nu)
        if out[0]!='ret': return
        if s.kind=='struct' and s.ty.endswith('CurrentStruct'): return
        for isnull in([True] if nu else [False] if nn else [True,False]):
            if isnull:
                if s.patch:
                    if tou: R('a value absent from the patch changes the destination')
                    continue
                if s.kind=='optional':
                    if 'null' not in marks or 'T' in marks: R('an absent value does not reset the optional')
                elif s.kind=='variant' and s.simple: 
                    if tou: R('an absent variant')
                else: R('a value which is absent is not an error')
            else:
                if not s.full_(st,rs=st.rs): R(s.why)
    def full_(s,st,rs):
        tou,rdy,loop,pend,fresh,marks=rs; k=s.kind
        s.why='the value is present, and the destination is not set'
        if k=='typeid' or k in('scalar','bool','string'): return 'val' in marks
        if k=='optional':
            if s.pred(st,s.V,('IsNull',)): 
                s.why='an explicit null does not reset the optional'
                return 'null' in marks and 'T' not in marks
            if s.fs and 'null' in marks and 'T' not in marks: return True
            return 'val' in marks and 'T' in marks
        if k=='variant': return 'val' in marks or s.simple and s.pred(st,s.V,('IsNull',)) and not tou
        if k=='struct':
            sup=s.sup()
            if sup and 'super' not in marks: s.why='the fields of the base structure are not parsed'; return False
            s.why='the fields of the structure are not parsed'
            return 'fields' in marks
        if k=='tuple': return 'elems' in marks
        if k=='pair': return ('el',0) in marks and ('el',1) in marks
        s.why='the value is present, and not every element of it is taken'
        if loop!='done': return False
        sink=[x for x in marks if isinstance(x,tuple) and x[0]=='sink']
        if sink: return 'sunk' in marks
        s.why='the container is not cleared'
        return s.d in rdy or k=='array' or 'sunk' in marks
    def sup(s): return s.ty.split('<')[0].endswith('Derived')
    def thrown(s,eng,st,out,R,nn,nu):
        t=repr(out[1])
        if isinstance(out[1],tuple) and out[1][0]=='rec': t=s.F.recs[out[1][1]]['q']
        if not any(x in t for x in('JSONSchemaException','JSONUninitializedVariantObject','InvalidJSON')): R('an exception which is not one of the JSON parser: %s'%t[:80])
        if s.patch and not nn: R('a value absent from the patch is an error')
        if nu: return
        # something does not match
        why=set()
        for op,a,b in st.facts:
            x=s.M(a)
            def about(y): return mentions(y,s.V) or mentions_kind(y,lambda z: isinstance(z,tuple) and z[:1]==('lh',))
            if op=='F' and isinstance(x,tuple) and x[:1]==('c',) and about(x): why.add(sh(x[1]) if x[2]==s.V else 'sub')
            if op=='T' and isinstance(x,tuple) and x[:1]==('c',) and sh(x[1])=='IsNull': why.add('null')
            if op=='T' and isinstance(x,tuple) and x[:1]==('c',) and sh(x[1])=='strcmp': why.add('sub')
            if op in('!=','<','<=') and b is not None:
                y=s.M(b)
                for u,w in((x,y),(y,x)):
                    if isinstance(u,tuple) and mentions_kind(u,lambda z: isinstance(z,tuple) and z[:1]==('c',) and sh(z[1])=='Size') and litv(w) is not None and op=='!=': why.add('size')
                    if isinstance(u,tuple) and mentions_kind(u,lambda z: isinstance(z,tuple) and z[:1]==('c',) and sh(z[1]).startswith('Get') and sh(z[1])!='GetString') and litv(w) is not None and s.outside(op,x,y): why.add('range')
                    if op=='!=' and mentions_kind(u,lambda z: isinstance(z,tuple) and z[:1]==('c',) and sh(z[1])=='GetString') and litv(w)==84: why.add('size')
        k=s.kind
        need=getattr(s,'need',None) or {'vector':[('IsArray',)],'array':[('IsArray',)],'set':[('IsArray',)],'map':[('IsObject',)] if k=='map' and s.skey else [('IsArray',)],'pair':[('IsObject',)] if s.fs else [('IsArray',)],'tuple':[('IsArray',)],'struct':[('IsObject',)],
              'optional':[('IsObject',)],'variant':[('null',)]}[k]
        ok=any(all(x in why for x in alt) for alt in need) or 'range' in why or k in('pair','tuple','array') and 'size' in why or k=='map' and not s.skey and ('sub' in why or 'size' in why) or k in('pair','optional') and s.fs and ('HasMember' in why or 'sub' in why or 'size' in why) or k=='typeid' and 'size' in why
        if not ok: R('an exception, and nothing in the JSON is known to be wrong')
    def outside(s,op,x,y):
        lo,hi=(0,2**s.bits-1) if s.uns else (-2**(s.bits-1),2**(s.bits-1)-1)
        if s.bits is None: return False
        if litv(x) is not None: return litv(x)+(op=='<')>hi
        if litv(y) is not None: return litv(y)-(op=='<')<lo
        return False
class Back(Rule):
    """JSONParser::Inner"""
    opaque=('rapidjson','std::','current::serialization::Deserialize'); transparent=('current::serialization::',); keep_root_facts=True
    def __init__(s,F,fn): s.F=F; s.fn=fn; s.name='inner'
    def init(s): return ('orig',0,0)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        cur,nd,dep=st.rs; C=('f',('R',),'current_'); n=sh(ev.q); p0,p1=s.fn.params[0]['n'],s.fn.params[1]['n']
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='inner')
        if ev.k=='write' and un(ev.loc)==C:
            v=un(ev.val)
            return ('orig' if v==C else 'inner' if isinstance(v,tuple) and (v==('p',0,p0) or v[0]=='v' and v[3:]==(p0,)) else 'other',nd,dep)
        if ev.k!='call': return
        if n=='Deserialize' and (ev.q or '').startswith('current::serialization::Deserialize'):
            if ev.args[0]!=('R',): R('the inner value is parsed by another parser')
            if un(ev.args[1])!=('p',1,p1): R('the inner value is parsed into something else than the destination given')
            if cur!='inner': R('what is parsed is not the inner value')
            if nd: R('the inner value is parsed twice')
            return (cur,min(nd+1,2),dep)
        if un(ev.recv)==('f',('R',),'path_'):
            if n in('push_back','emplace_back'): return (cur,nd,dep+1 if dep<20 else dep)
            if n=='pop_back': return (cur,nd,dep-1)
    def end(s,eng,st,out):
        if out[0]!='ret' or not getattr(s,'fr0',None): return
        cur,nd,dep=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='inner')
        if not nd: R('the inner value is not parsed')
        if cur!='orig': R('the parser does not return to the enclosing value')
        if dep: R('the path is not what it was before the inner value was parsed')
class PCtor(Rule):
    """JSONParser::JSONParser"""
    opaque=('rapidjson','std::','current::serialization::json::Inv','current::Exception'); transparent=('current::serialization::',); keep_root_facts=True; exc=True
    def __init__(s,F,fn): s.F=F; s.fn=fn; s.name='ctor'; s.res=set()
    def init(s): return (False,None)
    def stable(s,eng,loc): return False
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        par,cur=st.rs; D=('f',('R',),'document_')
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='text')
        if ev.k in('call','called') and sh(ev.q).startswith('Parse') and un(ev.recv if ev.k=='call' else ev.recv or D)==D and 'rapidjson' in ev.q:
            if ev.k=='called':
                s.res.add(ev.val); return
            p=s.fn.params[0]['n']; v=un(ev.args[0]) if ev.args else None
            if not(v==('p',0,p) or isinstance(v,tuple) and v[0]=='v' and v[3:]==(p,)): R('what is parsed is not the text given')
            m=s.F.fns.get((ev.e or {}).get('f')) ; ta=(m.ta if m else None) or ((ev.e or {}).get('ta')) or ''
            fl=re.match(r'<(\d+)',ta or '')
            if fl and int(fl.group(1))&(1|8|32|64|256): R('text which is not JSON is accepted (parse flags %s)'%fl.group(1))
            return (True,cur)
        if ev.k=='write' and un(ev.loc)==('f',('R',),'current_'): return (par,un(ev.val)==('&',D))
    def err(s,st,op):
        for f in st.facts:
            x=un(f[1])
            if f[0]==op and isinstance(x,tuple) and x[:1]==('c',) and sh(x[1]) in('HasParseError',) and (x[2] in s.res or x[2]==('f',('R',),'document_')): return True
        return False
    def end(s,eng,st,out):
        par,cur=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='text')
        if not getattr(s,'fr0',None): return
        if out[0]=='ret':
            if not par: R('the text is not parsed')
            elif not s.err(st,'F'): R('a text which is not valid JSON is accepted')
            if not cur: R('the parser does not begin with the whole document')
        elif out[0]=='exc':
            t=s.F.recs[out[1][1]]['q'] if isinstance(out[1],tuple) and out[1][0]=='rec' else repr(out[1])
            if not t.endswith('InvalidJSONException'): R('an exception which is not one of the JSON parser: %s'%t[:80])
            if not s.err(st,'T'): R('a text which is valid JSON is rejected')
class Entry(Rule):
    """ParseJSON, TryParseJSON, PatchObjectWithJSON"""
    opaque=('rapidjson','std::','current::serialization::Des','current::CheckIntegrity','current::serialization::json::JSONParser','current::serialization::json::Inv','current::Optional','current::serialization::json::JSONUn','current::Exception')
    transparent=('current::serialization::','current::strings::'); exc=True; keep_root_facts=True
    def __init__(s,F,fn):
        s.F=F; s.fn=fn; s.name='entry'; s.done=0
        s.try_='Try' in fn.q; s.patch='Patch' in fn.q
        ty=[F.tystr(p['ty']) for p in fn.params]
        dst=[i for i,t in enumerate(ty) if not(t.startswith('const ') and ('char' in t or 'Chunk' in t))]
        txt=[i for i in range(len(ty)) if i not in dst]
        if len(txt)!=1 or len(dst)>1: raise lib.Broken(fn.q)
        s.dst=('p',dst[0],fn.params[dst[0]]['n']) if dst else None
        s.txt=('p',txt[0],fn.params[txt[0]]['n'])
        fmt=re.findall(r'JSONFormat::(\w+)',fn.ta or '')
        s.fmt=fmt[-1] if fmt else None
        s.rec={r['q']:i for i,r in F.recs.items() if r['q'].endswith('Exception')}
    def inline(s,eng,fn): return not fn.q.startswith('verif_json') and 'CSI_' not in fn.q
    def throws(s,eng,e,fr):
        q=eng.F.fns[e['f']].q if e.get('f') in eng.F.fns else e.get('q') or ''
        J_='current::serialization::json::'
        if q.startswith(J_+'JSONParser::JSONParser'): return [('rec',s.rec[J_+'InvalidJSONException'])]
        if q=='current::serialization::Deserialize': return [('rec',s.rec[J_+'JSONSchemaException'])]
        if q=='current::CheckIntegrity': return [('rec',s.rec['current::UninitializedVariantException'])]
        return False
    # parser, destination parsed, checked, result
    def init(s): return (None,None,False,None)
    def istext(s,v):
        v=un(v)
        if isinstance(v,tuple) and v[:1]==('c',) and sh(v[1]) in('c_str','data','begin') and len(v)==3: v=v[2]
        elif isinstance(v,tuple) and v[0]=='f' and v[2]=='S': v=v[1]
        return v==s.txt or isinstance(v,tuple) and v[0]=='v' and v[3:]==(s.txt[2],)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        par,dst,chk,res=st.rs
        def R(m): eng.report(ev.fr,ev.line,m,st,rule='entry')
        q=ev.q or ''
        if ev.k=='called' and q=='current::CheckIntegrity' and dst is not None and un(ev.args[0])==dst: return (par,dst,True,res)
        if ev.k!='call': return
        if q.startswith('current::serialization::json::JSONParser::JSONParser') and not (ev.e or {}).get('cp'):
            if not ev.args or not s.istext(ev.args[0]): R('what is parsed is not the text given')
            m=s.F.fns.get((ev.e or {}).get('f')); full=s.F.recfull(m) if m else s.F.recs.get((ev.e or {}).get('rc'),{}).get('full','') or ev.cls or ''
            g=re.findall(r'JSONFormat::(\w+)',full)
            if not g: raise lib.Broken('the format of '+full)
            if s.fmt and g[-1]!=s.fmt: R('the format asked for is %s, the one parsed is %s'%(s.fmt,g[-1]))
            if ('JSONPatcher' in full)!=s.patch: R('a patch is not parsed as one' if s.patch else 'an object is parsed as a patch')
            return (ev.recv,dst,chk,res)
        if q=='current::serialization::Deserialize':
            if ev.args[0]!=par: R('the destination is filled from something else')
            d=un(ev.args[1])
            if s.dst and d!=s.dst or not s.dst and not(isinstance(d,tuple) and d[0] in('v','retval','t')): R('the destination is not the one given')
            if dst is not None: R('the destination is filled twice')
            return (par,d,False,res)
        if q=='current::Optional::Optional' and ev.args:
            a=un(ev.args[0])
            for _ in range(4):
                x=un(st.store.get(a)) if isinstance(a,tuple) and a[0]=='t' else None
                if isinstance(x,tuple) and x[:1]==('c',) and x[1].startswith('ctor') and len(x)==3: x=x[2]
                if x is None: break
                a=x
            return (par,dst,chk,'null' if a==('null',) else 'value' if a==dst else res if ev.e.get('cp') else 'other')
    def end(s,eng,st,out):
        if not getattr(s,'fr0',None): return
        par,dst,chk,res=st.rs
        def R(m): eng.report(s.fr0,s.fn.line,m,st,rule='entry')
        if out[0]=='exc':
            q=s.F.recs[out[1][1]]['q'] if isinstance(out[1],tuple) and out[1][0]=='rec' else repr(out[1])
            if s.try_: R('an attempt to parse ends with an exception: '+q)
            elif not(isinstance(out[1],tuple) and out[1][0]=='rec' and any(s.F.recs[b]['q'].endswith('TypeSystemParseJSONException') for b in s.F.bases(out[1][1]))): R('an exception which is not one of the JSON parser: '+q)
            return
        if out[0]!='ret': return
        s.done+=1
        if s.try_ and res=='null': 
            if dst is not None and chk and not s.caught(st): R('what is parsed is not returned')
            return
        if dst is None: R('nothing is parsed'); return
        if not chk: R('what is parsed is not checked for uninitialized variants')
        if s.try_ and res!='value': R('what is parsed is not returned')
        if not s.try_ and not s.dst:
            v=un(out[1])
            if v!=dst and not(isinstance(v,tuple) and v==('retval',) and un(st.store.get(('retval',)))==dst): s.ret(R,st,v,dst)
    def ret(s,R,st,v,dst):
        x=un(st.store.get(('retval',)))
        if isinstance(x,tuple) and x[:1]==('c',) and x[1].startswith('ctor') and len(x)==3 and (un(x[2])==dst): return
        if mentions(x,dst) or mentions(v,dst): return
        R('what is parsed is not returned')
    def caught(s,st):
        t=st.tr
        while t:
            if 'caught' in str(t[1]): return True
            t=t[0]
        return False
def has(t,F_): return mentions_kind(t,F_)
def isc(t,*names): return isinstance(t,tuple) and t[:1]==('c',) and sh(t[1]) in names
class Part(Parse):
    """what is around the deserializers"""
    need=[]; allowarr=False
    def setup(s): s.kind='part'; s.ty=s.fn.q.rsplit('::',2)[-2]; s.N=s.bits=None; s.set2()
    def mini(s): return True
    def inb(s,st,r,k): return s.allowarr or Parse.inb(s,st,r,k)
    def pred(s,st,v,names,op='T'): return s.allowarr and v==s.V and 'IsArray' in names or Parse.pred(s,st,v,names,op)
    def inner(s,st,ev,args,R,rs): return rs
class Field(Part):
    def nullonly(s,st): return any(f[0]=='==' and s.cur in(un(f[1]),un(f[2])) and ('null',) in f or f[0]=='F' and un(f[1])==s.cur for f in st.facts)
    def set2(s):
        s.p=('*',('f',('R',),'json_parser_')); s.cur=('f',s.p,'current_'); s.V=('*',s.cur); s.given=True; s.d=('p',1,s.fn.params[1]['n']); s.nm=s.fn.params[0]['n']
    def init(s): return (0,)
    def isname(s,k): k=un(k); return k==('p',0,s.nm) or isinstance(k,tuple) and k[0]=='v' and k[3:]==(s.nm,)
    def strkey(s,ev,k): return s.isname(k)
    def present(s,st):
        for f in st.facts:
            x=s.M(f[1])
            if f[0] in 'TF' and isc(x,'HasMember') and x[2]==s.V and s.isname(x[3]): return f[0]=='T'
            if f[0] in('==','!=') and f[2] is not None:
                y=s.M(f[2])
                for a,b in((x,y),(y,x)):
                    if isc(a,'FindMember') and s.isname(a[3]) and isc(b,'MemberEnd') and b[2]==s.V: return f[0]=='!='
    def fill(s,eng,st,ev,R,rs):
        if ev.k=='call' and sh(ev.q)=='Inner' and ev.q.startswith(J+'JSONParser'):
            if un(ev.recv)!=s.p: R('a field is parsed by another parser')
            if un(ev.args[1])!=s.d: R('a field is parsed into something else')
            if rs[0]: R('a field is parsed twice')
            p=s.present(st); e=s.M(ev.args[0])
            if e==('null',):
                if p is not False: R('a field which may be present is parsed as an absent one')
            else:
                e=s.E(e)
                ok=isc(e,'operator[]') and e[2]==s.V and s.isname(e[3]) or isinstance(e,tuple) and e[0]=='f' and e[2]=='value' and (e[1][1] if e[1][:1]==('*',) else None) is not None and isc(e[1][1],'FindMember') and s.isname(e[1][1][3])
                if not ok: R('a field is parsed from a value of another name')
                elif p is not True: R('a field which may be absent is parsed from the object')
            return (1,)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        def R(m): eng.report(ev.fr,ev.line,s.ty+': '+m,st,rule='parse')
        s.look(st,ev,R)
        return s.fill(eng,st,ev,R,st.rs)
    def end(s,eng,st,out):
        if out[0]=='ret' and not st.rs[0] and getattr(s,'fr0',None): eng.report(s.fr0,s.fn.line,'a field is not parsed',st,rule='field')
class Tup(Field):
    def inline(s,eng,fn): return not fn.q.endswith('::DoIt')
    allowarr=True
    def set2(s):
        s.cur=('f',s.p,'current_'); s.V=('*',s.cur); s.given=True; s.d=('p',1,s.fn.params[1]['n']); s.got={}
        m=re.search(r'(\d+)U?L?, (\d+)U?L?>$',s.full)
        if not m: raise lib.Broken('the indexes of '+s.full)
        s.I,s.N=int(m.group(1)),int(m.group(2))
    def init(s): return (frozenset(),)
    def strkey(s,ev,k): return False
    def fill(s,eng,st,ev,R,rs):
        if ev.k=='called' and sh(ev.q) in('get','__get_helper') and ev.args and un(ev.args[0])==s.d:
            m=s.F.fns.get((ev.e or {}).get('f')); ta=(m.ta if m else None) or (ev.e or {}).get('ta') or ''
            g=re.match(r'<(\d+)',ta)
            s.got[ev.val]=int(g.group(1)) if g else None
        if ev.k=='call' and sh(ev.q)=='DoIt' and [un(a) for a in ev.args]==[s.p,s.d]:
            m=s.F.fns.get((ev.e or {}).get('f')); g=re.search(r'(\d+)U?L?, (\d+)U?L?>$',s.F.recfull(m)) if m else None
            if not g: raise lib.Broken('the indexes of DoIt')
            k=frozenset(range(int(g.group(1)),int(g.group(2))))
            if k&rs[0]: R('an element of a tuple is parsed twice')
            return (rs[0]|k,)
        if ev.k=='call' and sh(ev.q)=='Inner' and ev.q.startswith(J+'JSONParser'):
            e=s.E(ev.args[0])
            if un(ev.recv)!=s.p: R('an element is parsed by another parser')
            if not(isc(e,'operator[]') and e[2]==s.V and litv(e[3]) is not None): R('an element of a tuple is parsed from something else'); return
            k=litv(e[3])
            t=ev.args[1]; g=s.got.get(t,s.got.get(un(t),'?'))
            if g=='?' : R('an element of a tuple is parsed into something else')
            elif g!=k: R('an element of a tuple is parsed into a different place')
            if k in rs[0]: R('an element of a tuple is parsed twice')
            return (rs[0]|{k},)
    def end(s,eng,st,out):
        if out[0]=='ret' and getattr(s,'fr0',s.N) is not None and st.rs[0]!=frozenset(range(s.I,s.N)):
            if s.I<s.N: eng.report(s.fr0,s.fn.line,'not every element of a tuple is parsed',st,rule='tuple')
class Case(Field):
    opaque=OPQ+('current::IHasUnchecked',)
    def set2(s):
        s.cur=('f',s.p,'current_'); s.V=('*',s.cur); s.given=True; s.d=('p',1,s.fn.params[1]['n'])
        g=re.search(r'<(.*)>$',s.full)
        s.empty='Empty' in s.full
        s.fsh='FSharp' in s.fn.q
    # made, filled, given away
    def init(s): return (frozenset(),frozenset(),0)
    def iskey(s,k):
        k=un(k)
        return k==('str','Fields') if s.fsh else isinstance(k,tuple) and k==('f',('R',),'key_name_')
    def strkey(s,ev,k): return litv(k) is None
    def res(s,st,t):
        """which of the objects made is meant"""
        for _ in range(8):
            t=un(t)
            if t in st.rs[0]: return t
            if t in s.m: t=s.m[t]; continue
            y=st.store.get(t) if isinstance(t,tuple) else None
            if y is None or y==t:
                if isinstance(t,tuple) and t[:1]==('c',) and len(t)==3: t=t[2]; continue
                return None
            t=y
    def mini(s): return 'Minimalistic' in s.fn.q
    def fill(s,eng,st,ev,R,rs):
        made,filled,mv=rs
        n=sh(ev.q)
        if ev.k=='call' and ev.ctor and 'unique_ptr' in (ev.q or '') and ev.args and ev.recv is not None and isinstance(ev.args[0],tuple) and has(un(ev.args[0]),lambda z:isinstance(z,tuple) and z[:1]==('new',)):
            o=un(ev.args[0]); s.m[ev.recv]=o
            return (made|{o},filled,mv)
        if ev.k=='called' and n=='make_unique': return None if ev.args else (made|{un(ev.val)},filled,mv)
        if ev.k=='call' and n=='Inner' and ev.q.startswith(J+'JSONParser'):
            e=s.E(ev.args[0]); t=un(ev.args[1])
            o=s.res(st,t[1]) if isinstance(t,tuple) and t[0]=='*' else ('&',t) if ('&',t) in made else None
            if un(ev.recv)!=s.p: R('a variant is parsed by another parser')
            if o is None: R('a variant is parsed into something else than a new object')
            ok=isc(e,'operator[]') and e[2]==s.V and s.iskey(e[3]) if not s.fsh else isc(e,'operator[]') and litv(e[3])==0 and isc(e[2],'operator[]') and e[2][2]==s.V and s.iskey(e[2][3])
            if not ok: R('a variant is parsed from something else')
            return (made,filled|{o},mv)
        if ev.k=='call' and ev.ctor and 'unique_ptr' in (ev.q or '') and ev.args and ev.recv is not None: 
            o=s.res(st,ev.args[0])
            if o is not None: s.m[ev.recv]=o
        if ev.k=='call' and n=='UncheckedMoveFromUniquePtr':
            if un(ev.recv)!=s.d: R('the variant filled is not the one given')
            o=s.res(st,ev.args[0])
            if o is None: R('the variant is given something else than the object parsed')
            elif o not in filled and not(s.fsh and s.empty): R('the variant is given an object which is not parsed')
            if mv: R('the variant is set twice')
            return (made,filled,1)
    def hm(s,st):
        for f in st.facts:
            x=s.M(f[1])
            if f[0] in 'TF' and isc(x,'HasMember') and x[2]==s.V and s.iskey(x[3]): return f[0]=='T'
    def end(s,eng,st,out):
        if not getattr(s,'fr0',None): return
        def R(m): eng.report(s.fr0,s.fn.line,s.ty+': '+m,st,rule='variant')
        nu=s.nullonly(st)
        if out[0]=='ret':
            if not st.rs[2] and not(s.patch and (s.hm(st) is False or nu)): R('the variant is not set')
            if st.rs[2] and s.fsh and s.hm(st) is True and not st.rs[1]: R('the fields of the variant are ignored')
        elif out[0]=='exc':
            t=s.F.recs[out[1][1]]['q'] if isinstance(out[1],tuple) and out[1][0]=='rec' else repr(out[1])
            if 'JSONSchemaException' not in t: R('an exception which is not one of the JSON parser: '+t[:80])
            if st.rs[2]: R('an exception after the variant is set')
            if not(s.hm(st) is False or nu or s.fsh and s.sub(st)): R('an exception, and nothing in the JSON is known to be wrong')
    def sub(s,st):
        for f in st.facts:
            x=s.M(f[1])
            if f[0]=='F' and isc(x,'IsArray'): return True
            if f[0]=='!=' and f[2] is not None and (isc(x,'Size') or isc(s.M(f[2]),'Size')): return True
        return False
class Load(Field):
    opaque=OPQ+('current::serialization::json::JSONVariantCase',)
    opaque=tuple(x for x in opaque if x!=J+'JSONVariantPerStyle')
    def set2(s):
        s.cur=('f',s.p,'current_'); s.V=('*',s.cur); s.given=False; s.d=('p',1,s.fn.params[1]['n'])
        st='Simple' if 'Style::Simple' in s.full else 'FSharp' if 'Style::Newtonsoft' in s.full else 'Current'
        s.asg={}; s.style=st; s.key={'Current':'','FSharp':'Case','Simple':None}[st]; s.looked={}
    # locals holding the name of the case, done
    def init(s): return (frozenset(),0)
    def fill(s,eng,st,ev,R,rs):
        names,done=rs; n=sh(ev.q)
        if ev.k=='call' and n=='Inner' and ev.q.startswith(J+'JSONParser'):
            e=s.E(ev.args[0])
            if s.key is None or not(isc(e,'operator[]') and e[2]==s.V and un(e[3])==('str',s.key)): R('the case of the variant is parsed from something else'); return
            t=un(ev.args[1])
            if not(isinstance(t,tuple) and t[0]=='v'): R('the case of the variant is parsed into something else'); return
            return (names|{t},done)
        if s.key is None and ev.k in('write','decl','called') :
            v=un(ev.val); l=un(ev.loc) if ev.loc is not None else None
            if ev.k=='called': v=un(ev.args[0]) if ev.args and (n=='basic_string' or n=='operator=') else None; l=un(ev.val) if n=='basic_string' else un(ev.recv)
            if isinstance(l,tuple) and l[0] in('v','t') and v is not None and v!=l:
                y=s.M(v)
                k='key' if s.key_of(st,v) else 'none' if isinstance(y,tuple) and (('str','') in y or y[0]=='dflt') or y==('str','') else v if isinstance(v,tuple) and v[0] in('v','t') else 'other'
                s.asg.setdefault(l,set()).add(k)
        if ev.k=='called' and n=='find' and un(ev.recv)==('f',('R',),'deserializers_'):
            s.looked[un(ev.val)]=1
            a=un(ev.args[0])
            if not(a in names or s.key is None and s.named(st,a)): R('the case looked for is not the one in the JSON')
        if ev.k=='call' and n=='Deserialize' and 'JSONVariantCase' in ev.q:
            if [un(a) for a in ev.args]!=[s.p,s.d]: R('the case of the variant is parsed into something else')
            r=un(ev.recv)
            it=[x for x in subterms(r) if x in s.looked]
            if not it: R('the case of the variant is not the one looked for')
            elif not any(f[0]=='!=' and f[2] is not None and any(un(x)==it[0] for x in f[1:]) and any(isc(un(x),'end','cend') for x in f[1:]) for f in st.facts): R('the case of the variant may not be known')
            if done: R('the variant is parsed twice')
            return (names,1)
    def named(s,st,a):
        # every value this variable is ever given is the name of a member, or empty
        seen=set(); q=[a]; ok=False
        if s.key_of(st,a): return True
        while q:
            x=q.pop()
            if x in seen: continue
            seen.add(x)
            if x not in s.asg: return False
            for k in s.asg[x]:
                if k=='key': ok=True
                elif k=='other': return False
                elif k!='none': q.append(k)
        return ok
    def key_of(s,st,v):
        v=s.M(v)
        if isc(v,'GetString'): v=v[2]; return isinstance(v,tuple) and v[0]=='f' and v[2]=='name'
        if isinstance(v,tuple) and v[:1]==('string',): return any(s.key_of(st,x) for x in v[1:])
        if isinstance(v,tuple) and v[:1]==('c',) and v[1].startswith('ctor') and len(v)==3: return s.key_of(st,v[2])
        return False
    def end(s,eng,st,out):
        if not getattr(s,'fr0',None): return
        def R(m): eng.report(s.fr0,s.fn.line,s.style+' variant: '+m,st,rule='variant')
        nn,nu=s.nonnull(st),s.nullonly(st); done=st.rs[1]
        if out[0]=='ret':
            if done: return
            if not(s.patch and nu): R('the variant is not set')
        elif out[0]=='exc':
            t=s.F.recs[out[1][1]]['q'] if isinstance(out[1],tuple) and out[1][0]=='rec' else repr(out[1])
            if 'JSONSchemaException' not in t: R('an exception which is not one of the JSON parser: '+t[:80])
            if s.patch and not nn: R('a variant absent from the patch is an error'); return
            if nu: return
            ok=False
            for f in st.facts:
                x=s.M(f[1]); y=s.M(f[2]) if f[2] is not None else None
                if f[0]=='F' and isc(x,'IsObject') and x[2]==s.V: ok=True
                if f[0]=='F' and isc(x,'HasMember') and x[2]==s.V and s.key is not None and un(x[3])==('str',s.key): ok=True
                if f[0]=='F' and isc(x,'IsString'): ok=True
                if f[0]=='==' and any(un(z) in s.looked for z in f[1:]): ok=True
                if s.key is None and f[0]=='==' and ('null',) in(x,y): ok=True     # no case
                if s.key is None and f[0]=='!=' and ('null',) in(x,y) and not any(un(z)==s.cur for z in f[1:]): ok=ok or 'second'
            if not ok: R('an exception, and nothing in the JSON is known to be wrong')
def subterms(t):
    yield t
    if isinstance(t,tuple):
        for x in t:
            if isinstance(x,tuple): yield from subterms(x)
class Disp(Rule):
    """Deserialize(parser, value)"""
    opaque=('current::serialization::DeserializeImpl','std::'); transparent=('current::serialization::',); keep_root_facts=True
    def __init__(s,F,fn): s.F=F; s.fn=fn; s.name='dispatch'; s.a=[('p',i,p['n']) for i,p in enumerate(fn.params)]
    def init(s): return 0
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        if ev.k=='call' and sh(ev.q)=='DoDeserialize':
            if [un(a) for a in ev.args]!=s.a: eng.report(ev.fr,ev.line,'something else is deserialized',st,rule='dispatch')
            return min(st.rs+1,2)
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs!=1 and getattr(s,'fr0',None): eng.report(s.fr0,s.fn.line,'a value is deserialized %s'%('twice' if st.rs else 'not at all'),st,rule='dispatch')
class Reg(Rule):
    """a case of a variant is registered under its own type"""
    opaque=('current::','std::'); transparent=('current::serialization::',)
    def __init__(s,F,fn):
        s.F=F; s.fn=fn; s.name='register'; m=re.search(r'::Style\w+<(.*)>$',F.recfull(fn))
        if not m: raise lib.Broken('the type of '+F.recfull(fn))
        s.X=m.group(1); s.put=0
    def init(s): return (0,0)
    def on(s,eng,st,ev):
        if ev.fr.depth==0: s.fr0=ev.fr
        if ev.k!='call': return
        n=sh(ev.q); m=s.F.fns.get((ev.e or {}).get('f')); ta=(m.ta if m else None) or (ev.e or {}).get('ta') or ''
        def R(m): eng.report(ev.fr,ev.line,s.X[:60]+': '+m,st,rule='register')
        if n in('ReflectType','CurrentTypeName') and s.X not in ta: R('a case of a variant is registered under another type')
        if n=='make_unique':
            if s.X not in ta: R('a case of a variant is registered as one of another type')
            return (1,st.rs[1])
        if n in('operator[]','emplace','insert','insert_or_assign','try_emplace') and ev.recv is not None and path_root(un(ev.recv))==('p',0,s.fn.params[0]['n']): return (st.rs[0],1)
    def end(s,eng,st,out):
        if out[0]=='ret' and st.rs!=(1,1) and getattr(s,'fr0',None): eng.report(s.fr0,s.fn.line,s.X[:60]+': a case of a variant is not registered',st,rule='register')
def go(c,r,F,f,rule,what,twice=False):
    if twice: Engine(F,r).run(f)
    e=Engine(F,r); e.run(f); c.from_engine(e); c.obligation(rule,what)
def run(c):
    F=lib.facts('w_json.cc')
    kinds=set()
    def all_(q,n):
        k=F.find(q) if not q.startswith('$') else [f for f in F.fns.values() if f.q.endswith(q[1:])]
        if not k: raise lib.Broken(q)
        return k
    for f in all_(DI+'::DoDeserialize',1):
        if not f.params or 'JSONParser' not in F.tystr(f.params[0]['ty']): continue
        r=Parse(F,f); kinds.add(r.kind); go(c,r,F,f,'parse','%s (%s)'%(r.ty[:80],r.full.split('JSONParser<',1)[-1].split('>')[0].rsplit('::',1)[-1]))
    for k in('scalar','bool','string','typeid','vector','array','set','map','pair','tuple','struct','optional','variant'):
        if k not in kinds: raise lib.Broken('no deserializer of a '+k)
    for f in all_(J+'JSONParser::Inner',1): go(c,Back(F,f),F,f,'inner',F.tystr(f.params[1]['ty'])[:80])
    for f in all_(J+'JSONParser::JSONParser',1):
        if f.params and 'char' in F.tystr(f.params[0]['ty']): go(c,PCtor(F,f),F,f,'text',F.recfull(f)[:120])
    for q in('ParseJSON','TryParseJSON','PatchObjectWithJSON'):
        for f in all_(J+q,1):
            r=Entry(F,f); go(c,r,F,f,'entry',q+'(%s) %s'%(', '.join(F.tystr(p['ty'])[:30] for p in f.params),(f.ta or '')[-60:]))
            if not r.done and not c.viol: raise lib.Broken(q+' never returns')
    for f in all_('$DeserializeSingleField::operator()',1): go(c,Field(F,f),F,f,'field',F.tystr(f.params[1]['ty'])[:80])
    for f in all_('current::serialization::DeserializeTupleImpl::DoIt',1):
        if f.params[0]['n']: go(c,Tup(F,f),F,f,'tuple',F.recfull(f)[-80:])
    n=0
    for f in F.fns.values():
        if re.search(r'JSONVariantCase(Generic|Minimalistic|FSharp)::Deserialize$',f.q): n+=1; go(c,Case(F,f),F,f,'variant',F.recfull(f)[-120:])
    if n<9: raise lib.Broken('the cases of a variant')
    for f in all_('$::DoLoadVariant',1): go(c,Load(F,f),F,f,'variant',F.recfull(f)[:120],twice=True)
    for f in F.fns.values():
        if re.search(r'JSONVariantPerStyleRegisterer::Style(\w+)::Style\1$',f.q): go(c,Reg(F,f),F,f,'register',F.recfull(f)[-100:])
    for f in all_('current::serialization::Deserialize',1):
        if len(f.params)==2 and 'JSONParser' in F.tystr(f.params[0]['ty']): go(c,Disp(F,f),F,f,'dispatch',F.tystr(f.params[1]['ty'])[:80])
    c.floor('parse',200); c.floor('inner',100); c.floor('text',6); c.floor('entry',80); c.floor('field',100); c.floor('tuple',6); c.floor('variant',20); c.floor('register',9); c.floor('dispatch',100)
