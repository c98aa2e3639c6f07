"""Reusable pieces of rules."""
from engine import *
from lib import Broken
R=('R',)
THIS=('R',)
def fld(n,b=THIS): return ('f',b,n)

def enumvals(F,suffix):
    """enumerator name -> value for the enumerators whose qualified name contains `suffix`"""
    r={}
    for f in F.fns.values():
        for e in f.x.values():
            if e['k']=='enum' and suffix in e['q']: r[e['q'].rsplit('::',1)[-1]]=int(e['v'])
    return r

def path_fields(loc):
    """the field names of an access path, outermost object first; container accessors and derefs are skipped"""
    r=[]
    while isinstance(loc,tuple):
        if loc[0]=='f': r.append(loc[2]); loc=loc[1]
        elif loc[0]=='*': loc=loc[1]
        elif loc[0]=='c' and len(loc)>2: loc=loc[2]
        elif loc[0]=='&': loc=loc[1]
        else: break
    r.reverse()
    return r

def path_root(loc):
    while isinstance(loc,tuple):
        if loc[0] in('f','*','&'): loc=loc[1]
        elif loc[0]=='c' and len(loc)>2: loc=loc[2]
        else: break
    return loc

def mentions(t,x):
    if t==x: return True
    return isinstance(t,tuple) and any(mentions(c,x) for c in t if isinstance(c,tuple))

def mentions_kind(t,pred):
    if pred(t): return True
    return isinstance(t,tuple) and any(mentions_kind(c,pred) for c in t if isinstance(c,tuple))

def field_of(loc,names):
    """first field name (from the root object `this`) if it is in names"""
    p=path_fields(loc)
    return p[0] if p and p[0] in names and path_root(loc)==THIS else None

def thread_entries(eng,fn_ctor):
    pass

class AllOf:
    """follows one loop over a container: from its first element to its last one, with exactly one action per element, in order.
    state: None (not begun) | 'in' (an element is at hand) | 'did' (its action is done) | 'next' (advanced) | 'done'"""
    def __init__(s,is_cont,is_action):
        # is_cont(term) -> bool: the location of the container; is_action(ev) -> the term of the element acted on, or None
        s.is_cont=is_cont; s.is_action=is_action
    def cont(s,t): return mentions_kind(t,lambda x: isinstance(x,tuple) and x and x[0]=='c' and len(x)>2 and isinstance(x[1],str) and x[1].rsplit('::',1)[-1] in('begin','end','cbegin','cend','size','empty') and s.is_cont(x[2]))
    def step(s,eng,st,ev,x):
        """-> new state, error or None"""
        if ev.k=='branch':
            t=ev.val; pol=ev.pol
            while isinstance(t,tuple) and t and t[0]=='!': t=t[1]; pol=not pol
            op=t[1].rsplit('operator',1)[-1] if isinstance(t,tuple) and len(t)>3 and t[0] in('b','c') and isinstance(t[1],str) else None
            if op in('==','!=','<','>','<=','>=') and s.cont(t) and not any(isinstance(y,tuple) and y and y[0]=='lit' for y in t[2:4]):
                more=pol if op in('!=','<','>') else not pol
                if x=='in': return x,'an element is skipped'
                if x=='did' : return x,None if not more else 'the loop does not advance'
                if x in(None,'next'): return ('in' if more else 'done'),None
            return x,None
        if ev.k=='call':
            n=(ev.q or '').rsplit('::',1)[-1]
            el=s.is_action(ev)
            if el is not None:
                if x=='did': return x,'the action is done twice for one element'
                if x!='in': return x,'the action is done outside of the loop over the elements'
                return 'did',None
            if n in('for_each','transform','copy','move') and ev.q.startswith('std::') and len(ev.args or ())>=3 and s.cont(ev.args[0]) and s.cont(ev.args[1]): return 'done',None
            if n in('rbegin','crbegin','rend','crend') and ev.recv is not None and s.is_cont(ev.recv): return x,'the elements are taken in the reverse order'
            if n=='operator++' and x in('did','in') and isinstance(ev.recv if ev.recv is not None else ev.args and ev.args[0],tuple): 
                if x=='in': return x,'an element is skipped'
                return 'next',None
        if ev.k=='write' and x in('did','in') and isinstance(ev.val,tuple) and ev.val[:2]==('b','+') and ('lit',1) in ev.val: 
            if x=='in': return x,'an element is skipped'
            return 'next',None
        return x,None
