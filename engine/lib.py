"""Shared infrastructure: tool building, fact extraction, reports, evidence, known findings."""
import os, sys, json, hashlib, subprocess, time, glob
from concurrent.futures import ThreadPoolExecutor
HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(HERE)
REPO=os.environ.get('VERIF_REPO','/repo').rstrip('/')
CACHE=os.environ.get('VERIF_CACHE',os.path.join(VERIF,'.cache'))
CLANG_INC='/usr/lib/llvm-18/lib/clang/18/include'
FLAGS=['-std=c++17','-DCURRENT_CI','-w','-Wno-everything','-ferror-limit=5','-fparse-all-comments']
from engine import Broken, short
import engine

def sh(cmd,**kw): return subprocess.run(cmd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**kw)

def filehash(paths):
    h=hashlib.sha256()
    for p in paths:
        h.update(p.encode()); h.update(b'\0')
        with open(p,'rb') as f: h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]

def dumper():
    src=os.path.join(HERE,'dump_facts.cc')
    out=os.path.join(CACHE,'dump_facts-'+filehash([src]))
    if os.path.exists(out): return out
    os.makedirs(CACHE,exist_ok=True)
    cxx=subprocess.check_output(['llvm-config-18','--cxxflags'],text=True).split()
    tmp=out+'.tmp%d'%os.getpid()
    r=sh(['g++','-O1','-w','-fno-rtti']+cxx+[src,'-o',tmp,'-L/usr/lib/llvm-18/lib','/usr/lib/llvm-18/lib/libclang-cpp.so.18.1','-lLLVM-18'])
    if r.returncode: raise Broken('cannot build dump_facts:\n'+r.stdout[-3000:])
    os.rename(tmp,out)
    return out

_rh=None
def repo_hash():
    global _rh
    if _rh is None:
        fs=[]
        for d,ds,ns in os.walk(REPO):
            ds[:]=[x for x in ds if x not in('.git','_build','.current','.noshit','golden','node_modules')]
            for n in ns:
                if n.endswith(('.h','.hpp','.inl')): fs.append(os.path.join(d,n))
        _rh=filehash(sorted(fs))
    return _rh

def clang_args(extra=()):
    return FLAGS+list(extra)+['-I'+REPO,'-I'+os.path.join(VERIF,'witness'),'-I'+CLANG_INC]

def dump(src,extra=(),may_fail=False):
    """facts of the witness translation unit `src` (absolute path)"""
    d=dumper()
    os.makedirs(CACHE,exist_ok=True)
    wit=sorted(glob.glob(os.path.join(VERIF,'witness','*.h')))
    key=hashlib.sha256((filehash([src]+wit)+repo_hash()+os.path.basename(d)+REPO+' '.join(extra)).encode()).hexdigest()[:24]
    out=os.path.join(CACHE,'%s-%s.json'%(os.path.basename(src),key))
    if not os.path.exists(out):
        tmp=out+'.tmp%d'%os.getpid()
        r=sh([d,tmp,REPO+'/:'+os.path.join(VERIF,'witness')+'/','/3rdparty/',src,'--']+clang_args(extra))
        if r.returncode or not os.path.exists(tmp) or os.path.getsize(tmp)<10:
            if os.path.exists(tmp): os.unlink(tmp)
            if may_fail: return None,r.stdout
            raise Broken('cannot analyse %s:\n%s'%(src,r.stdout[-4000:]))
        os.rename(tmp,out)
        # keep the cache small: drop other versions of this unit
        for o in glob.glob(os.path.join(CACHE,os.path.basename(src)+'-*.json')):
            if o!=out:
                try: os.unlink(o)
                except OSError: pass
    return (out,None) if may_fail else out

_facts={}
def facts(name,extra=()):
    from facts import Facts
    p=name if os.path.isabs(name) else os.path.join(VERIF,'witness',name)
    k=(p,tuple(extra))
    if k not in _facts: _facts[k]=Facts(dump(p,extra))
    return _facts[k]

def prefetch(names):
    dumper(); repo_hash()
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda n: dump(os.path.join(VERIF,'witness',n)),names))

class Check:
    """collects obligations (rule instances) and violations of one property"""
    def __init__(s,pid,tier):
        s.pid=pid; s.tier=tier; s.t0=time.time(); s.viol=[]; s.rules=[]; s.fns=set(); s.units=set(); s.sites=0; s.notes=[]
        s.counts={}; s.oblig=0; s.assume=[]; s.samples=[]
    def obligation(s,rule,inst,ok=True,n=1):
        s.oblig+=n
        s.counts[rule]=s.counts.get(rule,0)+n
        if len(s.samples)<60: s.samples.append('%s: %s'%(rule,inst))
    def violation(s,rule,file,line,msg,function='',stack=(),path=(),held=(),ident=None):
        v={'rule':rule,'file':short(file.replace(REPO,'/repo')) if file else '?','line':line,'message':msg,'function':function,'stack':list(stack),'path':list(path),'held':list(held)}
        v['ident']=ident or '%s|%s|%s|%s'%(rule,v['file'],function,msg)
        if any(x['ident']==v['ident'] and x['line']==line for x in s.viol): return
        s.viol.append(v)
    def from_engine(s,eng,rulename=None):
        for r in eng.reports:
            s.violation(rulename or r['rule'],r['file'],r['line'],r['message'],r['function'],r['stack'],r['path'],r['held'])
        for f in eng.visited_fns: s.fns.add(f)
        s.sites+=len(eng.sites)
    def floor(s,rule,n,what=''):
        c=s.counts.get(rule,0)
        if c<n: raise Broken('rule %s has %d instances, expected at least %d %s (anchors vanished?)'%(rule,c,n,what))
    def need(s,x,what):
        if not x: raise Broken('anchor not found: '+what)
        return x

def known():
    p=os.path.join(VERIF,'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings':[],'fixed':[]}

def finish(c):
    kf=[k for k in known()['findings'] if k['property']==c.pid]
    unl=[]; listed=[]
    for v in c.viol:
        m=[k for k in kf if k['rule']==v['rule'] and k['file']==v['file'] and k['function']==v['function'] and k.get('message_contains','') in v['message']]
        if m: listed.append((m[0],v))
        else: unl.append(v)
    ev={'property':c.pid,'tier':c.tier,'seed':int(os.environ.get('VERIF_SEED','1')),'level':c.level,
        'coverage':{'explanation':c.explanation,
            'obligations':c.oblig,'discharged':c.oblig-len({v['ident'] for v in c.viol}) if c.oblig>=len(c.viol) else 0,
            'rule_instances':c.counts,'functions_analysed':len(c.fns),'call_sites_seen':c.sites,'units':sorted(c.units),
            'samples':c.samples[:40],'notes':c.notes,
            'known_findings_seen':[k['what'] for k,_ in listed],
            'checker_cmd':'/verif/check %s %s'%(c.pid,c.tier),
            'trusted_base':['clang 18 front end and CFG builder','/verif/engine','the idiom tables in /verif/rules']},
        'assumptions':c.assume,'wall_s':round(time.time()-c.t0,2),'violations':len(unl)}
    if c.tier=='thorough': pass
    os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
    with open(os.path.join(VERIF,'evidence',c.pid+'.json'),'w') as f: json.dump(ev,f,indent=1)
    print('property %s: %d obligations, %d rule kinds, %d functions analysed, %d call sites, %.1fs'%(c.pid,c.oblig,len(c.counts),len(c.fns),c.sites,time.time()-c.t0))
    for r,n in sorted(c.counts.items()): print('  rule %-40s %d instances'%(r,n))
    seen=set()
    for k,v in listed:
        if k['what'] in seen: continue
        seen.add(k['what'])
        print('KNOWN-FINDING: property=%s %s'%(c.pid,k['what']))
    if unl:
        rp=os.path.join(VERIF,'evidence',c.pid+'.violations.json')
        with open(rp,'w') as f: json.dump(unl,f,indent=1)
        for v in unl[:20]:
            print('  %s:%s: [%s] in %s: %s'%(v['file'],v['line'],v['rule'],v['function'],v['message']))
            for x in v['path'][-12:]: print('      path: '+x)
            for x in v['stack'][:6]: print('      in:   '+x)
        print('VIOLATION property=%s replay=%s'%(c.pid,rp))
        return 1
    rp=os.path.join(VERIF,'evidence',c.pid+'.violations.json')
    if os.path.exists(rp): os.unlink(rp)
    return 0
