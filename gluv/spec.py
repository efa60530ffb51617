"""Specification helpers: symbolic matrices, obligation recording, contract proof harness, evidence, replay."""
import os, sys, json, time, random, math, traceback, cmath
from terms import *
import terms as T
import build, native
from exec import *
VERIF=build.VERIF

# ---------------------------------------------------------------- matrices of complex Polys
def M(name,n,m=None):
    m=m or n
    return [sym('%s%d%d'%(name,i,j),'cplx') for i in range(n) for j in range(m)]
_sucache={}
def su_rules(u,n):
    """install the defining relations of SU(n) on the atoms u (n>3: those of U(n)); n=2: u=[a,b], returns [a,b,-b*,a*]"""
    if n==2:
        a,b=u
        add_rule(aid(a),aid(a.conj()),ONE-b*b.conj())
        return [a,b,-b.conj(),a.conj()]
    if n==3:
        # cofactor relations u_ij u_kl - u_il u_kj = sign*conj(u_mn)
        for m_ in range(3):
            for n_ in range(3):
                i,k_=[x for x in range(3) if x!=m_]; j,l=[x for x in range(3) if x!=n_]
                sg=(-1)**(m_+n_)
                lead=(aid(u[3*i+j]),aid(u[3*k_+l]))
                rhs=u[3*i+l]*u[3*k_+j]+u[3*m_+n_].conj()*sg
                RULES=(lead,rhs)
                add_rule(lead[0],lead[1],Poly(dict(rhs.d)))
                cl=(ATOMS[lead[0]].conj,ATOMS[lead[1]].conj)
                add_rule(cl[0],cl[1],rhs.conj())
    for i in range(n):
        for j in range(n):
            # sum_k u_ik conj(u_jk) = delta ; lead k=0 
            rhs=num(1 if i==j else 0)
            for k2 in range(1,n): rhs=rhs-u[n*i+k2]*u[n*j+k2].conj()
            add_rule(aid(u[n*i]),ATOMS[aid(u[n*j])].conj,rhs)
    for i in range(n):
        for j in range(n):
            # columns: sum_k u_ki conj(u_kj)= delta ; lead k=0 (skip those led by row rule)
            rhs=num(1 if i==j else 0)
            for k2 in range(1,n): rhs=rhs-u[n*k2+i]*u[n*k2+j].conj()
            x,y=aid(u[i]),ATOMS[aid(u[j])].conj
            kk=(x,y) if x<=y else (y,x)
            if kk not in PAIR: add_rule(x,y,rhs)
    return u
def SU(name,n):
    """generic element of SU(n) as entries with the defining relations as rewrite rules"""
    k=(name,n)
    if k in _sucache: return _sucache[k]
    if n==2: u=su_rules([sym(name+'a','cplx'),sym(name+'b','cplx')],2)
    else: u=su_rules(M(name,n),n)
    u=[Poly(dict(x.d),any(y in T.SPECIAL for m in x.d for y in m)) for x in u]
    _sucache[k]=u
    return u
def HERM(name,n,traceless=False):
    h=[None]*(n*n)
    for i in range(n):
        for j in range(n):
            if i<j: h[i*n+j]=sym('%s%d%d'%(name,i,j),'cplx'); h[j*n+i]=h[i*n+j].conj()
    tr=ZERO
    for i in range(n):
        if traceless and i==n-1: h[i*n+i]=-tr
        else: h[i*n+i]=sym('%s%d%d'%(name,i,i)); tr=tr+h[i*n+i]
    return h
def ident(n): return [num(1 if i==j else 0) for i in range(n) for j in range(n)]
def dag(a):
    n=isq(len(a)); return [a[j*n+i].conj() for i in range(n) for j in range(n)]
def tran(a):
    n=isq(len(a)); return [a[j*n+i] for i in range(n) for j in range(n)]
def isq(x):
    n=int(round(math.sqrt(x))); assert n*n==x; return n
def mm(a,b):
    n=isq(len(a)); out=[]
    for i in range(n):
        for j in range(n):
            r=ZERO
            for k in range(n): r=r+a[i*n+k]*b[k*n+j]
            out.append(r)
    return out
def mms(*ms):
    r=ms[0]
    for m in ms[1:]: r=mm(r,m)
    return r
def madd(*ms):
    r=list(ms[0])
    for m in ms[1:]: r=[x+y for x,y in zip(r,m)]
    return r
def msub(a,b): return [x-y for x,y in zip(a,b)]
def mscale(a,c): return [x*c for x in a]
def mtr(a):
    n=isq(len(a)); r=ZERO
    for i in range(n): r=r+a[i*n+i]
    return r
def mdet(a):
    n=isq(len(a))
    if n==1: return a[0]
    if n==2: return a[0]*a[3]-a[1]*a[2]
    r=ZERO
    for j in range(n):
        sub=[a[i*n+k] for i in range(1,n) for k in range(n) if k!=j]
        t=a[j]*mdet(sub)
        r=r+t if j%2==0 else r-t
    return r

# ---------------------------------------------------------------- objects
def cobj(name,vals,tag=None,ext=True):
    """array of double complex with given initial entries (None: arbitrary garbage)"""
    o=Obj(name,None,num(16*len(vals)),ext=ext)
    g=[v if v is not None else sym('%s_garbage%d'%(name,i),'cplx') for i,v in enumerate(vals)]
    def init(ex,st,idx,inner,ty,size):
        k=inner
        if idx:
            if not idx[0].is_const(): raise Unsupported('symbolic index into '+name)
            k=idx[0].const()*st.ostate(o).stride+inner
        z=g[k//16]
        return T.re(z) if k%16==0 else T.im(z)
    o.init=init
    return o
def robj(name,vals,ext=True):
    o=Obj(name,None,num(8*len(vals)),ext=ext)
    g=[v if v is not None else sym('%s_garbage%d'%(name,i)) for i,v in enumerate(vals)]
    def init(ex,st,idx,inner,ty,size):
        k=inner
        if idx:
            if not idx[0].is_const(): raise Unsupported('symbolic index into '+name)
            k=idx[0].const()*st.ostate(o).stride+inner
        return g[k//8]
    o.init=init
    return o
DBL=('double',)
def getc(ex,st,p,k=0):
    """complex entry k of the array at pointer p"""
    if isinstance(p,Obj): p=Ptr(p)
    a=ex.asfp(ex.read(st,p.plus(16*k),DBL,None)); b=ex.asfp(ex.read(st,p.plus(16*k+8),DBL,None))
    return a+b.scale(1j)
def getm(ex,st,p,n): return [getc(ex,st,p,k) for k in range(n)]
def setc(ex,st,p,k,z):
    if isinstance(p,Obj): p=Ptr(p)
    ex.write(st,p.plus(16*k),T.re(z),DBL,None); ex.write(st,p.plus(16*k+8),T.im(z),DBL,None)
def setm(ex,st,p,ms):
    for k,z in enumerate(ms): setc(ex,st,p,k,z)
def getr(ex,st,p,k=0):
    if isinstance(p,Obj): p=Ptr(p)
    return ex.asfp(ex.read(st,p.plus(8*k),DBL,None))
def overlap(p,q): return p.obj is q.obj and all(same(a,b) for a,b in zip(p.idx,q.idx)) and same(p.off,q.off)

def pc_subst(pc):
    """substitutions implied by equalities on the path"""
    out=[]
    def go(c):
        if c is True or c is False: return
        if c[0]=='and': go(c[1]); go(c[2])
        if c[0]=='eq':
            p=c[1]
            for m,co in p.d.items():
                if len(m)==1 and m[0] not in SPECIAL and all(m[0] not in m2 for m2 in p.d if m2!=m):
                    x=m[0]
                    if any(x in support(y) for m2 in p.d if m2!=m for y in m2): continue
                    rest=Poly({k:v for k,v in p.d.items() if k!=m})
                    out.append((Poly({(x,):1},False),rest.scale(-1.0/co if co not in(1,-1) else -co))); break
    for c in pc: go(c)
    return out

# ---------------------------------------------------------------- check driver
PARKEYS=('obs','fail','assumptions','trusted','funcs','canaries','canfail','smt','smt_t','inlined','bounded','notes','backends')
class Check:
    def __init__(s,pid,argv=None):
        s.pid=pid; s.t0=time.time()
        s.tier=os.environ.get('VERIF_TIER','quick'); s.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        if argv and '--thorough' in argv: s.tier='thorough'
        s.rng=random.Random(s.seed)
        s.obs=[]; s.fail=[]; s.assumptions=[]; s.trusted=set(); s.funcs=set(); s.canaries=0; s.canfail=[]
        s.smt=0; s.smt_t=0.0; s.inlined=set(); s.bounded=[]; s.notes=[]; s.samples=[]
        s.known=load_known(pid); s.knownhit=[]
        s.backends={}
    def ob(s,name,ok,func=None,detail='',replay=None,backend='normal-form',loc=None,key=None):
        """record an obligation.  ok True/False/None(unknown)"""
        s.obs.append((name,bool(ok)))
        if func: s.funcs.add(func)
        s.backends[backend]=s.backends.get(backend,0)+1
        if not ok: s.fail.append(dict(name=name,func=func,detail=detail,replay=replay,loc=loc,key=key))
        return ok
    def canary(s,name,rejected):
        s.canaries+=1
        if not rejected: s.canfail.append(name)
    def use(s,ex):
        s.smt+=ex.stats.smt; s.smt_t+=ex.stats.smt_time; s.inlined|=ex.stats.inlined; s.trusted|=ex.stats.trusted
        ex.stats.smt=0; ex.stats.smt_time=0
    def guard(s,name,fn,func=None,replay=None,cfg=None):
        """run one group of obligations; verifier failures become failed obligations"""
        try: return fn()
        except (Unsupported,Violation,build.FrontEndError,NeedFork,RuntimeError,KeyError,AttributeError,TypeError,ZeroDivisionError,IndexError,ValueError,AssertionError) as e:
            kind='undischarged' if not isinstance(e,Violation) else 'violated'
            if os.environ.get('GLUV_DEBUG'): traceback.print_exc()
            s.ob(name,False,func,detail='%s: %s: %s at %s'%(kind,type(e).__name__,e,getattr(e,'where','?')),replay=replay)
            return None
    def par(s,items,fn,workers=None,timeout=780):
        """fn(check,item) for every item, in forked workers; obligations are merged in order"""
        import pickle, tempfile
        workers=workers or min(8,os.cpu_count() or 2)
        items=list(items)
        build.hdrhash()
        if os.environ.get('GLUV_SERIAL'):
            for it in items: fn(s,it)
            return
        sys.stdout.flush(); sys.stderr.flush()
        todo=list(enumerate(items)); live={}; res={}
        def child(it,tf):
            c=Check(s.pid); c.tier=s.tier; c.seed=s.seed
            try: fn(c,it)
            except Exception as e:
                traceback.print_exc(); c.ob('verifier[%s]'%(it,),False,None,'verifier error: %r'%(e,))
            seen={}; tr=time.time()
            for f in c.fail:
                r=f.pop('replay'); f['ce']=None
                if r is not None and time.time()-tr<200 and not match_known(s.known,f):
                    try:
                        if id(r) not in seen: seen[id(r)]=(r,r())
                        f['ce']=seen[id(r)][1]
                    except Exception as e: f['detail']+=' [replay error: %r]'%e
            d={k:getattr(c,k) for k in PARKEYS}
            with open(tf,'wb') as fh: pickle.dump(d,fh)
        t0=time.time()
        while todo or live:
            while todo and len(live)<workers:
                i,it=todo.pop(0); tf=tempfile.mktemp(prefix='gluvp')
                pid=os.fork()
                if pid==0:
                    code=1
                    try:
                        os.setpgid(0,0); child(it,tf); code=0
                    except BaseException: traceback.print_exc()
                    finally:
                        sys.stdout.flush(); sys.stderr.flush(); os._exit(code)
                live[pid]=(i,tf)
            done=[]
            for pid,(i,tf) in live.items():
                p,stt=os.waitpid(pid,os.WNOHANG)
                if p: done.append(pid)
                elif time.time()-t0>timeout:
                    try: os.killpg(pid,9)
                    except OSError: os.kill(pid,9)
                    os.waitpid(pid,0); done.append(pid)
            for pid in done:
                i,tf=live.pop(pid)
                try:
                    with open(tf,'rb') as fh: res[i]=pickle.load(fh)
                except Exception: res[i]=None
                if os.path.exists(tf): os.unlink(tf)
            if not done: time.sleep(0.01)
        for i,it in enumerate(items):
            d=res.get(i)
            if d is None: s.ob('worker[%s]'%(it,),False,None,'the verifier did not finish on this group of obligations'); continue
            for f in d['fail']:
                ce=f.pop('ce'); f['replay']=(lambda ce=ce: ce)
            for k in PARKEYS:
                a=getattr(s,k); b=d[k]
                if isinstance(a,list):
                    for x in b:
                        if k not in('assumptions','notes') or x not in a: a.append(x)
                elif isinstance(a,set): a|=b
                elif isinstance(a,dict):
                    for x,y in b.items(): a[x]=a.get(x,0)+y
                else: setattr(s,k,a+b)
    def finish(s):
        """evidence, VIOLATION lines, exit code"""
        rdir=os.path.join(VERIF,'replay'); os.makedirs(rdir,exist_ok=True); os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        viol=0; out=[]
        if s.canfail:
            s.fail.append(dict(name='vacuity-guard',func=None,detail='perturbed specification accepted: %s'%s.canfail,replay=None,loc=None,key=None))
        if not s.obs:
            s.fail.append(dict(name='no-obligations',func=None,detail='no obligation was generated',replay=None,loc=None,key=None))
        nrep=0; confirmed=[]; unconfirmed=[]
        for n,f in enumerate(s.fail):
            k=match_known(s.known,f)
            if k: s.knownhit.append((k,f)); continue
            ce=None
            if f['replay'] is not None and nrep<400:
                nrep+=1
                try: ce=f['replay']()
                except Exception as e: 
                    if os.environ.get('GLUV_DEBUG'): traceback.print_exc()
                    f['detail']+=' [replay error: %r]'%e
            (confirmed if ce else unconfirmed).append((f,ce))
        for i,(f,ce) in enumerate(confirmed[:3]+(unconfirmed[:1] if not confirmed else [])):
            path=os.path.join('replay','%s_%d.json'%(s.pid,i))
            json.dump(dict(property=s.pid,obligation=f['name'],function=f['func'],verifier_output=f['detail'][:4000],counterexample=ce),
                      open(os.path.join(VERIF,path),'w'),indent=1,default=str)
            print('  failed obligation: %s  %s'%(f['name'],f['detail'][:300].replace('\n',' ')))
            print('VIOLATION property=%s replay=%s%s'%(s.pid,path,'' if ce else ' no-failing-input-found'))
        viol=len(confirmed)+len(unconfirmed)
        seen=set()
        for k,f in s.knownhit:
            if k['what'] in seen: continue
            seen.add(k['what']); print('KNOWN-FINDING: property=%s %s'%(s.pid,k['what']))
        nob=len(s.obs); dis=sum(1 for o in s.obs if o[1])
        ev=dict(property=s.pid,tier=s.tier,seed=s.seed,level='proof',
            coverage=dict(obligations=nob,discharged=dis,
               checker_cmd='python3-vt check.py %s'%s.pid,
               backends={k:v for k,v in s.backends.items()},smt_queries=s.smt,solver_time_s=round(s.smt_t,2),
               functions_under_contract=sorted(s.funcs),n_functions=len(s.funcs),
               executed_bodies=sorted(s.inlined),canaries_rejected=s.canaries-len(s.canfail),
               bounded_standins=s.bounded,
               samples=[o[0] for o in s.obs[:3]+s.obs[-3:]],
               known_findings=[k['what'] for k,_ in s.knownhit],
               trusted_base=['clang-18 -O0 + opt sroa/early-cse/simplifycfg as front end','gluv executor and polynomial normal form (/verif/gluv)','z3']+['C library contract: '+x for x in sorted(s.trusted)]),
            assumptions=['machine floating point treated as real arithmetic; literals compared to 1e-11','machine integers treated as mathematical integers where not constant']+s.assumptions,
            wall_s=round(time.time()-s.t0,2),violations=viol)
        json.dump(ev,open(os.path.join(VERIF,'evidence',s.pid+'.json'),'w'),indent=1)
        print('%s: %d obligations, %d discharged, %d canaries rejected, %d violations, %.1fs'%(s.pid,nob,dis,s.canaries-len(s.canfail),viol,time.time()-s.t0))
        sys.stdout.flush()
        return 1 if viol else 0
def load_known(pid):
    p=os.path.join(VERIF,'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings',[]) if k['property']==pid]
def match_known(known,f):
    for k in known:
        if f.get('key') is not None and k['key']==f['key']: return k
    return None

# ---------------------------------------------------------------- equality of complex results on a path
def eq_on_path(ex,st,got,want):
    sb=pc_subst(st.pc)
    r=equal(got,want,sb)
    return r
