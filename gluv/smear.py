"""Contracts shared by the smearing and flow properties."""
from obs import *
from F01 import logm,short,hproj,log_contracts,herm_log,hp
STYPE=['SM_NOSMEARING','SM_APE','SM_STOUT','SM_LOG','SM_HYP','SM_HEX','SM_HYL']
def stypes():
    """values of the smearing enumeration, read from the header"""
    t=open(build.REPO+'/src/Headers/GLU_enum.h').read()
    t=_re_.sub(r'/\*.*?\*/','',t,flags=_re_.S); t=_re_.sub(r'//[^\n]*','',t)
    b=_re_.search(r'\{([^{}]*)\}\s*smearing_types',t).group(1)
    return {x.strip():i for i,x in enumerate(b.split(','))}
import re as _re_
_exp={}
def expf(n):
    if n not in _exp: _exp[n]=su_field('expi%d'%n,n)
    return _exp[n]
def expi(h,n): return expf(n)(*short(h,n))
def exp_contracts(ex,n):
    """exp(iQ) as an SU(N)-valued function of the independent entries of the hermitian traceless Q"""
    H=len(short([ZERO]*(n*n),n))
    def full(ex_,st,a,I):
        q=getm(ex_,st,a[1],n*n)
        for i in range(n):
            for j in range(i+1):
                if not same(q[i*n+j],q[j*n+i].conj()): raise Unsupported('exponentiate called with a matrix that is not hermitian')
        if not same(mtr(q),ZERO): raise Unsupported('exponentiate called with a matrix that is not traceless')
        setm(ex_,st,a[0],expf(n)(*short(q,n)))
        return [(st,None)]
    def shrt(ex_,st,a,I):
        q=getm(ex_,st,a[1],H)
        setm(ex_,st,a[0],expf(n)(*q))
        return [(st,None)]
    ex.contracts.update(exponentiate=full,exponentiate_short=shrt)
_nape={}
def napef(n):
    if n not in _nape: _nape[n]=su_field('nape%d'%n,n)
    return _nape[n]
def reunit_contract(ex,n):
    def f(ex_,st,a,I):
        setm(ex_,st,a[0],napef(n)(*getm(ex_,st,a[0],n*n))); return [(st,None)]
    ex.contracts['nape_reunit']=f
def staple(U,i,mu,nus,nbr):
    """sum over nu of the upper and the lower staple of the link U_mu(i)"""
    r=None
    for nu in nus:
        if nu==mu: continue
        for s in staple2(U,i,mu,nu,nbr): r=s if r is None else madd(r,s)
    return r
def staple2(U,i,mu,nu,nbr):
    b=nbr(nu,i,-1)
    return [mms(U(i,nu),U(nbr(nu,i),mu),dag(U(nbr(mu,i),nu))), mms(dag(U(b,nu)),U(b,mu),U(nbr(mu,b),nu))]
def log_staple(U,i,mu,nus,nbr,n):
    r=[ZERO]*(n*n)
    for nu in nus:
        if nu==mu: continue
        for s in staple2(U,i,mu,nu,nbr): r=madd(r,logm(mm(s,dag(U(i,mu))),n))
    return r
# ---- numpy oracle
def np_expi(q):
    e,v=np.linalg.eigh(q); return np.einsum('...ij,...j,...kj->...ik',v,np.exp(1j*e),v.conj())
def np_nape(a):
    """unitary part of the polar decomposition divided by the n-th root of its determinant (principal branch)"""
    u,_,vh=np.linalg.svd(a); w=u@vh; d=np.linalg.det(w); n=a.shape[-1]
    return w/(d**(1.0/n))[...,None,None]

# ---- whole-lattice sweeps
_pf={}
def projf(nm,n):
    return plain_su('proj_%s%d'%(nm,n),n)
SUF=set(); SUREG=set()
def plain_su(nm,n):
    """an SU(N)-valued function whose entries are left unrelated: products of such matrices need no rewriting"""
    SUF.add(nm)
    if n==2:
        def q(*a):
            x,y=(app('%s_%d'%(nm,k),tuple(P(x) for x in a),'cplx') for k in range(2)); return [x,y,-y.conj(),x.conj()]
        return q
    return lambda *a: [app('%s_%d'%(nm,k),tuple(P(x) for x in a),'cplx') for k in range(n*n)]
def is_su(m):
    if tuple(x.key() for x in m) in SUREG: return True
    a0=app_single(m[0])
    if a0 is None or a0.kind!='app' or not a0.name.endswith('_0') or a0.name[:-2] not in SUF: return False
    if len(m)==4:
        if not same(m[2],-m[1].conj()) or not same(m[3],m[0].conj()): return False
        m=m[:2]
    for k,x in enumerate(m):
        a=app_single(x)
        if a is None or a.name!='%s_%d'%(a0.name[:-2],k) or len(a.args)!=len(a0.args) or not all(same(p,q) for p,q in zip(a.args,a0.args)): return False
    return True
def mult_contracts(ex,n):
    """matrix products by contract; the routines for SU(N) matrices require SU(N) arguments"""
    def mk(f,su):
        def g(ex_,st,a,I):
            x,y=getm(ex_,st,a[1],n*n),getm(ex_,st,a[2],n*n); b=is_su(x) and is_su(y)
            if su and not b: raise Unsupported('product routine for SU(N) matrices called with a matrix not known to be SU(N)')
            r=f(x,y)
            if b: SUREG.add(tuple(z.key() for z in r))
            setm(ex_,st,a[0],r); return [(st,None)]
        return g
    for nm,f in (('multab',mm),('multabdag',lambda x,y: mm(dag(x),y)),('multab_dag',lambda x,y: mm(x,dag(y))),('multab_dagdag',lambda x,y: mm(dag(x),dag(y)))):
        ex.contracts[nm]=mk(f,False); ex.contracts[nm+'_suNC']=mk(f,True)
def proj_contracts(ex,n):
    """the projections as SU(N)-valued functions of link, staple and the two weights (what they compute is a separate property)"""
    def mk(nm):
        def f(ex_,st,a,I):
            l=getm(ex_,st,a[2],n*n)
            if not is_su(l): raise Unsupported('projection called with a link not known to be SU(N)')
            S=getm(ex_,st,a[1],n*n)
            setm(ex_,st,a[0],projf(nm,n)(*(l+S+[ex_.asfp(a[3]),ex_.asfp(a[4])]))); return [(st,None)]
        return f
    for nm in ('APE','STOUT','LOG'): ex.contracts['project_'+nm]=mk(nm)
def alloc_contracts(ex,w,fail=False):
    """allocation of temporary fields: a new field of the requested size with undefined contents (or failure), released exactly as allocated"""
    def al(ex_,st,a,I):
        cnt,dirs,ln=(ex_.asint(x) for x in a)
        p=w.slat('temp@%s'%I.line,cnt,int(ln.const())); p.obj.tag['dirs']=dirs
        st.flags=dict(st.flags); st.flags['live']=st.flags.get('live',())+(p.obj.id,)
        r=[(st,p)]
        if fail:
            s2=st.clone(); s2.flags=dict(s2.flags); s2.flags['live']=s2.flags['live'][:-1]; s2.flags['allocfail']=True; r.append((s2,_X.NULL))
        return r
    def fr(ex_,st,a,I):
        p=a[0]
        if p.obj is _X.NULLOBJ: return [(st,None)]
        if p.obj.id not in st.flags.get('live',()): raise Violation('free of a field that is not allocated')
        if not same(p.obj.tag['count'],ex_.asint(a[1])) or not same(p.obj.tag['dirs'],ex_.asint(a[2])): raise Violation('field released with other dimensions than allocated: %s x %s'%(show(a[1]),show(a[2])))
        st.flags=dict(st.flags); st.flags['live']=tuple(x for x in st.flags['live'] if x!=p.obj.id)
        return [(st,None)]
    ex.contracts.update(allocate_s_site=al,free_s_site=fr)
    def obs(ex_,st,a,I): return [(st,None)]
    ex.contracts['print_smearing_obs']=obs
import exec as _X
from exec import app_single
def forks(ex,st,f,limit=200):
    """all results of f over the case distinctions it needs: list of (state, value)"""
    out=[]; todo=[st]
    while todo:
        s=todo.pop()
        try: out.append((s,f(s)))
        except NeedFork as e:
            for c in (e.cond,c_not(e.cond)):
                t=s.clone(); t.pc=s.pc+(c,)
                if not ex.infeasible(t): todo.append(t)
            if len(todo)+len(out)>limit: raise Unsupported('too many cases')
    return out
def phis_in(ex,fr,h,env):
    out=[]
    for I in fr.f.blocks[h].instrs:
        if I.op!='phi': break
        for v,b in I.args:
            if b==ex.cut_prev: out.append((I.res,I.ty,ex.val(v,I.ty,env,fr)))
    return out
def slice_subst(ex,st,t,T_):
    """equations between the slice number and the number of slices that the path condition decides"""
    m={}; a=lambda p: app_single(p).id
    for c in (1,2,3):
        if ex.prove(st,c_eq(T_-c)): m[a(T_)]=num(c); break
    for v in (ZERO,ONE,T_-1,T_-2,T_-3):
        if ex.prove(st,c_eq(t-v)): m[a(t)]=substm(v,m); break
    return m
DBG=[]
def field_equal(ck,ex,w,nm,fname,st,lat,want,rep,dirs=None,canary=True,nent=None):
    """the field equals want(i,mu,state) at every site, link by link"""
    n=w.n; ne=nent or n*n; t,b=sym('t','int'),sym('b','int'); T_=w.L[-1]
    for lab,cond in (('first',(c_eq(t),)),('inner',(c_lt(-t),c_lt(t+1-T_))),('last',(c_lt(-t),c_eq(t+1-T_)))):
        s0=st.clone(); s0.pc=st.pc+tuple(c for c in cond+(c_le(-t),c_lt(t-T_),c_le(-b),c_lt(b-w.Lcu)))
        if ex.infeasible(s0): continue
        for mu in range(w.nd):
            x=w.Lcu*t+b
            def get(s): return getm(ex,s,Ptr(lat.obj.tag['data'],(x,num(mu))),ne),want(x,mu,s)
            for q,(s1,(got,exp)) in enumerate(forks(ex,s0,get)):
                ok=True; det=''; sb=slice_subst(ex,s1,t,T_)
                for k in range(ne):
                    if same(got[k],exp[k]): continue
                    g2,e2=(w.renorm(s1,z,sb) for z in (got[k],exp[k]))
                    if not same(g2,e2) and equal(g2,e2) is not True:
                        if DBG: DBG.append((ex,w,s1,got[k],exp[k],g2,e2,sb))
                        ok=False; det='link %d element %d: got %s expected %s'%(mu,k,show(g2)[:400],show(e2)[:400]); break
                ck.ob('%s/%s-slice/link%d'%(nm,lab,mu)+('' if q==0 else '/case%d'%q),ok,fname,det,replay=rep,backend='polynomial-identity')
                if canary: ck.canary(nm,not same(w.renorm(s1,got[0]),w.renorm(s1,exp[0]+sym('canary')))); canary=False
def sweep_obs(ck,ex,w,fname,args,lat,n_iter,want,rep,tag='',frame=(),cutfn=None):
    """fname applies n_iter times the map want to the field and returns success; the outermost loop is cut with the
    invariant 'after k passes the field is an SU(N) field, pass k+1 maps it by want'"""
    nm='%s[%s]%s'%(fname,ex.cfg,tag)
    dat=lat.obj.tag['data']
    def written(st): return dat.id in st.mem and bool(st.mem[dat.id].groups)
    seen=[0]
    def cut(ex_,st,fr,h,env):
        k0=st.flags.get('sweep')
        ph=phis_in(ex,fr,h,env)
        if k0 is None:
            if written(st): ck.ob(nm+'/entry',False,fname,'field modified before the first pass',replay=rep)
            k=fresh('pass','int'); over={}
            for r,ty,v in ph:
                if ty[0]=='i' and ty[1]>1 and isinstance(v,Poly): over[r]=v+k
            st.flags=dict(st.flags); st.flags['sweep']=(k,h,tuple((r,over.get(r)) for r,ty,v in ph))
            st.pc=st.pc+(c_le(-k),c_le(k-n_iter))
            return over
        if k0[1]!=h: return None
        k=k0[0]
        seen[0]+=1
        field_equal(ck,ex,w,'%s/pass%s'%(nm,'' if seen[0]==1 else seen[0]),fname,st,lat,want,rep)
        d=dict(k0[2])
        okc=all(not(ty[0]=='i' and ty[1]>1) or same(v,d[r]+1) for r,ty,v in ph)
        ck.ob('%s/pass-count%s'%(nm,'' if seen[0]==1 else seen[0]),okc and ex.prove(st,c_le(k+1-n_iter)),fname,'' if okc else 'pass counter does not advance by one',replay=rep)
        return False
    def go():
        f=ex.fn(fname)
        if f is None: raise Unsupported('function %s not found'%fname)
        st=State(); st.pc=(c_le(-n_iter),)
        ex.cuts={fname:cut}
        try: outs=ex.call(f,args,st)
        finally: ex.cuts={}
        if not outs: raise Unsupported('no path returns')
        nret=0
        for i,(s2,rv) in enumerate(outs):
            k0=s2.flags.get('sweep')
            if k0 is not None:
                ok=ex.prove(s2,c_eq(k0[0]-n_iter)); ck.ob('%s/exit%d/passes'%(nm,i),ok,fname,'' if ok else 'the iteration can stop before the requested number of passes',replay=rep)
            elif not s2.flags.get('allocfail'):
                ok=ex.prove(s2,c_eq(n_iter)); ck.ob('%s/exit%d/passes'%(nm,i),ok,fname,'' if ok else 'returns without smearing although iterations were requested',replay=rep)
            ok=not written(s2); ck.ob('%s/exit%d/field'%(nm,i),ok,fname,'' if ok else 'field modified outside the passes',replay=rep)
            if isinstance(rv,Poly):
                bad=s2.flags.get('allocfail')
                ok=same(rv,num(4294967295)) or same(rv,num(-1)) if bad else same(rv,ZERO)
                ck.ob('%s/exit%d/status'%(nm,i),ok,fname,'' if ok else 'returned %s'%show(rv),replay=rep)
            ok=not s2.flags.get('live'); ck.ob('%s/exit%d/memory'%(nm,i),ok,fname,'' if ok else 'temporary fields are not released',replay=rep)
            nret+=1
        if not seen[0] : raise Unsupported('no smearing pass recognised')
    ck.guard(nm,go,fname,replay=rep); ck.use(ex)
def stapf(ty,dirs,U,i,mu,nbr,n):
    """the staple sum of the link U_mu(i) as a function of the links it is made of (what it computes is a separate property)"""
    a=list(U(i,mu)) if ty=='LOG' else []
    for nu in range(dirs):
        if nu==mu: continue
        b=nbr(nu,i,-1)
        for x,d in ((i,nu),(nbr(nu,i),mu),(nbr(mu,i),nu),(b,nu),(b,mu),(nbr(mu,b),nu)): a+=U(x,d)
    if n==2 and ty!='LOG':
        # sums of SU(2) matrices are real multiples of SU(2) matrices
        p,q=(app('stap%s%d_%d'%(ty,dirs,k),tuple(a),'cplx') for k in range(2)); return [p,q,-q.conj(),p.conj()]
    return [app('stap%s%d_%d'%(ty,dirs,k),tuple(a),'cplx') for k in range(n*n)]
def staple_contract(ex,w):
    E=stypes(); kind={num(E['SM_'+t]).key():t for t in ('APE','STOUT','LOG')}; n=w.n
    def f(ex_,st,a,I):
        i,mu,d,ty=ex_.asint(a[2]),int(ex_.asint(a[3]).const()),int(ex_.asint(a[4]).const()),kind[ex_.asint(a[5]).key()]
        if ty=='STOUT': ty='APE'
        r=stapf(ty,d,lambda x,m: w.getU(st,a[1],x,m),i,mu,lambda m,x,s=1: w.nbr(m,x,s,st),n)
        setm(ex_,st,a[0],madd(getm(ex_,st,a[0],n*n),r)); return [(st,None)]
    ex.contracts['all_staples']=f
