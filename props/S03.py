"""Integration step of the gradient flow."""
from smear import *
import exec as _X
from exec import FnPtr
from S01 import flow_short
CFGS=['nc3','nc2','nc4','nc5nd3']
DIMS=([2,3,3,4],[3,2,2,1],[3,2,5,2],[2,2,2,3])
SRC=['Smear/','Matrix_Ops/','Geometry/']
def jobs():
    return [(c,f,t) for c in CFGS for f in ('step_distance_memcheap','step_distance') for t in ('STOUT','LOG')]
def run(ck): ck.par(jobs(),one)
def flow_contracts(ex,n):
    H=len(flow_short([ZERO]*(n*n),n))
    def f(ex_,st,a,I):
        l=getm(ex_,st,a[2],n*n)
        if not is_su(l): raise Unsupported('projection called with a link not known to be SU(N)')
        setm(ex_,st,a[0],projf('FLOW',n)(*(l+getm(ex_,st,a[1],H)+[ex_.asfp(a[3])]))); return [(st,None)]
    for nm in ('STOUT','LOG'): ex.contracts['project_%s_wflow_short'%nm]=f
    return H
STAGE={'step_distance':'RK3step','step_distance_memcheap':'RK3step_memcheap'}
C=((-17/36.,-9/17.),(8/9.,1.),(-3/4.,-1.))
def setup(cfg,fname,Zinit):
    ex,w=lat_world(cfg,SRC); n=w.n; w.slice_mode()
    H=flow_contracts(ex,n); staple_contract(ex,w); mult_contracts(ex,n)
    Uv=[plain_su('lat' if v==0 else 'lat@%d'%v,n) for v in range(4)]
    lat=w.lat(gen=lambda i,m: Uv[0](i,m)); cheap=fname.endswith('memcheap')
    # the field and the accumulated force after a stage that is known by contract
    dat=lat.obj.tag['data']; old=dat.init
    def dinit(ex_,st,idx,inner,ty,size):
        v=st.flags.get('stage',0)
        if not v: return old(ex_,st,idx,inner,ty,size)
        if len(idx)==3: inner=idx[2].const()*st.ostate(dat).stride+inner
        z=Uv[v](idx[0],idx[1])[inner//16]
        return T.re(z) if inner%16==0 else T.im(z)
    dat.init=dinit
    Zv=lambda v,i,m: [app('Z@%d_%d'%(v,k),(P(i),P(m)),'cplx') for k in range(H)]
    F={'Z':w.slat('Z',w.V,H,gen=(lambda i,m: Zv(0,i,m)) if Zinit else None)}
    F['lat2']=w.slat('lat2',w.Lcu if cheap else w.V)
    if cheap: F['lat3']=w.slat('lat3',w.Lcu); F['lat4']=w.slat('lat4',w.Lcu)
    zd=F['Z'].obj.tag['data']; oldz=zd.init
    def zinit(ex_,st,idx,inner,ty,size):
        v=st.flags.get('stage',0)
        if not v: return oldz(ex_,st,idx,inner,ty,size)
        if len(idx)==3: inner=idx[2].const()*st.ostate(zd).stride+inner
        z=Zv(v,idx[0],idx[1])[inner//16]
        return T.re(z) if inner%16==0 else T.im(z)
    zd.init=zinit
    off,size=field_offsets(ex,'wflow_temps')
    wf=Obj('WF',None,num(size),ext=True)
    def init(ex_,st,idx,inner,t,sz):
        for k,(o,_) in off.items():
            if o==inner: return F.get(k,_X.NULL)
        raise Unsupported('offset of wflow_temps')
    wf.init=init
    return ex,w,H,lat,wf,F,Uv,Zv,off
def stage(w,H,ty,U,Zp,m,c,st):
    """one stage: the force (packed) is accumulated with weight m, the link is multiplied by the exponential of c times it"""
    nd,n=w.nd,w.n; memo={}
    def both(i,mu):
        key=(P(i).key(),mu); r=memo.get(key)
        if r is not None: return r
        S=stapf('LOG' if ty=='LOG' else 'APE',nd,U,i,mu,lambda d,x,s=1: w.nbr(d,x,s,st),n); u=U(i,mu)
        q=list(S) if ty=='LOG' else hproj(mm(S,dag(u)))
        if n<=3:
            for d in range(n): q[d*n+d]=T.re(q[d*n+d])
        z=[a+b*m for a,b in zip(Zp(i,mu),flow_short(q,n))]
        r=memo[key]=(projf('FLOW',n)(*(list(u)+z+[c])),z); return r
    return both
def sfn(ex,fname,sname):
    """the stage routine local to the file of fname"""
    return next((m.funcs[sname] for m in ex.mods.values() if fname in m.funcs and sname in m.funcs),None)
def one(ck,job):
    cfg,fname,ty=job; E=stypes()
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed,(fname,ty)),what='flow step',dims=DIMS)
    # the stage
    sname=STAGE[fname]; m,c=sym('multiplier'),sym('step')
    ex,w,H,lat,wf,F,Uv,Zv,off=setup(cfg,fname,True); n,nd=w.n,w.nd
    modular=sfn(ex,fname,sname) is not None
    nm='%s[%s],%s'%(sname,cfg,ty)
    def check(nm,fn,outs,want,wantz,canary=True):
        for i,(s2,rv) in enumerate(outs):
            field_equal(ck,ex,w,nm+'/path%d'%i,fn,s2,lat,want,rep,canary=canary and i==0)
            if wantz: field_equal(ck,ex,w,nm+'/path%d/force'%i,fn,s2,F['Z'],wantz,rep,canary=canary and i==0,nent=H)
    if modular:
        def go():
            outs=ex.call(sfn(ex,fname,sname),[Ptr(wf),lat,m,c,num(E['SM_'+ty]),FnPtr('project_%s_wflow_short'%ty)],State())
            if not outs: raise Unsupported('no path returns')
            b=lambda st: stage(w,H,ty,Uv[0],lambda i,d: Zv(0,i,d),m,c,st)
            check(nm,sname,outs,lambda i,mu,st: b(st)(i,mu)[0],lambda i,mu,st: b(st)(i,mu)[1])
        ck.guard(nm,go,sname,replay=rep); ck.use(ex)
    # the step
    ex,w,H,lat,wf,F,Uv,Zv,off=setup(cfg,fname,False); dt=sym('delta_t'); nm='%s[%s],%s'%(fname,cfg,ty)
    if modular:
        def con(ex_,st,a,I):
            """requires: the field and the force are those of the previous stage; ensures: those of the next"""
            k=st.flags.get('stage',0)
            if k>=3: raise Violation('more than three stages')
            for nme,p in F.items():
                q=ex_.read(st,a[0].plus(off[nme][0]),('ptr',),None)
                if q.obj is not p.obj: raise Violation('stage called with another temporary field '+nme)
            x=sym('x','int'); s1=st.clone(); s1.pc=st.pc+(c_le(-x),c_lt(x-w.V)); ok=True
            for mu in range(nd):
                ok=ok and all(same(p,q) for p,q in zip(w.getU(s1,lat,x,mu),Uv[k](x,mu)))
                z=getm(ex_,s1,Ptr(F['Z'].obj.tag['data'],(x,num(mu))),H)
                ok=ok and all(same(p,q) for p,q in zip(z,Zv(k,x,mu) if k else [ZERO]*H))
            ck.ob('%s/stage%d/initial-state'%(nm,k+1),ok and a[1].obj is lat.obj,fname,'' if ok else 'the field or the accumulated force is modified between the stages',replay=rep)
            for lab,g,wv in (('weight',a[2],num(C[k][0])),('step',a[3],dt.scale(C[k][1]))):
                g=ex_.asfp(g); ok=same(g,wv) or equal(g,wv) is True
                ck.ob('%s/stage%d/%s'%(nm,k+1,lab),ok,fname,'' if ok else 'got %s expected %s'%(show(g),show(wv)),replay=rep)
                if lab=='weight': ck.canary(nm,not same(g,wv+sym('canary')))
            ok=same(ex_.asint(a[4]),num(E['SM_'+ty])) and isinstance(a[5],FnPtr) and a[5].name=='project_%s_wflow_short'%ty
            ck.ob('%s/stage%d/kind'%(nm,k+1),ok,fname,'' if ok else 'smearing type or projection not passed on',replay=rep)
            for o in (lat.obj.tag['data'],F['Z'].obj.tag['data']): st.mem.pop(o.id,None)
            st.flags=dict(st.flags); st.flags['stage']=k+1
            return [(st,None)]
        ex.contracts[sname]=con
    def go():
        f=ex.fn(fname)
        if f is None: raise Unsupported('function %s not found'%fname)
        outs=ex.call(f,[lat,Ptr(wf),dt,num(E['SM_'+ty]),FnPtr('project_%s_wflow_short'%ty)],State())
        if not outs: raise Unsupported('no path returns')
        if modular:
            x=sym('x','int')
            for i,(s2,rv) in enumerate(outs):
                k=s2.flags.get('stage',0); ok=k==3 and all(same(p,q) for mu in range(nd) for p,q in zip(w.getU(s2,lat,x,mu),Uv[3](x,mu)))
                ck.ob('%s/path%d/three-stages'%(nm,i),ok,fname,'' if ok else '%d stages, or the field is modified after the last'%k,replay=rep)
        else:
            def want(i,mu,st):
                U,Z=Uv[0],(lambda i,m: [ZERO]*H)
                for mk,ck_ in C:
                    b=stage(w,H,ty,U,Z,num(mk),dt.scale(ck_),st); U=lambda i,m,b=b: b(i,m)[0]; Z=lambda i,m,b=b: b(i,m)[1]
                return U(i,mu)
            check(nm,fname,outs,want,None)
    ck.guard(nm,go,fname,replay=rep); ck.use(ex)
def native(s,seed,only=None):
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; C_=nlat.C; E=stypes(); dg=nlat.dg
    class WF(C_.Structure): _fields_=[(k,C_.c_void_p) for k in ('lat2','lat3','lat4','Z','lat_two','red')]
    def step(u,dt,ty):
        Z=0; u=u.copy()
        for m,c in C:
            f=np.zeros_like(u)
            for mu in range(nd):
                S=0
                for nu in range(nd):
                    if nu==mu: continue
                    F,G,K=s.shift(mu),s.shift(nu),s.shift(nu,-1)
                    for p in (u[:,nu]@u[G,mu]@dg(u[F,nu]),dg(u[K,nu])@u[K,mu]@u[F[K],nu]): S=S+(herm_log(p@dg(u[:,mu])) if ty=='LOG' else p)
                f[:,mu]=S if ty=='LOG' else hp(S@dg(u[:,mu]))
            Z=Z+m*f; u=np_expi(c*dt*Z)@u
        return u
    for f in ('step_distance','step_distance_memcheap'):
        for ty in ('STOUT','LOG'):
            if only and (f,ty)!=only: continue
            for dt in (0.05,-0.03):
                u=nlat.rand_su(rng,(V,nd),n,eps=0.1); lat=s.lat(u); wf=WF(); mc=int(f.endswith('memcheap'))
                if s.d('allocate_WF',C_.byref(wf),C_.c_int(mc),C_.c_int(0),ret=C_.c_int)!=0: return None
                s.d(f,lat,wf,C_.c_double(dt),C_.c_int(E['SM_'+ty]),C_.cast(getattr(s.L,'project_%s_wflow_short'%ty),C_.c_void_p),ret=None)
                s.d('free_WF',C_.byref(wf),C_.c_int(mc),C_.c_int(0),ret=None)
                g=s.get(lat); w=step(u,dt,ty)
                if not np.allclose(g,w,rtol=1e-7,atol=1e-8):
                    q=np.unravel_index(np.argmax(abs(g-w)),g.shape)
                    return dict(function=f,type=ty,delta_t=dt,site=int(q[0]),link=int(q[1]),got=str(g[q[0],q[1]]),expected=str(w[q[0],q[1]]),field='random SU(N) near unity')
