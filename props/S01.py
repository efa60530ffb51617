"""Staples and projections of smearing."""
from smear import *
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc2s','nc4s']
SRC=['Smear/staples.c','Smear/projectors.c','Matrix_Ops/','Geometry/']
def run(ck): ck.par(CFGS,one)
def one(ck,cfg):
    ex,w=lat_world(cfg,SRC); nd,n=w.nd,w.n
    log_contracts(ex,n); exp_contracts(ex,n); reunit_contract(ex,n); E=stypes()
    Uf=su_field('lat',n); U=lambda i,m: Uf(i,m); lat=w.lat(gen=U)
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='staples and projections')
    x=sym('x','int'); pre=(c_le(-x),c_lt(x-w.V)); st0=M('st',n)
    for d in (nd,nd-1):
        for mu in range(d):
            for ty in ('SM_APE','SM_STOUT','SM_LOG'):
                if ty=='SM_LOG': want=log_staple(U,x,mu,range(d),w.nbr,n)
                else: want=staple(U,x,mu,range(d),w.nbr)
                s=cobj('stap',st0)
                lat_obs(ck,ex,w,'all_staples',[Ptr(s),lat,x,num(mu),num(d),num(E[ty])],outs=[('staple',Ptr(s),'c',madd(st0,want))],pre=pre,replay=rep,tag=',%s,mu=%d,dirs=%d'%(ty,mu,d),frame=[lat])
    # projections
    S,l=quat('S') if n==2 else M('S',n),SU('l',n); al,a0=sym('alpha'),sym('al'); hz=HERM('h',n,True)
    def pj(fn,sv,want,short_=False):
        o=cobj('smeared',[None]*(n*n)); s=cobj('staple',sv); u=cobj('link',l)
        args=[Ptr(o),Ptr(s),Ptr(u),al]+([] if short_ else [a0])
        lat_obs(ck,ex,w,fn,args,outs=[('link',Ptr(o),'c',want)],replay=rep,frame=[Ptr(u)])
    pj('project_APE',S,napef(n)(*madd(mscale(l,a0),mscale(S,al))))
    pj('project_STOUT',S,mm(expi(mscale(hproj(mm(S,dag(l))),al),n),l))
    pj('project_LOG',hz,mm(expi(mscale(hz,al),n),l))
    for fn in ('project_STOUT_wflow_short','project_LOG_wflow_short'):
        pj(fn,flow_short(hz,n),mm(expi(mscale(hz,al),n),l),True)
def quat(nm):
    """sums of SU(2) matrices: real multiples of SU(2)"""
    a,b=sym(nm+'0','cplx'),sym(nm+'1','cplx'); return [a,b,-b.conj(),a.conj()]
def flow_short(h,n):
    """packed form used by the flow: for three colours the two diagonal elements share the first entry"""
    q=short(h,n)
    if n==3: return [q[0]+q[3].scale(1j),q[1],q[2],q[4]]
    return q
def native(s,seed):
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; C=nlat.C; Z=C.c_size_t; E=stypes()
    u=nlat.rand_su(rng,(V,nd),n,eps=0.15); lat=s.lat(u); dg=nlat.dg; R=[]
    def bad(fn,what,got,want,tol=1e-7,**k):
        if not np.allclose(got,want,rtol=tol,atol=tol): return dict(function=fn,output=what,got=str(got),expected=str(want),field='random SU(N) near unity',**k)
    for d in (nd,nd-1):
        for mu in range(d):
            W={}
            for ty in ('SM_APE','SM_STOUT','SM_LOG'):
                tot=0
                for nu in range(d):
                    if nu==mu: continue
                    f=s.shift(mu); g=s.shift(nu); b=s.shift(nu,-1)
                    for p in (u[:,nu]@u[g,mu]@dg(u[f,nu]), dg(u[b,nu])@u[b,mu]@u[f[b],nu]):
                        tot=tot+(herm_log(p@dg(u[:,mu])) if ty=='SM_LOG' else p)
                for x in (0,V-1,V//2+1):
                    z=rng.normal(size=(n,n))+1j*rng.normal(size=(n,n)); p,v=s.arr(z.astype(complex))
                    s.d('all_staples',p,lat,Z(x),Z(mu),Z(d),C.c_int(E[ty]),ret=None)
                    r=bad('all_staples','staple',v,z+tot[x],type=ty,mu=mu,site=x,directions=d)
                    if r: return r
    for k in range(6):
        S=rng.normal(size=(n,n))*0.5+1j*rng.normal(size=(n,n))*0.5; l=nlat.rand_su(rng,(),n); a=rng.uniform(0.05,0.5); b=1-a
        if n==2: S=rng.normal()*nlat.rand_su(rng,(),2)
        if k%2==0: S=nlat.rand_su(rng,(),n,eps=0.2)@l
        A=b*l+a*S; h=hp(nlat.rand_su(rng,(),n))
        pk=[h[i,j] for i in range(n) for j in range(i,n)][:-1]
        if n==3: pk=[pk[0]+1j*pk[3],pk[1],pk[2],pk[4]]
        for fn,sv,want in (('project_APE',S,np_nape(A)),('project_STOUT',S,np_expi(a*hp(S@dg(l)))@l),('project_LOG',h,np_expi(a*h)@l),('project_STOUT_wflow_short',np.array(pk),np_expi(a*h)@l),('project_LOG_wflow_short',np.array(pk),np_expi(a*h)@l)):
            p,v=s.arr(np.zeros((n,n),dtype=complex)); q,_=s.arr(np.asarray(sv,dtype=complex).copy()); lp,lv=s.arr(l.astype(complex))
            args=[p,q,lp,C.c_double(a)]+([] if fn.endswith('short') else [C.c_double(b)])
            s.d(fn,*args,ret=None)
            if fn=='project_APE' and k%2: continue    # branch of the determinant root far from unity is not compared
            r=bad(fn,'link',v,want,alpha=a) or (None if np.allclose(lv,l) else dict(function=fn,output='input link modified'))
            if r: return r
