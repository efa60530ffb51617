"""Gauge-fixing derivatives, functionals and convergence measures."""
from obs import *
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc2s','nc4s']
SRC=['Gfix/gftests.c','Gfix/lin_derivs.c','Gfix/log_derivs.c','Matrix_Ops/']
def logm(U,n,name='logU'):
    """hermitian traceless logarithm of U as uninterpreted functions of its entries"""
    h=[None]*(n*n); tr=ZERO; args=tuple(U)
    for i in range(n):
        for j in range(n):
            if i<j: h[i*n+j]=app('%s_%d'%(name,i*n+j),args,'cplx'); h[j*n+i]=h[i*n+j].conj()
    for i in range(n):
        if i==n-1: h[i*n+i]=-tr
        else: h[i*n+i]=app('%s_%d'%(name,i*n+i),args,'real'); tr=tr+h[i*n+i]
    return h
def short(h,n):
    """upper triangle of a hermitian matrix, the last diagonal element left out"""
    return [h[i*n+j] for i in range(n) for j in range(i,n)][:-1]
def log_contracts(ex,n):
    """the logarithm routines by contract (their definition is a separate property)"""
    def full(ex_,st,a,I):
        q=logm(getm(ex_,st,a[1],n*n),n)
        for k,z in enumerate(q): setc(ex_,st,a[0],k,z)
        return [(st,None)]
    def shrt(ex_,st,a,I):
        q=short(logm(getm(ex_,st,a[1],n*n),n),n)
        for k,z in enumerate(q): setc(ex_,st,a[0],k,z)
        return [(st,None)]
    ex.contracts.update(exact_log_slow=full,exact_log_slow_short=shrt)
def hproj(U):
    """(U-U^dagger)/2i minus its trace"""
    n=isq(len(U)); d=mscale(msub(U,dag(U)),num(-0.5j))
    t=T.div(mtr(d),num(n))
    return [x-t if k%(n+1)==0 else x for k,x in enumerate(d)]
def tr2(h): return mtr(mm(h,h))
def maxV(w,f,init=ZERO):
    i=fresh('i','int'); z=fresh('mx'); x=f(i)
    return FOLD(i,w.V,[(z,init,ite(c_lt(z-x),x,z))])[0]
def run(ck): ck.par(CFGS,one)
def one(ck,cfg):
    ex,w=lat_world(cfg,SRC); nd,n=w.nd,w.n
    log_contracts(ex,n)
    Uf=su_field('lat',n); U=lambda i,m: Uf(i,m); g=su_field('g',n)
    lat=w.lat(gen=U)
    H=len(short([ZERO]*(n*n),n)); ent=[(i,j) for i in range(n) for j in range(i,n)][:H]
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='gauge-fixing measures')
    # trace of the square of a hermitian traceless matrix in short form
    hz=HERM('h',n,True)
    prove(ck,ex,'trace_deriv',[cin('sum',short(hz,n))],ret=T.re(tr2(hz))*2,replay=rep and (lambda: rep()),replay_fn=rep)
    x=sym('x','int'); pre=(c_le(-x),c_lt(x-w.V))
    def delta(proj,i,dirs):
        r=[ZERO]*(n*n)
        for m in range(dirs): r=madd(r,msub(proj(U(w.nbr(m,i,-1),m)),proj(U(i,m))))
        return r
    lg=lambda u: logm(u,n)
    vals=HERM('s0',n,True)
    for dirs in (nd,nd-1):
        s=cobj('sum',short(vals,n))
        want=madd(vals,delta(hproj,x,dirs))
        lat_obs(ck,ex,w,'latt_deriv_AntiHermitian_proj',[Ptr(s),lat,x,num(dirs)],ret=T.re(tr2(want))*2,outs=[('derivative',Ptr(s),'c',short(want,n))],pre=pre,replay=rep,tag=',dirs=%d'%dirs,frame=[lat])
        s=cobj('sum',short(vals,n)); fn=robj('functional',[None])
        want=madd(vals,delta(lg,x,dirs))
        lat_obs(ck,ex,w,'log_deriv',[Ptr(s),Ptr(fn),lat,x,num(dirs)],ret=T.re(tr2(want))*2,outs=[('derivative',Ptr(s),'c',short(want,n)),('functional',Ptr(fn),'r',[sum((T.re(tr2(lg(U(x,m)))) for m in range(dirs)),ZERO)])],pre=pre,replay=rep,tag=',dirs=%d'%dirs,frame=[lat])
    s=cobj('sum',[None]*H); want=delta(hproj,x,nd)
    lat_obs(ck,ex,w,'fast_deriv_AntiHermitian_proj',[Ptr(s),lat,x],ret=T.re(tr2(want))*2,outs=[('derivative',Ptr(s),'c',short(want,n))],pre=pre,replay=rep,frame=[lat])
    lat_obs(ck,ex,w,'gauge_functional',[lat],ret=ONE-T.div(sumV(w,lambda i: sum((T.re(mtr(U(i,m))) for m in range(nd)),ZERO)),w.V*(nd*n)),replay=rep,frame=[lat])
    G=w.matfield('gauge',gen=lambda i: g(i))
    lat_obs(ck,ex,w,'gauge_test',[G],ret=ONE-T.div(sumV(w,lambda i: T.re(mtr(g(i)))),w.V*n),replay=rep)
    # theta tests: volume average and maximum of 2 tr Delta^2
    for dirs in (nd,nd-1):
        for fn,proj in (('theta_test_lin',hproj),('theta_test_log',lg)):
            loc=lambda i: T.re(tr2(delta(proj,i,dirs)))*2
            m=robj('max',[None])
            lat_obs(ck,ex,w,fn,[lat,Ptr(m),num(dirs)],ret=T.div(sumV(w,loc)*2,w.V*n),outs=[('maximum',Ptr(m),'r',[maxV(w,loc)])],replay=rep,tag=',dirs=%d'%dirs,frame=[lat])
    # slice functional of the Coulomb gauge transformation
    t=sym('t','int'); i=sym('i','int')
    tot=ZERO
    for m in range(nd-1):
        B=mms(g(i),U(i+w.Lcu*t,m),dag(g(w.nbr(m,i))))
        tot=tot+T.re(tr2(lg(B)))
    lat_obs(ck,ex,w,'gtrans_functional',[lat,G,t],ret=T.div(SUM(i,ZERO,w.Lcu,tot),w.Lcu*(2*(nd-1)*n)),pre=(c_le(-t),c_lt(t-w.L[-1])),replay=rep,frame=[lat])
    # constancy in time of the summed temporal fields
    def Q(proj,t):
        i=sym('i','int'); m=proj(U(i+w.Lcu*t,nd-1))
        return [SUM(i,ZERO,w.Lcu,z) for z in m]
    def dev(proj):
        t=sym('tt','int'); d=msub(Q(proj,ZERO),Q(proj,t))
        if n<=3: ks=[(a,b) for a in range(n) for b in range(a,n)][:-1]
        else: ks=[(a,b) for a in range(n) for b in range(n)]
        f=[vabs(T.re(d[a*n+b])) if (a==b and n<=3) else cabs(d[a*n+b]) for a,b in ks]
        return T.div(SUM(t,ONE,w.L[-1],sum(f,ZERO)),(w.L[-1]-1)*(n*n))
    a,b=robj('lin',[None]),robj('log',[None])
    lat_obs(ck,ex,w,'const_time',[lat,Ptr(a),Ptr(b)],outs=[('linear',Ptr(a),'r',[dev(hproj)]),('log',Ptr(b),'r',[dev(lg)])],pre=(c_le(2-w.L[-1]),),replay=rep,frame=[lat])
def herm_log(u):
    """hermitian traceless logarithm, principal branch"""
    n=u.shape[-1]; e,v=np.linalg.eig(u); a=np.angle(e)
    q=np.einsum('...ij,...j,...jk->...ik',v,a,np.linalg.inv(v)); q=(q+nlat.dg(q))/2
    return q
def hp(u):
    d=(u-nlat.dg(u))/2j; n=u.shape[-1]
    return d-np.einsum('...ii->...',d)[...,None,None]*np.eye(n)/n
def native(s,seed):
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; C=nlat.C; Z=C.c_size_t
    H=(n*n+n)//2-1
    ent=[(i,j) for i in range(n) for j in range(i,n)][:H]
    # fields close enough to unity that the logarithm is single valued and traceless
    u=nlat.rand_su(rng,(V,nd),n,eps=0.15); g=nlat.rand_su(rng,(V,),n,eps=0.15); lat=s.lat(u); Lcu=V//s.dims[-1]
    def bad(fn,what,got,want,tol=1e-7):
        if not np.allclose(got,want,rtol=tol,atol=tol): return dict(function=fn,output=what,got=str(got),expected=str(want),field='random SU(N) near unity')
    R=[]
    for proj,fd,ft in ((hp,'latt_deriv_AntiHermitian_proj','theta_test_lin'),(herm_log,'log_deriv','theta_test_log')):
        A=proj(u)
        for dirs in (nd,nd-1):
            D=sum(A[s.shift(m,-1),m]-A[:,m] for m in range(dirs)); t2=np.einsum('xij,xji->x',D,D).real
            mx=C.c_double(); th=s.d(ft,lat,C.byref(mx),Z(dirs))
            R+=[bad(ft,'average',th,4*t2.sum()/(n*V)),bad(ft,'maximum',mx.value,2*t2.max())]
            for x in (0,V-1,V//2):
                p,v=s.arr(np.zeros(H+1,dtype=complex)); f=C.c_double()
                r=s.d(fd,p,lat,Z(x),Z(dirs)) if proj is hp else s.d(fd,p,C.byref(f),lat,Z(x),Z(dirs))
                R+=[bad(fd,'trace',r,2*t2[x]),bad(fd,'derivative',v[:H],np.array([D[x][i,j] for i,j in ent]))]
                if proj is not hp: R+=[bad(fd,'functional',f.value,np.einsum('mij,mji->',A[x,:dirs],A[x,:dirs]).real)]
                else:
                    if dirs==nd:
                        p,v=s.arr(np.zeros(H+1,dtype=complex)); r=s.d('fast_deriv_AntiHermitian_proj',p,lat,Z(x))
                        R+=[bad('fast_deriv_AntiHermitian_proj','trace',r,2*t2[x]),bad('fast_deriv_AntiHermitian_proj','derivative',v[:H],np.array([D[x][i,j] for i,j in ent]))]
    R+=[bad('gauge_functional','result',s.d('gauge_functional',lat),1-np.einsum('xmii->',u).real/(n*nd*V))]
    G=s.mats(g.reshape(V,-1)); R+=[bad('gauge_test','result',s.d('gauge_test',G),1-np.einsum('xii->',g).real/(n*V))]
    for t in (0,s.dims[-1]-1):
        sl=slice(t*Lcu,(t+1)*Lcu); tot=0
        for m in range(nd-1):
            B=g[:Lcu]@u[sl,m]@nlat.dg(g[s.shift(m)[:Lcu]]); L=herm_log(B); tot+=np.einsum('xij,xji->',L,L).real
        R+=[bad('gtrans_functional','result',s.d('gtrans_functional',lat,G,Z(t)),tot/(2*(nd-1)*n*Lcu))]
    a,b=C.c_double(),C.c_double(); s.d('const_time',lat,C.byref(a),C.byref(b),ret=None)
    def dev(proj):
        q=proj(u[:,nd-1]).reshape(s.dims[-1],Lcu,n,n).sum(1); d=q[0]-q; m=np.triu(np.ones((n,n))) if n<=3 else np.ones((n,n))
        if n<=3: m[-1,-1]=0
        return (abs(d)*m).sum()/(n*n*(s.dims[-1]-1))
    R+=[bad('const_time','linear',a.value,dev(hp)),bad('const_time','logarithmic',b.value,dev(herm_log))]
    hz=hp(nlat.rand_su(rng,(),n)); p,v=s.arr(np.array([hz[i,j] for i,j in ent]+[0])); R+=[bad('trace_deriv','result',s.d('trace_deriv',p),2*np.einsum('ij,ji->',hz,hz).real)]
    for r in R:
        if r: return r
    return None
