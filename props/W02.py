"""Polyakov loops."""
from obs import *
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc4s']
SRC=['Field/POLY.c','Matrix_Ops/','Utils/GLU_malloc.c']
def geo_contracts(ex,w):
    """sites from slice coordinates: the geometry routines by contract (proved in G01)"""
    def c_mom(ex_,st,a,I):
        for m in range(w.nd): ex_.write(st,a[0].plus(4*m),app('coord',(num(m),a[1],a[2]),'int'),('i',32),None)
        return [(st,ZERO)]
    def c_site(ex_,st,a,I):
        return [(st,app('siteof',tuple(ex_.asint(ex_.read(st,a[0].plus(4*m),('i',32),None)) for m in range(w.nd)),'int'))]
    ex.contracts.update(get_mom_2piBZ=c_mom,gen_site=c_site)
def slice_site(w,i,d): return app('siteof',tuple(app('coord',(num(m),P(i),num(d)),'int') for m in range(w.nd)),'int')
def line(w,U,i,d,length):
    """ordered product of `length` links in direction d starting at site i"""
    n2=w.n**2
    k=fresh('t','int'); x=fresh('next','int'); p=[fresh('p%d'%j,'cplx') for j in range(n2)]
    nx=w.nbr(d,x)
    q=mm(p,U(nx,d))
    return FOLD(k,length-1,[(x,i,nx)]+list(zip(p,U(i,d),q)))[1:]
def run(ck):
    ck.par(CFGS,one)
def one(ck,cfg):
    ex,w=lat_world(cfg,SRC); nd,n=w.nd,w.n
    geo_contracts(ex,w)
    U=w.U(); lat=w.lat()
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='Polyakov loops')
    for d in range(nd):
        sub=ONE
        for m in range(nd):
            if m!=d: sub=sub*w.L[m]
        i=sym('i','int')
        S=SUM(i,ZERO,sub,mtr(line(w,U,slice_site(w,i,d),d,w.L[d])))
        lat_obs(ck,ex,w,'poly',[lat,num(d)],ret=T.div(S,sub),replay=rep,frame=[lat],tag=',dir=%d'%d)
        vals=[sym('r%d'%k) for k in range(64)]
        red=robj('red',vals)
        want=list(vals); want[2*d]=T.div(vals[2*d]+T.re(S),sub); want[2*d+1]=T.div(vals[2*d+1]+T.im(S),sub)
        lat_obs(ck,ex,w,'poly_th',[Ptr(red),lat,num(d)],outs=[('red',Ptr(red),'r',want)],pre=(c_eq(w.Nth-1),),replay=rep,frame=[lat],tag=',dir=%d'%d)
def native(s,seed):
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V
    C=nlat.C
    u=rng.normal(size=(V,nd,n,n))+1j*rng.normal(size=(V,nd,n,n)); lat=s.lat(u)
    s.L.gl_poly.argtypes=[C.c_void_p,C.c_size_t,C.POINTER(C.c_double)]
    for d in range(nd):
        t=0; 
        for i in range(V):
            if s.coords(i)[d]: continue
            p=np.eye(n); k=i
            for _ in range(s.dims[d]): p=p@u[k,d]; k=s.shift(d)[k]
            t=t+np.trace(p)
        t=t/(V//s.dims[d]); r=(C.c_double*2)(); s.L.gl_poly(lat,d,r); g=complex(r[0],r[1])
        if not close(g,t): return dict(function='poly',direction=d,got=str(g),expected=str(t),field='random complex')
        red=s.arr(np.zeros(64)); s.d('poly_th',red[0],lat,C.c_size_t(d),ret=None); g=complex(red[1][2*d],red[1][2*d+1])
        if not close(g,t): return dict(function='poly_th',direction=d,got=str(g),expected=str(t),field='random complex')
    if not np.array_equal(s.get(lat),u): return dict(function='poly',output='input field modified')
