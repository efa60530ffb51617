"""Plaquette and link-trace averages."""
from obs import *
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc2s','nc4s']
SRC=['Field/plaqs_links.c','Matrix_Ops/','Utils/GLU_malloc.c']
def retr(u): return T.re(mtr(u))
def run(ck):
    ck.par(CFGS,one)
def one(ck,cfg):
    ex,w=lat_world(cfg,SRC); nd,n=w.nd,w.n
    U=w.U(); lat=w.lat()
    plaq=lambda i,m,v: retr(mms(U(i,m),U(w.nbr(m,i),v),dag(U(w.nbr(v,i),m)),dag(U(i,v))))
    S=sumV(w,lambda i: sum((plaq(i,m,v) for m in range(nd-1) for v in range(m)),ZERO))
    Tt=sumV(w,lambda i: sum((plaq(i,nd-1,v) for v in range(nd-1)),ZERO))
    inv=lambda c: T.div(ONE,w.V*c)
    sp=S*inv(n*(nd-1)*(nd-2)//2); tp=Tt*inv(n*(nd-1)); av=(S+Tt)*inv(n*nd*(nd-1)//2)
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='plaquettes and links')
    ps,pt=robj('sp',[None]),robj('tp',[None])
    O=lambda a,b: [('spatial',Ptr(ps),'r',[a]),('temporal',Ptr(pt),'r',[b])]
    lat_obs(ck,ex,w,'all_plaquettes',[lat,Ptr(ps),Ptr(pt)],ret=av,outs=O(sp,tp),replay=rep,frame=[lat])
    lat_obs(ck,ex,w,'av_plaquette',[lat],ret=av,replay=rep,frame=[lat])
    lat_obs(ck,ex,w,'s_plaq',[lat],ret=sp,replay=rep,frame=[lat])
    lat_obs(ck,ex,w,'t_plaq',[lat],ret=tp,replay=rep,frame=[lat])
    ls=sumV(w,lambda i: sum((retr(U(i,m)) for m in range(nd-1)),ZERO)); lt=sumV(w,lambda i: retr(U(i,nd-1)))
    sl=ls*inv(n*(nd-1)); tl=lt*inv(n); al=(ls+lt)*inv(n*nd)
    ps,pt=robj('sl',[None]),robj('tl',[None])
    lat_obs(ck,ex,w,'all_links',[lat,Ptr(ps),Ptr(pt)],ret=al,outs=O(sl,tl),replay=rep,frame=[lat])
    lat_obs(ck,ex,w,'links',[lat],ret=al,replay=rep,frame=[lat])
    lat_obs(ck,ex,w,'s_links',[lat],ret=sl,replay=rep,frame=[lat])
    lat_obs(ck,ex,w,'t_links',[lat],ret=tl,replay=rep,frame=[lat])
    pm=robj('max',[None])
    lat_obs(ck,ex,w,'indivlinks',[lat,Ptr(pm)],ret=al,replay=rep,frame=[lat])
    # per-thread reduction array
    red=robj('red',[None]*64)
    lat_obs(ck,ex,w,'av_plaquette_th',[Ptr(red),lat],outs=[('red',Ptr(red),'r',[None]*3+[S+Tt])],pre=(c_eq(w.Nth-1),),replay=rep,frame=[lat])
def oracle(u,s):
    nd=s.nd; P=np.zeros((nd,nd))
    for m in range(nd):
        for v in range(m):
            P[m,v]=np.einsum('xii->',u[:,m]@u[s.shift(m)][:,v]@nlat.dg(u[s.shift(v)][:,m])@nlat.dg(u[:,v])).real
    l=np.einsum('xmii->m',u).real
    return P,l
def native(s,seed):
    C=nlat.C; rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V
    for kind in range(2):
        u=nlat.rand_su(rng,(V,nd),n) if kind else rng.normal(size=(V,nd,n,n))+1j*rng.normal(size=(V,nd,n,n))
        P,l=oracle(u,s); lat=s.lat(u)
        sp=P[:nd-1,:nd-1].sum()/(n*V*(nd-1)*(nd-2)/2); tp=P[nd-1].sum()/(n*V*(nd-1)); av=P.sum()/(n*V*nd*(nd-1)/2)
        sl=l[:-1].sum()/(n*V*(nd-1)); tl=l[-1]/(n*V); al=l.sum()/(n*V*nd)
        a,b=C.c_double(),C.c_double()
        def chk(fn,got,want,what='result'):
            if not close(got,want): return dict(function=fn,output=what,got=got,expected=want,field='random SU(N)' if kind else 'random complex')
        r=s.d('all_plaquettes',lat,C.byref(a),C.byref(b))
        red=s.arr(np.zeros(64))
        R=[chk('all_plaquettes',r,av),chk('all_plaquettes',a.value,sp,'spatial'),chk('all_plaquettes',b.value,tp,'temporal')]
        R+=[chk(f,s.d(f,lat),x) for f,x in (('av_plaquette',av),('s_plaq',sp),('t_plaq',tp),('links',al),('s_links',sl),('t_links',tl))]
        r=s.d('all_links',lat,C.byref(a),C.byref(b))
        R+=[chk('all_links',r,al),chk('all_links',a.value,sl,'spatial'),chk('all_links',b.value,tl,'temporal')]
        mx=C.c_double(); r=s.d('indivlinks',lat,C.byref(mx))
        R+=[chk('indivlinks',r,al),chk('indivlinks',mx.value,np.einsum('xmii->xm',u).real.max(),'maximum')]
        s.d('av_plaquette_th',red[0],lat,ret=None); R+=[chk('av_plaquette_th',red[1][3],P.sum())]
        if not np.array_equal(s.get(lat),u): R+=[dict(function='plaquettes',output='input field modified')]
        for x in R:
            if x: return x
    return None
