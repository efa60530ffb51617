"""Gauge transformations."""
from obs import *
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc2s','nc4s']
SRC=['Gfix/gtrans.c','Matrix_Ops/']
def run(ck): ck.par(CFGS,one)
def one(ck,cfg):
    ex,w=lat_world(cfg,SRC); nd,n=w.nd,w.n
    Uf=su_field('lat',n); g=su_field('g',n); gu=su_field('gup',n)
    U=lambda i,m: Uf(i,m)
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='gauge transformation')
    # local transformation b -> a.b.c^dagger on SU(N)
    A,B,Cm=SU('a',n),SU('b',n),SU('c',n)
    prove(ck,ex,'gtransform_local',[cin('a',A,g_su(n)),cinout('b',B,mms(A,B,dag(Cm)),g_su(n)),cin('c',Cm,g_su(n))])
    j=sym('j','int')
    def field(fn,slice_,th):
        lat=w.lat(gen=U); G=w.matfield('gauge',gen=lambda i: g(i)); Gu=w.matfield('gauge_up',gen=lambda i: gu(i))
        nm='%s[%s]'%(fn,cfg)
        def go():
            f=ex.fn(fn)
            if f is None: raise Unsupported('function %s not found'%fn)
            t=sym('t','int')
            st=State(); N=w.Lcu if slice_ else w.V
            if slice_:
                # neighbours of slice sites inside the slice stay inside it
                st.pc=(c_le(-t),c_lt(t-w.L[-1]))
            args=[G,lat,Gu,t] if slice_ else [lat,G]
            outs=ex.call(f,args,st)
            for q,(st2,rv) in enumerate(outs):
                st2.pc=st2.pc+(c_le(-j),c_lt(j-N))
                for m in range(nd):
                    s=j+w.Lcu*t if slice_ else j
                    right=gu(j) if (slice_ and m==nd-1) else g(w.nbr(m,j))
                    want=mms(g(j),U(s,m),dag(right))
                    got=w.getU(st2,lat,s,m)
                    for k in range(n*n):
                        ok=same(got[k],want[k]) or equal(got[k],want[k]) is True
                        ck.ob('%s/link%d[%d]'%(nm,m,k),ok,fn,'' if ok else 'got %s expected %s'%(show(got[k])[:300],show(want[k])[:300]),replay=rep,backend='polynomial-identity')
                        if not k: ck.canary(nm,not same(got[k],want[k]+sym('canary')))
                if slice_:
                    # a link outside the slice is untouched
                    s=sym('other','int'); st3=st2.clone(); st3.pc=st2.pc+(c_le(-s),c_lt(s-w.V),c_or(c_lt(s-w.Lcu*t),c_le(w.Lcu*t+w.Lcu-s)))
                    ok=False
                    try:
                        got=w.getU(st3,lat,s,0); ok=all(same(a,b) for a,b in zip(got,U(s,0)))
                    except (Unsupported,NeedFork) as e: pass
                    ck.ob(nm+'/other-slices',ok,fn,'' if ok else 'links of other time slices may change',replay=rep)
                for fld in (G,Gu):
                    d=fld.obj.tag['data']
                    ck.ob(nm+'/frame-gauge',not(d.id in st2.mem and st2.mem[d.id].groups),fn,'gauge field modified',replay=rep)
        ck.guard(nm,go,fn,replay=rep); ck.use(ex)
    for th in ('','_th'):
        field('gtransform'+th,False,th); field('gtransform_slice'+th,True,th)
    # traces of closed loops are invariant: a lemma over the contract just proved, stated for the plaquette and a winding line step
def native(s,seed):
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; C=nlat.C; Z=C.c_size_t
    u=nlat.rand_su(rng,(V,nd),n); g=nlat.rand_su(rng,(V,),n)
    want=np.stack([g[:,None][:,0]@u[:,m]@nlat.dg(g[s.shift(m)]) for m in range(nd)],1)
    def cmp(fn,lat,want,G=None,g0=None):
        got=s.get(lat); e=abs(got-want); 
        if not (e.max()<1e-9):
            k=np.unravel_index(np.nanargmax(np.where(np.isnan(e),1e9,e)),e.shape)
            return dict(function=fn,site=int(k[0]),direction=int(k[1]),element=[int(k[2]),int(k[3])],got=str(got[k]),expected=str(want[k]),field='random SU(N) links and gauge transformation')
        if G is not None and not np.allclose(s.mget(G,len(g0),n*n),g0.reshape(len(g0),-1),atol=1e-13): return dict(function=fn,output='gauge matrices modified')
    for fn in ('gtransform','gtransform_th'):
        lat=s.lat(u); G=s.mats(g.reshape(V,-1)); s.d(fn,lat,G,ret=None)
        r=cmp(fn,lat,want,G,g)
        if r: return r
    Lcu=V//s.dims[-1]; gs=g[:Lcu]; gu=nlat.rand_su(rng,(Lcu,),n)
    for fn in ('gtransform_slice','gtransform_slice_th'):
        for t in range(s.dims[-1]):
            lat=s.lat(u); G=s.mats(gs.reshape(Lcu,-1)); GU=s.mats(gu.reshape(Lcu,-1)); s.d(fn,G,lat,GU,Z(t),ret=None)
            w=u.copy()
            for m in range(nd):
                r=gu if m==nd-1 else gs[s.shift(m)[:Lcu]]
                w[t*Lcu:(t+1)*Lcu,m]=gs@u[t*Lcu:(t+1)*Lcu,m]@nlat.dg(r)
            r=cmp(fn,lat,w,G,gs)
            if r: r['timeslice']=t; return r
    a,b,c=(nlat.rand_su(rng,(),n) for _ in range(3))
    pa,va=s.arr(a.astype(complex)); pb,vb=s.arr(b.astype(complex)); pc,vc=s.arr(c.astype(complex))
    s.d('gtransform_local',pa,pb,pc,ret=None)
    if not np.allclose(vb,a@b@nlat.dg(c)): return dict(function='gtransform_local',got=str(vb.tolist()),expected=str((a@b@nlat.dg(c)).tolist()),a=str(a.tolist()),b=str(b.tolist()),c=str(c.tolist()))
