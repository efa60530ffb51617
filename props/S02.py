"""Smearing sweeps."""
from smear import *
import exec as _X
CFGS=['nc3','nc2','nc4','nc5nd3']
SRC=['Smear/','Matrix_Ops/','Geometry/']
DIMS=([2,3,3,4],[3,2,2,1],[3,2,5,2],[2,2,2,3],[2,1,3,2])
ND={'nc3':4,'nc2':4,'nc4':4,'nc5nd3':3}
HEAVY={('HYPSLsmear4D_expensive',4),('HYsmearND',4),('HYsmearND',3)}
def jobs(thorough=False):
    """heavy jobs first; the hypercubic sources do not depend on the number of colours, so three and five colours of the
    full-depth recursion are left to the thorough run"""
    h,l=[],[]
    for cfg in CFGS:
        nd=ND[cfg]
        L=[('HYsmearND',nd),('HYsmearND',nd-1)] if cfg!='nc4' else []
        if nd==4: L+=([('HYPSLsmear4D_expensive',nd)] if cfg!='nc4' else [])+[('HYPSLsmear3D',nd-1)]
        L+=[('smear4D',nd),('smear3D',nd-1)]
        for f,d in L:
            full=d==nd and f[0]=='H'
            for ty in ('APE','STOUT','LOG'):
                if not thorough and full and (cfg!='nc2' or (f=='HYsmearND' and ty=='STOUT')): continue
                (h if full else l).append((cfg,f,d,ty))
        l+=[(cfg,f,d,'FAIL') for f,d in L]
    h.sort(key=lambda j: (j[0]=='nc2',j[3]!='LOG'))
    l.sort(key=lambda j: (j[1]=='smear3D',j[0]=='nc2'))
    return h+l
def run(ck): ck.par(jobs(ck.tier=='thorough'),one)
def weights(w):
    a=[sym('Latt.sm_alpha.%d'%k) for k in range(w.nd-1)]; nd=w.nd
    return [(T.div(a[k],num((nd-k-1)*(nd-2))),1-a[k]) for k in range(nd-1)]
def one(ck,job):
    cfg,fname,dirs,ty=job
    if ty=='FAIL': return failures(ck,cfg,fname,dirs)
    ex,w=lat_world(cfg,SRC); nd,n=w.nd,w.n; w.slice_mode()
    log_contracts(ex,n); proj_contracts(ex,n); alloc_contracts(ex,w); staple_contract(ex,w); E=stypes()
    mult_contracts(ex,n); Uf=plain_su('lat',n); U=lambda i,m: Uf(i,m)
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed,(fname,dirs,ty)),what='smearing',dims=DIMS)
    it=sym('smiters','int'); W=weights(w)
    def simple(ty,dirs):
        def want(i,mu,st):
            if mu>=dirs: return U(i,mu)
            nb=lambda m,x,s=1: w.nbr(m,x,s,st)
            S=stapf('LOG' if ty=='LOG' else 'APE',dirs,U,i,mu,nb,n)
            return projf(ty,n)(*(U(i,mu)+S+[W[0][0],W[0][1]]))
        return want
    # hypercubic blocking
    def hyp(ty,dirs):
        """blocked link: staples of links that are themselves blocked without leaving the directions not yet used"""
        def want(i,mu,st):
            if mu>=dirs: return U(i,mu)
            nb=lambda m,x,s=1: w.nbr(m,x,s,st)
            def D(x,mu,E):
                S=[ZERO]*(n*n)
                for nu in range(dirs):
                    if nu==mu or nu in E: continue
                    if len(E)==dirs-2: A=B=U
                    else: A=lambda y,m: D(y,m,E|{mu}); B=lambda y,m: D(y,m,E|{nu})
                    b=nb(nu,x,-1)
                    for q in (mms(A(x,nu),B(nb(nu,x),mu),dag(A(nb(mu,x),nu))),mms(dag(A(b,nu)),B(b,mu),A(nb(mu,b),nu))):
                        S=madd(S,logm(mm(q,dag(U(x,mu))),n) if ty=='LOG' else q)
                return projf(ty,n)(*(U(x,mu)+S+[W[len(E)][0],W[len(E)][1]]))
            return D(i,mu,frozenset())
        return want
    lat=w.lat(gen=U)
    want=simple(ty,dirs) if fname.startswith('smear') else hyp(ty,dirs)
    sweep_obs(ck,ex,w,fname,[lat,it,num(E['SM_'+ty])]+([num(dirs)] if fname=='HYsmearND' else []),lat,it,want,rep,tag=',%s'%ty+(',directions=%d'%dirs if fname=='HYsmearND' else ''))
def failures(ck,cfg,fname,dirs):
    """nothing is smeared, and failure is reported, when a temporary field cannot be allocated or the projection is unknown"""
    E=stypes(); rep=rep_session(ck,cfg,lambda s: native_fail(s,fname,dirs),what='smearing failure: '+fname,**FARGS)
    for what in ('allocation','unknown-type'):
        ex,w=lat_world(cfg,SRC+['Utils/GLU_malloc.c']); w.slice_mode(); n=w.n; nm='%s[%s],%s,directions=%d'%(fname,cfg,what,dirs)
        alloc_contracts(ex,w,fail=what=='allocation'); lat=w.lat(); dat=lat.obj.tag['data']; it=sym('smiters','int'); seen=[0]
        def cut(ex_,st,fr,h,env): seen[0]+=1; return False
        ex.cuts={fname:cut}
        def go():
            st=State(); st.pc=(c_le(1-it),)
            args=[lat,it,num(E['SM_APE'] if what=='allocation' else 99)]+([num(dirs)] if fname=='HYsmearND' else [])
            outs=ex.call(ex.fn(fname),args,st)
            if not outs: raise Unsupported('no path reports failure')
            for i,(s2,rv) in enumerate(outs):
                bad=s2.flags.get('allocfail') or what!='allocation'
                ck.ob(nm+'/path%d/status'%i,bool(bad) and isinstance(rv,Poly) and (same(rv,num(4294967295)) or same(rv,num(-1))),fname,'returned %s'%(show(rv) if isinstance(rv,Poly) else rv),replay=rep)
                ck.ob(nm+'/path%d/field'%i,not(dat.id in s2.mem and s2.mem[dat.id].groups),fname,'the field is modified',replay=rep)
                ck.ob(nm+'/path%d/memory'%i,not s2.flags.get('live'),fname,'temporary fields are not released',replay=rep)
            if what!='allocation': ck.ob(nm+'/no-pass',seen[0]==0,fname,'a pass is made with an unknown projection',replay=rep)
        ck.guard(nm,go,fname,replay=rep)
        for g in ('free_s_site','free_lat'):
            def go2(g=g):
                ex.contracts.pop(g,None); f=ex.fn(g)
                if f is None: raise Unsupported('function not found')
                outs=ex.call(f,[_X.NULL]+([sym('n1','int'),sym('n2','int')] if g=='free_s_site' else []),State())
                ck.ob('%s[%s]/null'%(g,cfg),len(outs)>0,g,'releasing a field that was never allocated',replay=rep)
            ck.guard('%s[%s]/null'%(g,cfg),go2,g,replay=rep)
        ck.use(ex)
FWRAP=r"""
#undef posix_memalign
#undef free
#include <errno.h>
int gl_fail=-1; long gl_live=0;
int posix_memalign( void **, size_t , size_t ); void free( void * );
int gl_memalign( void **p , size_t al , size_t s ){ if( gl_fail>=0 && ( s==8*LCU || s==8*LVOLUME ) && gl_fail--==0 ){ return ENOMEM ; } gl_live++; return posix_memalign( p , al , s ) ; }
void gl_free( void *p ){ if( p ) gl_live--; free( p ) ; }
"""
FARGS=dict(wrap=FWRAP,extra=('-Dposix_memalign=gl_memalign','-Dfree=gl_free'),dims=([3,3,3,2],))
def native_fail(s,fname,dirs):
    rng=np.random.default_rng(1); C=nlat.C; E=stypes(); L=s.L; live=C.c_long.in_dll(L,'gl_live'); fl=C.c_int.in_dll(L,'gl_fail')
    u=nlat.rand_su(rng,(s.V,s.nd),s.n,eps=0.1); lat=s.lat(u)
    for k in range(7):
        l0=live.value; fl.value=k if k<6 else -1
        rc=s.d(fname,lat,C.c_size_t(1),C.c_int(E['SM_APE'] if k<6 else 99),*([C.c_size_t(dirs)] if fname=='HYsmearND' else []),ret=C.c_int)
        failed=k==6 or fl.value<0; fl.value=-1; what='allocation %d fails'%k if k<6 else 'unknown projection type'
        if failed and rc==0: return dict(function=fname,case=what,returned=rc,output='failure is not reported')
        if failed and not np.array_equal(s.get(lat),u): return dict(function=fname,case=what,output='the field is modified')
        if live.value!=l0: return dict(function=fname,case=what,output='%d blocks are not released'%(live.value-l0))
        if not failed: s.set(lat,u)
def native(s,seed,only=None):
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; C=nlat.C; Z=C.c_size_t; E=stypes(); dg=nlat.dg
    al=[0.35+0.1*k for k in range(nd-1)]; s.L.gl_alpha((C.c_double*(nd-1))(*al))
    Wt=[(al[k]/((nd-k-1)*(nd-2)),1-al[k]) for k in range(nd-1)]
    def proj(ty,S,l,a,b):
        if ty=='APE': return np_nape(b*l+a*S)
        if ty=='STOUT': return np_expi(a*hp(S@dg(l)))@l
        return np_expi(a*S)@l
    def sweep(u,f,dirs,ty):
        hyp=f.startswith('H')
        def D(mu,X):
            S=0
            for nu in range(dirs):
                if nu==mu or nu in X: continue
                if not hyp or len(X)==dirs-2: A=B=None; a=lambda m: u[:,m]; b=a
                else:
                    A={m:D(m,X|{mu}) for m in (nu,)}; B=D(mu,X|{nu}); a=lambda m,A=A: A[m]; b=lambda m,B=B: B
                F,G,K=s.shift(mu),s.shift(nu),s.shift(nu,-1)
                for p in (a(nu)@b(mu)[G]@dg(a(nu)[F]),dg(a(nu)[K])@b(mu)[K]@a(nu)[F[K]]): S=S+(herm_log(p@dg(u[:,mu])) if ty=='LOG' else p)
            w=Wt[len(X)] if hyp else Wt[0]
            return proj(ty,S,u[:,mu],*w)
        r=u.copy()
        for mu in range(dirs): r[:,mu]=D(mu,frozenset())
        return r
    if V>150: return None
    for f,d in [('smear4D',nd),('smear3D',nd-1)]+([('HYPSLsmear4D_expensive',nd),('HYPSLsmear3D',nd-1)] if nd==4 else [])+[('HYsmearND',nd),('HYsmearND',nd-1)]:
        if only and (f,d)!=only[:2]: continue
        for ty in ('APE','STOUT','LOG'):
            if only and ty!=only[2]: continue
            for it in (1,2):
                u=nlat.rand_su(rng,(V,nd),n,eps=0.08); lat=s.lat(u)
                rc=s.d(f,lat,Z(it),C.c_int(E['SM_'+ty]),*([Z(d)] if f=='HYsmearND' else []),ret=C.c_int)
                w=u
                for _ in range(it): w=sweep(w,f,d,ty)
                g=s.get(lat)
                if rc!=0: return dict(function=f,type=ty,iterations=it,returned=rc)
                if not np.allclose(g,w,rtol=1e-6,atol=1e-6):
                    q=np.unravel_index(np.argmax(abs(g-w)),g.shape)
                    return dict(function=f,type=ty,directions=d,iterations=it,sm_alpha=al,site=int(q[0]),link=int(q[1]),got=str(g[q[0],q[1]]),expected=str(w[q[0],q[1]]),field='random SU(N) near unity')
