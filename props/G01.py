"""Lattice geometry: site numbering, neighbours, momentum conventions."""
from lattice import *
CFGS=['nc3','nc5nd3']
def iobj(name,vals,n):
    """int array"""
    o=Obj(name,None,num(4*n),ext=True)
    g=[v if v is not None else sym('%s_garbage%d'%(name,i),'int') for i,v in enumerate(vals)]
    def init(ex,st,idx,inner,ty,size):
        if idx: inner=idx[0].const()*st.ostate(o).stride+inner
        return g[inner//4]
    o.init=init; return o
I32=('i',32)
def geti(ex,st,o,k): return ex.asint(ex.read(st,Ptr(o).plus(4*k),I32,None))
class Geo:
    def __init__(g,cfg):
        ex=g.ex=Exec(cfg); ex.load_all(['Geometry/geometry.c','Geometry/init.c'])
        w=g.w=World(ex); g.nd=w.nd
        g.x=[sym('x%d'%m,'int') for m in range(g.nd)]
        for m in range(g.nd): ex.digits[aid(g.x[m])]=w.L[m]
        g.h=[idiv(l,num(2)) for l in w.L]
        for m in range(g.nd): ex.digits[aid(g.h[m])]=w.L[m]
    def lin(g,x,skip=None):
        r=ZERO; s=ONE
        for m in range(g.nd):
            if m==skip: continue
            r=r+P(x[m])*s; s=s*g.w.L[m]
        return r
def run(ck):
    ck.par(CFGS,one)
def one(ck,cfg):
    geometry(ck,Geo(cfg))
    navig(ck,cfg)
def cases(ck,g,name,fn,args,check,func,pre=(),replay=None):
    """run fn on args(st) and apply check(st,ret,objs) on every path"""
    ex=g.ex; nm='%s[%s]'%(name,ex.cfg)
    def go():
        f=ex.fn(fn)
        if f is None: raise Unsupported('function %s not found'%fn)
        st=State(); st.pc=tuple(pre)
        outs=ex.call(f,args,st)
        if not outs: raise Unsupported('no path')
        for i,(st2,rv) in enumerate(outs):
            bad=check(st2,rv)
            if i==0: ck.canary(nm,check(st2,rv,bump=ONE) is not None)
            ck.ob('%s/path%d'%(nm,i+1),bad is None,func,'' if bad is None else '%s on path %s'%(bad,cshow(st2.pc)[:200]),replay=replay,backend='mixed-radix arithmetic + z3')
    ck.guard(nm,go,func,replay=replay); ck.use(ex)
def int_eq(ex,st,a,b):
    return ex.int_equal(st,a,b)
def chk_vec(ex,o,want,ret=None):
    def c(st,rv,bump=ZERO):
        for k,wv in enumerate(want):
            if wv is None: continue
            gv=geti(ex,st,o,k)
            v=wv(st) if callable(wv) else wv+bump
            bump=ZERO if not callable(wv) else bump
            if callable(wv):
                if bump.d: v=v+bump; bump=ZERO
            if not int_eq(ex,st,gv,v): return 'component %d is %s, expected %s'%(k,show(gv)[:200],show(v)[:200])
        if ret is not None and not int_eq(ex,st,rv,ret): return 'returned %s expected %s'%(show(rv)[:200],show(ret)[:200])
        return None
    return c
def sin_mom(cfg):
    """whether this tree's configuration header selects lattice momenta"""
    if not hasattr(sin_mom,'v'):
        import subprocess
        r=subprocess.run([build.CLANG,'-dM','-E']+build.flags(cfg)+['-x','c',build.REPO+'/src/Geometry/geometry.c'],capture_output=True,text=True)
        sin_mom.v='#define SIN_MOM' in r.stdout
    return sin_mom.v
def mom(ex,n,tw): return 2*T.sin(n*tw*0.5) if sin_mom(ex.cfg) else n*tw
def chk_ret(ex,want):
    def c(st,rv,bump=ZERO):
        v=(want(st) if callable(want) else want)+bump
        return None if int_eq(ex,st,rv,v) else 'returned %s, expected %s'%(show(rv)[:300],show(v)[:300])
    return c
def centred(ex,st,x,L,h):
    """representative of x mod L in [-h, L-h): decides the branch"""
    return ite(c_lt(x-(L-h)),x,x-L,'int')
def geometry(ck,g):
    ex,w,nd,x,L,h=g.ex,g.w,g.nd,g.x,g.w.L,g.h
    i=g.lin(x)
    rep=lambda: native_geo(ck,ex.cfg)
    ox=iobj('x',x,nd)
    cases(ck,g,'gen_site','gen_site',[Ptr(ox)],chk_ret(ex,i),'gen_site',replay=rep)
    for D in range(nd+1):
        s=D if D<nd else None
        iD=g.lin(x,s); xs=[ZERO if m==D else x[m] for m in range(nd)]; tg='' if D==nd else ',dir=%d'%D
        o=iobj('o',[None]*nd,nd)
        cases(ck,g,'get_mom_2piBZ'+tg,'get_mom_2piBZ',[Ptr(o),iD,num(D)],chk_vec(ex,o,xs,sum(xs,ZERO)),'get_mom_2piBZ',replay=rep)
        o=iobj('o',[None]*nd,nd)
        cases(ck,g,'get_mom_pipi'+tg,'get_mom_pipi',[Ptr(o),iD,num(D)],chk_vec(ex,o,[ZERO if m==D else x[m]-h[m] for m in range(nd)]),'get_mom_pipi',replay=rep)
        if D<nd-1: continue # (the conversions below are only used on time slices and on the full lattice)
        # momentum on the 0..2pi lattice -> site of the -pi..pi lattice
        ox=iobj('x',x,nd)
        want=lambda st,s=s: g.lin([ZERO if m==s else centred(ex,st,x[m],L[m],h[m])+h[m] for m in range(nd)])
        cases(ck,g,'get_site_2piBZ'+tg,'get_site_2piBZ',[Ptr(ox),num(D)],chk_ret(ex,want),'get_site_2piBZ',replay=rep)
        # momentum p in [-h,L-h) -> site of the 0..2pi lattice
        y=[x[m]-h[m] for m in range(nd)]; oy=iobj('y',y,nd)
        want=lambda st,s=s,y=y: g.lin([ZERO if m==s else ite(c_lt(y[m]),y[m]+L[m],y[m],'int') for m in range(nd)])
        cases(ck,g,'get_site_pipiBZ'+tg,'get_site_pipiBZ',[Ptr(oy),num(D)],chk_ret(ex,want),'get_site_pipiBZ',replay=rep)
        # conversion between the two zones, against the contracts of the three routines above
        tab={}
        def c_mom(ex_,st,a,I,s=s):
            if not same(a[1],iD) or not (a[2].is_const() and a[2].const()==D): raise Unsupported('unexpected site argument')
            for m in range(nd): ex_.write(st,a[0].plus(4*m),xs[m],I32,None)
            return [(st,sum(xs,ZERO))]
        def c_site(ex_,st,a,I,s=s):
            v=[geti(ex_,st,a[0].obj,m) if not a[0].off.d else None for m in range(nd)]
            for m in range(nd):
                if m!=s and not (ex_.prove(st,c_le(-h[m]-v[m])) and ex_.prove(st,c_lt(v[m]-L[m]))): raise Unsupported('get_site_2piBZ called outside its precondition')
            y=fresh('site','int'); tab[aid(y)]=[ZERO if m==s else centred(ex_,st,v[m],L[m],h[m]) for m in range(nd)]
            return [(st,y)]
        def c_pipi(ex_,st,a,I,s=s):
            at=app_single(a[1])
            if at is None or at.id not in tab or a[2].const()!=D: raise Unsupported('get_mom_pipi called on an unknown site')
            for m in range(nd): ex_.write(st,a[0].plus(4*m),tab[at.id][m],I32,None)
            return [(st,ZERO)]
        o=iobj('o',[None]*nd,nd)
        want=[ZERO if m==D else (lambda st,m=m: centred(ex,st,x[m],L[m],h[m])) for m in range(nd)]
        ex.contracts.update(get_mom_2piBZ=c_mom,get_site_2piBZ=c_site,get_mom_pipi=c_pipi)
        cases(ck,g,'TwoPI_mpipi_momconv'+tg,'TwoPI_mpipi_momconv',[Ptr(o),iD,num(D)],chk_vec(ex,o,want),'TwoPI_mpipi_momconv',replay=rep)
        for k in ('get_mom_2piBZ','get_site_2piBZ','get_mom_pipi'): ex.contracts.pop(k)
    # spatial / full hypercubes
    for D in (nd-1,nd):
        s=D if D<nd else None
        iD=g.lin(x,s); tg=',dims=%d'%D
        r=[ite(c_lt(h[m]-x[m]),x[m]-L[m],x[m],'int') for m in range(D)]
        o=iobj('o',[None]*nd,nd)
        cases(ck,g,'get_vec_from_origin'+tg,'get_vec_from_origin',[Ptr(o),iD,num(D)],chk_vec(ex,o,r+[ZERO]*(nd-D)),'get_vec_from_origin',replay=rep)
        rr=ZERO
        for v in r: rr=rr+v*v
        cases(ck,g,'compute_rsq'+tg,'compute_rsq',[iD,num(D)],chk_ret(ex,rr),'compute_rsq',replay=rep)
        sp=[sym('s%d'%m,'int') for m in range(nd)]
        for m in range(nd): ex.digits[aid(sp[m])]=L[m]
        for neg in (0,1):
            sep=[sp[m]-L[m]*neg for m in range(nd)]; os_=iobj('sep',sep,nd)
            y=[x[m]+sp[m] for m in range(nd)]
            want=lambda st: g.lin([ite(c_lt(y[m]-L[m]),y[m],y[m]-L[m],'int') if m<D else ZERO for m in range(nd)])
            cases(ck,g,'compute_spacing'+tg+(',back' if neg else ''),'compute_spacing',[Ptr(os_),iD,num(D)],chk_ret(ex,want),'compute_spacing',replay=rep)
    for mu in range(nd):
        up=g.lin([ite(c_lt(x[m]+1-L[m]),x[m]+1,ZERO,'int') if m==mu else x[m] for m in range(nd)])
        dn=g.lin([ite(c_eq(x[m]),L[m]-1,x[m]-1,'int') if m==mu else x[m] for m in range(nd)])
        cases(ck,g,'gen_shift+%d'%mu,'gen_shift',[i,num(mu)],chk_ret(ex,up),'gen_shift',replay=rep)
        cases(ck,g,'gen_shift-%d'%mu,'gen_shift',[i,num(-mu-1)],chk_ret(ex,dn),'gen_shift',replay=rep)
    o=iobj('o',[None]*nd,nd)
    ih=ZERO; sv=ONE
    for m in list(range(nd-2,-1,-1))+[nd-1]: ih=ih+x[m]*sv; sv=sv*L[m]
    cases(ck,g,'get_mom_2piBZ_hirep2','get_mom_2piBZ_hirep2',[Ptr(o),ih],chk_vec(ex,o,x),'get_mom_2piBZ_hirep2',replay=rep)
    # physical momenta
    tw=[T.div(num(2*math.pi),l) for l in L]
    n=[sym('n%d'%m,'int') for m in range(nd)]
    for D in (nd-1,nd):
        s=D if D<nd else None; iD=g.lin(x,s); tg=',dims=%d'%D
        on=iobj('n',n,nd); op=robj('p',[None]*nd)
        def chk(st,rv,bump=ZERO,op=op,D=D):
            for m in range(nd):
                a=getr(ex,st,op,m); b=(mom(ex,n[m],tw[m]) if m<D else ZERO)+(bump if m==0 else ZERO)
                if not (same(a,b) or equal(a,b) is True): return 'p[%d]=%s expected %s'%(m,show(a)[:150],show(b)[:150])
        cases(ck,g,'compute_p'+tg,'compute_p',[Ptr(op),Ptr(on),num(D)],chk,'compute_p',replay=rep)
        kc=ZERO
        for m in range(D): kc=kc+T.cos(x[m]*tw[m])
        def chk2(st,rv,bump=ZERO,D=D,kc=kc):
            b=(num(D)-kc)*2+bump
            return None if all(same(v,ONE+bump if ex.prove(st,c_eq(kc-D),extra=cc) else b) or equal(v,b) is True for cc,v in ex.resolved(st,rv)) else 'returned %s expected %s'%(show(rv)[:200],show(b)[:200])
        cases(ck,g,'gen_p_sq'+tg,'gen_p_sq',[iD,num(D)],chk2,'gen_p_sq',replay=rep)
        op2=robj('p',[None]*nd)
        def chk3(st,rv,bump=ZERO,op=op2,D=D):
            for m in range(nd):
                a=getr(ex,st,op,m); b=(mom(ex,x[m]-h[m],tw[m]) if m!=D else ZERO)+(bump if m==0 else ZERO)
                if not (same(a,b) or equal(a,b) is True): return 'p[%d]=%s expected %s'%(m,show(a)[:150],show(b)[:150])
        cases(ck,g,'gen_get_p'+tg,'gen_get_p',[Ptr(op2),iD,num(D)],chk3,'gen_get_p',replay=rep)
    of=iobj('flag',[None],1)
    kc=ZERO
    for m in range(nd): kc=kc+T.cos(x[m]*tw[m])
    def chk4(st,rv,bump=ZERO):
        b=(num(nd)-kc)*2+bump
        if not all(same(v,ONE+bump if ex.prove(st,c_eq(kc-nd),extra=cc) else b) or equal(v,b) is True for cc,v in ex.resolved(st,rv)): return 'returned %s'%show(rv)[:200]
        c=True
        for m in range(nd-1): c=c_and(c,c_eq(x[m]))
        fl=geti(ex,st,of,0)
        return None if ex.int_equal(st,fl,ite(c,ONE,ZERO,'int')) else 'flag %s'%show(fl)[:200]
    cases(ck,g,'gen_p_sq_feyn','gen_p_sq_feyn',[i,Ptr(of)],chk4,'gen_p_sq_feyn',replay=rep)
def navig(ck,cfg):
    ex=Exec(cfg); ex.load_all(['Geometry/init.c']); w=World(ex); nd=w.nd
    nm='init_navig[%s]'%cfg; rep=lambda: native_geo(ck,cfg)
    def c_shift(ex_,st,a,I):
        d=sgn(a[1].const(),32); mu=d if d>=0 else -d-1
        if not 0<=mu<nd: raise Violation('gen_shift called with direction %d'%d)
        return [(st,site(a[0],*unit(mu,nd,1 if d>=0 else -1)))]
    def go():
        ex.contracts['gen_shift']=c_shift
        o=Obj('lat',None,None,ext=True); o.stride0=w.ssize
        o.init=lambda ex_,st,idx,inner,ty,size: sym('garbage_%d'%inner,'int')
        outs=ex.call(ex.fn('init_navig'),[Ptr(o)],State())
        j=sym('j','int')
        fo={k:v[0] for k,v in w.sfields.items()}
        for n,(st,rv) in enumerate(outs):
            st.pc=st.pc+(c_le(-j),c_lt(j-w.V))
            for f,s in (('neighbor',1),('back',-1)):
                for mu in range(nd):
                    v=ex.read(st,Ptr(o,(),j*w.ssize+fo[f]+8*mu),('i',64),None)
                    ok=same(ex.asint(v),w.nbr(mu,j,s))
                    ck.ob('%s/%s%d/path%d'%(nm,f,mu,n),ok,'init_navig','' if ok else 'table entry is %s'%show(ex.asint(v))[:200],replay=rep)
                    if mu==0: ck.canary(nm,not same(ex.asint(v),w.nbr(1,j,s)))
    ck.guard(nm,go,'init_navig',replay=rep); ck.use(ex)
    nm='init_latt[%s]'%cfg
    def go2():
        ex=Exec(cfg); ex.load_all(['Geometry/init.c']); w=World(ex)
        ex.contracts['compute_pertinent_indices']=lambda ex_,st,a,I:[(st,None)]
        lo=w.latt; off={k:v[0] for k,v in w.fields.items()}
        st=State()
        outs=ex.call(ex.fn('init_latt'),[],st)
        for n,(st,rv) in enumerate(outs):
            for f,wv in (('Volume',w.V),('Lcu',w.Lcu),('Lsq',w.Lsq)):
                if f=='Lsq' and nd<3: continue
                v=ex.asint(ex.read(st,Ptr(lo).plus(off[f]),('i',64),None))
                written=any(off[f] in g_.cells for g_ in st.mem[lo.id].groups)
                ck.ob('%s/%s'%(nm,f),same(v,wv) and written,'init_latt','' if same(v,wv) and written else '%s set to %s'%(f,show(v)),replay=rep)
            for m in range(nd):
                v=ex.asfp(ex.read(st,Ptr(lo).plus(off['twiddles']+8*m),DBL,None)); wv=T.div(num(2*math.pi),w.L[m])
                written=any(off['twiddles']+8*m in g_.cells for g_ in st.mem[lo.id].groups)
                ck.ob('%s/twiddle%d'%(nm,m),(same(v,wv) or equal(v,wv) is True) and written,'init_latt','' if same(v,wv) else show(v)[:200],replay=rep)
    ck.guard(nm,go2,'init_latt',replay=rep)
# ------------------------------------------------------------------ replay on the real code
def native_geo(ck,cfg):
    import nlat, itertools
    import numpy as np
    C=nlat.C
    nd=build.NDOF[cfg]
    def f(s):
        L=s.L
        for n in ('gen_site','get_site_2piBZ','get_site_pipiBZ','gen_shift','compute_rsq','compute_spacing'): getattr(L,n).restype=C.c_size_t
        for n in ('gen_p_sq','gen_p_sq_feyn'): getattr(L,n).restype=C.c_double
        iv=lambda v=(0,)*8: (C.c_int*nd)(*list(v)[:nd]); dv=lambda: (C.c_double*nd)()
        z=C.c_size_t; dims=s.dims
        def bad(fn,args,got,want):
            return dict(function=fn,config=cfg,dims=str(dims),arguments=str(args),got=str(got),expected=str(want))
        nm=(lambda n,l: 2*math.sin(math.pi*n/l)) if sin_mom(cfg) else (lambda n,l: 2*math.pi*n/l)
        cen=lambda v,l: v if v<l-l//2 else v-l
        lat=s.lat(); U=C.cast(lat,C.POINTER(C.c_size_t)); W=1+2*nd
        # size of struct site may be padded
        for D in range(nd+1):
            keep=[m for m in range(nd) if m!=D]
            vol=int(np.prod([dims[m] for m in keep]))
            for i in range(vol):
                x=[0]*nd; r=i
                for m in keep: x[m]=r%dims[m]; r//=dims[m]
                lin=lambda y: sum(y[m]*int(np.prod([dims[k] for k in range(m)])) for m in range(nd))
                o=iv(); ret=L.get_mom_2piBZ(o,z(i),z(D))
                if list(o)!=x or ret!=sum(x): return bad('get_mom_2piBZ',(i,D),(list(o),ret),(x,sum(x)))
                o=iv(); L.get_mom_pipi(o,z(i),z(D)); w=[0 if m==D else x[m]-dims[m]//2 for m in range(nd)]
                if list(o)!=w: return bad('get_mom_pipi',(i,D),list(o),w)
                if D<nd-1: continue
                o=iv(); L.TwoPI_mpipi_momconv(o,z(i),z(D)); w=[0 if m==D else cen(x[m],dims[m]) for m in range(nd)]
                if list(o)!=w: return bad('TwoPI_mpipi_momconv',(i,D),list(o),w)
                linD=lambda y: lin([0 if m==D else y[m] for m in range(nd)])
                # get_site_* index the full lattice with the skipped direction at zero
                a=L.get_site_2piBZ(iv(x),z(D)); w=linD([cen(x[m],dims[m])+dims[m]//2 for m in range(nd)])
                if a!=w: return bad('get_site_2piBZ',(x,D),a,w)
                y=[x[m]-dims[m]//2 for m in range(nd)]; a=L.get_site_pipiBZ(iv(y),z(D)); w=linD([v%d for v,d in zip(y,dims)])
                if a!=w: return bad('get_site_pipiBZ',(y,D),a,w)
                a=L.gen_site(iv(x)); 
                if a!=lin(x): return bad('gen_site',x,a,lin(x))
                o=iv(); L.get_vec_from_origin(o,z(i),z(D)); w=[(x[m]-dims[m] if x[m]>dims[m]//2 else x[m]) if m<D else 0 for m in range(nd)]
                if list(o)!=w: return bad('get_vec_from_origin',(i,D),list(o),w)
                a=L.compute_rsq(z(i),z(D))
                if a!=sum(v*v for v in w): return bad('compute_rsq',(i,D),a,sum(v*v for v in w))
                sep=[ck_rng.randrange(-d+1,d) for d in dims]
                a=L.compute_spacing(iv(sep),z(i),z(D)); w=lin([(x[m]+sep[m])%dims[m] if m<D else 0 for m in range(nd)])
                if a!=w: return bad('compute_spacing',(sep,i,D),a,w)
                p=dv(); L.compute_p(p,iv(x),z(D)); w=[nm(x[m],dims[m]) if m<D else 0 for m in range(nd)]
                if not np.allclose(list(p),w): return bad('compute_p',(x,D),list(p),w)
                p=dv(); L.gen_get_p(p,z(i),z(D)); w=[nm(x[m]-dims[m]//2,dims[m]) if m!=D else 0 for m in range(nd)]
                if not np.allclose(list(p),w): return bad('gen_get_p',(i,D),list(p),w)
                a=L.gen_p_sq(z(i),z(D)); w=sum(4*math.sin(math.pi*x[m]/dims[m])**2 for m in range(D)); w=w if any(x[m] for m in range(D)) else 1.0
                if abs(a-w)>1e-9: return bad('gen_p_sq',(i,D),a,w)
                if D==nd:
                    fl=C.c_int(); a=L.gen_p_sq_feyn(z(i),C.byref(fl)); wf=0 if any(x[:nd-1]) else 1
                    if abs(a-w)>1e-9 or fl.value!=wf: return bad('gen_p_sq_feyn',i,(a,fl.value),(w,wf))
                    for m in range(nd):
                        for dr,sg in ((m,1),(-m-1,-1)):
                            a=L.gen_shift(z(i),dr); y=list(x); y[m]=(y[m]+sg)%dims[m]
                            if a!=lin(y): return bad('gen_shift',(i,dr),a,lin(y))
                    h=list(range(nd-2,-1,-1))+[nd-1]; ih=0; sv=1
                    for m in h: ih+=x[m]*sv; sv*=dims[m]
                    o=iv(); L.get_mom_2piBZ_hirep2(o,z(ih))
                    if list(o)!=x: return bad('get_mom_2piBZ_hirep2',ih,list(o),x)
                    tab=s.table(lat,i)
                    w=[i+(((x[m]+1)%dims[m])-x[m])*s.strides[m] for m in range(nd)]+[i+(((x[m]-1)%dims[m])-x[m])*s.strides[m] for m in range(nd)]
                    if tab!=w: return bad('init_navig',i,tab,w)
        if s.L.gl_volume()!=s.V: return bad('init_latt','Volume',s.L.gl_volume(),s.V)
        return None
    import random; ck_rng=random.Random(ck.seed)
    for dims in ([4,3,2,5],[2,5,3,4],[6,4,3,2],[1,4,2,3]):
        r=nlat.session(cfg,f,dims=dims[:nd])
        if r is None: continue
        if isinstance(r,tuple): return dict(kind=str(r),function='geometry',config=cfg,dims=str(dims[:nd]))
        if r: return r
    return None
