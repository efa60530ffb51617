"""Lattice-level memory model: the global Latt, gauge fields (struct site arrays), matrix fields, neighbour tables.

site(b,d): the site reached from b by the displacement d on the periodic lattice.  The neighbour tables are taken to hold
site(i,+-mu) - that the initialisation code establishes exactly this is proved separately (property on geometry)."""
from matfn import *
import re as _re

def struct_fields(name):
    t=open(build.REPO+'/src/Headers/GLU_types.h').read()
    t=_re.sub(r'/\*.*?\*/','',t,flags=_re.S); t=_re.sub(r'//[^\n]*','',t)
    m=_re.search(r'struct\s+%s\s*\{(.*?)\}\s*;'%name,t,_re.S)
    if not m: raise Unsupported('struct '+name+' not found')
    body=m.group(1)
    out=[]
    lines=body.split('\n'); keep=True; stack=[]
    for l in lines:
        l=l.strip()
        if l.startswith('#ifdef HAVE_FFTW3_H') : stack.append(keep); continue
        if l.startswith('#else'): keep=not keep; continue
        if l.startswith('#endif'): keep=stack.pop() if stack else True; continue
        if not keep: continue
        for d in l.split(';'):
            d=d.strip()
            if not d: continue
            mm_=_re.findall(r'([A-Za-z_]\w*)\s*(?:\[[^\]]*\])?\s*(?:,|$)',d)
            out+=[x for x in mm_]
    return out
def find_type(ex,name):
    for m in ex.mods.values():
        for k in ('%struct.'+name,'struct.'+name):
            if k in m.types: return m.types[k],m
    raise Unsupported('type struct.%s not found'%name)
def field_offsets(ex,name):
    t,m=find_type(ex,name)
    f=struct_fields(name)
    t=resolve(t,m)
    # anonymous padding may appear in IR types only for packed structs; field counts must agree
    if len(f)!=len(t[1]): raise Unsupported('struct %s: %d declared fields, %d in IR'%(name,len(f),len(t[1])))
    return {n:(foffset(t,i,m),t[1][i]) for i,n in enumerate(f)},tsize(t,m)

def su_field(name,n):
    """SU(n)-valued field: name_j(args) are the entries, every instance carries the relations of the group"""
    nm=lambda j: '%s_%d'%(name,j)
    inst={}
    def get(*args):
        args=tuple(P(a) for a in args); k=tuple(a.key() for a in args)
        if k not in inst:
            inst[k]=None
            at=[app(nm(j),args,'cplx') for j in range(2 if n==2 else n*n)]
            inst[k]=[aid(x) for x in at]
            su_rules(at,n)
        at=[Poly({(x,):1},True) for x in inst[k]]
        return [at[0],at[1],-at[1].conj(),at[0].conj()] if n==2 else at
    def hook(args):
        k=tuple(a.key() for a in args)
        if k not in inst: get(*args)
    for j in range(2 if n==2 else n*n): T.HOOK[nm(j)]=hook
    return get
# ---------------- sites
def site(b,*d):
    b=P(b)
    d=tuple(int(P(x).const()) if isinstance(x,Poly) else int(x) for x in d)
    a=app_single(b)
    if a is not None and a.kind=='app' and a.name=='site':
        d=tuple(x+y for x,y in zip(d,a.args[1])); b=a.args[0]
    if not any(d): return b
    return app('site',(b,d),'int')
def _site_smart(b,d): return site(b,*d)
SMART['site']=_site_smart
def unit(mu,nd,s=1): return tuple(s if i==mu else 0 for i in range(nd))
def nbr(mu,i,nd,s=1): return site(i,*unit(mu,nd,s))

def solve_site(w,j,v):
    """invert w=site(v,d)"""
    a=app_single(w)
    if a is not None and a.name=='site' and a.kind=='app':
        b=app_single(a.args[0])
        if b is not None and b.id==v: return site(j,*[-x for x in a.args[1]])
    return None
import exec as _X
INJ=set()   # functions injective in their last argument
X_UNDEF=_X.UNDEF
_old_solve=_X.solve_linear
def _solve(w,j,free,rng,ex,st):
    if len(free)==1:
        r=solve_site(w,j,free[0])
        if r is not None: return {free[0]:r}
        a,b=app_single(w),app_single(j)
        if a is not None and b is not None and a.kind=='app' and b.kind=='app' and a.name==b.name and a.name in INJ and all(same(x,y) for x,y in zip(a.args[:-1],b.args[:-1])):
            if same(a.args[-1],Poly({(free[0],):1})): return {free[0]:b.args[-1]}
    return _old_solve(w,j,free,rng,ex,st)
_X.solve_linear=_solve

class World:
    """Latt and its invariants, for one configuration"""
    def __init__(w,ex,evendims=False):
        w.ex=ex; nd=w.nd=ex.ND; w.n=ex.NC
        w.L=[sym('L%d'%i,'int') for i in range(nd)]
        w.V=ONE
        for l in w.L: w.V=w.V*l
        w.Lcu=ONE
        for l in w.L[:-1]: w.Lcu=w.Lcu*l
        w.Lsq=ONE
        for l in w.L[:-2]: w.Lsq=w.Lsq*l
        w.Nth=sym('Nthreads','int')
        w.fields,w.size=field_offsets(ex,'latt_info')
        ex.facts+= [c_le(1-l) for l in w.L]+[c_le(1-w.Nth),c_le(1-w.V),c_le(1-w.Lcu),c_le(1-w.Lsq),c_le(w.Lcu-w.V)]
        ex.pos|={aid(l) for l in w.L}|{aid(w.Nth)}
        ex.bounds['site']=lambda b,d: [c_le(-site(b,*d)),c_lt(site(b,*d)-w.V)]
        w.vals={'Volume':w.V,'Lcu':w.Lcu,'Lsq':w.Lsq,'Nthreads':w.Nth}
        o=Obj('@Latt',None,num(w.size),ext=True); w.latt=o
        def init(ex,st,idx,inner,ty,size):
            if idx:
                S=st.ostate(o).stride
                if not idx[0].is_const():
                    # dims[mu] with symbolic mu
                    raise Unsupported('symbolic index into Latt')
                inner=idx[0].const()*S+inner
            for n,(off,t) in w.fields.items():
                sz=tsize(t,None) if t[0]!='named' else 8
                if off<=inner<off+sz:
                    r=inner-off
                    if n=='dims': return w.L[r//8]
                    if n=='twiddles': return T.div(num(2*math.pi),w.L[r//8])
                    if n in w.vals: return w.vals[n]
                    if n=='su2_data' or ty[0]=='ptr': return ex.atom_for('Latt.'+n,(),r,ty,size)
                    return ex.atom_for('Latt.'+n,(),r,ty,size) if ty[0] not in('double','float') else sym('Latt.%s.%d'%(n,r//8))
            raise Unsupported('Latt offset %d'%inner)
        o.init=init
        # canonical object for every module
        ex.globals['Latt']=o
        w.sfields,w.ssize=field_offsets(ex,'site')
        w._fields={}
    def U(w,name='lat'):
        """gauge field spec: U(i,mu) -> matrix of Polys"""
        n=w.n
        def u(i,mu):
            return [app('%s_%d'%(name,j),(P(i),P(mu)),'cplx') for j in range(n*n)]
        return u
    def lat(w,name='lat',gen=None,nmat=None):
        """a struct site array; returns Ptr"""
        nd=w.nd; n=w.n; u=gen or w.U(name)
        data=Obj(name+'.U',None,num(16*n*n),ext=True)
        def dinit(ex,st,idx,inner,ty,size):
            if len(idx)==3:
                inner=idx[2].const()*st.ostate(data).stride+inner
            z=u(idx[0],idx[1])[inner//16]
            return T.re(z) if inner%16==0 else T.im(z)
        data.init=dinit
        ptrs=Obj(name+'.O',None,None,ext=True); ptrs.stride0=8
        def pinit(ex,st,idx,inner,ty,size): return Ptr(data,(idx[0],idx[1]))
        ptrs.init=pinit
        o=Obj(name,None,None,ext=True); o.stride0=w.ssize
        fo={k:v[0] for k,v in w.sfields.items()}
        def init(ex,st,idx,inner,ty,size):
            i=idx[0]
            if len(idx)>1: inner=idx[1].const()*st.ostate(o).stride+inner
            if inner==fo['O']: return Ptr(ptrs,(i,))
            if fo['neighbor']<=inner<fo['neighbor']+8*nd: return w.nbr((inner-fo['neighbor'])//8,i,1,st)
            if fo['back']<=inner<fo['back']+8*nd: return w.nbr((inner-fo['back'])//8,i,-1,st)
            raise Unsupported('site offset')
        o.init=init
        o.tag={'data':data,'ptrs':ptrs,'u':u}
        return Ptr(o)
    slices=False
    def slice_mode(w):
        """sites are written Lcu*t+b with 0<=b<Lcu; the periodic successor and predecessor of a time slice is tmod(t+-1)"""
        w.slices=True; w.rmemo={}; w.ract={}; ex=w.ex; Tt=w.L[-1]; ex.fact_cache.clear(); ex.clo_cache.clear(); ex.smt_cache.clear()
        def tb(p):
            a=app('tmod',(p,),'int')
            return [c_le(-a),c_lt(a-Tt),c_or(c_or(c_lt(p),c_le(Tt-p)),c_eq(a-p)),c_or(c_or(c_le(-p),c_lt(p+Tt)),c_eq(a-p-Tt)),c_or(c_or(c_lt(p-Tt),c_le(2*Tt-p)),c_eq(a-p+Tt))]
        ex.bounds['tmod']=tb
        ex.bounds['shi']=lambda p: [c_le(-app('shi',(p,),'int')),c_lt(app('shi',(p,),'int')-Tt),c_eq(w.Lcu*app('shi',(p,),'int')+app('slo',(p,),'int')-p)]
        ex.bounds['slo']=lambda p: [c_le(-app('slo',(p,),'int')),c_lt(app('slo',(p,),'int')-w.Lcu)]
        def sb(b,d):
            x=site(b,*d); o=[c_le(-x),c_lt(x-w.V)]
            if not d[-1]: o.append(c_or(c_or(c_lt(b),c_le(w.Lcu-b)),c_lt(x-w.Lcu)))
            return o
        ex.bounds['site']=sb
        ex.idxnorm=lambda st,p: w.renorm(st,p) if any(ATOMS[a].name in('tmod','shi','slo') for x in p.atoms() for a in support(x)) else p
        ex.split=lambda st,p: w.split(p,st,soft=True)
        def rs(st,q,hi):
            slc=same(hi,w.Lcu); vol=same(hi,w.V)
            if not slc and not vol: return None
            r=w.split(q,st,soft=True)
            if r is None: return None
            return c_eq(r[0]) if slc else c_and(c_le(-r[0]),c_lt(r[0]-Tt))
        ex.rangesplit=rs
        # Lcu*a+b=Lcu*a'+b' with the low digits in range iff the digits agree; V=Lcu*T
    def split(w,i,st,soft=False):
        i=P(i); t=ZERO; b=ZERO
        for m,c in i.d.items():
            x=Poly({m:c}); q=idiv(x,w.Lcu)
            if same(q*w.Lcu,x): t=t+q
            else: b=b+x
        r=b
        while True:
            a=app_single(r)
            if a is not None and a.kind=='app' and a.name=='site' and not a.args[1][-1]: r=a.args[0]
            else: break
        if r.d and not w.ex.prove(st,c_and(c_le(-r),c_lt(r-w.Lcu))):
            if soft: return None
            raise Unsupported('site index %s is not of the form slice + position'%show(i))
        return t,b
    def tmod(w,p,st):
        p=P(p)
        while True:
            x=[a for a in p.atoms() if ATOMS[a].name=='tmod']
            if not x: break
            p=substm(p,{x[0]:ATOMS[x[0]].args[0]})
        Tt=w.L[-1]
        if st is not None:
            if p.is_const() or same(p-p.const(),Tt) or True:
                for q in (p,p+Tt,p-Tt):
                    if w.ex.prove(st,c_and(c_le(-q),c_lt(q-Tt))): return q
        return app('tmod',(p,),'int')
    def renorm(w,st,p,sb=None):
        """resolve wrapped slices and case distinctions that the path condition decides"""
        if not p.d: return p
        key=(tuple(ckey(c) for c in st.pc),tuple((x,v.key()) for x,v in sorted(sb.items())) if sb else ())
        memo=w.rmemo.get(key)
        if memo is None:
            if len(w.rmemo)>100: w.rmemo.clear()
            memo=w.rmemo[key]={}
        sb=sb or {}
        def active(x):
            r=w.ract.get(x)
            if r is None: r=w.ract[x]=any(ATOMS[y].kind=='ite' or ATOMS[y].name in('tmod','shi','slo') for y in support(x))
            return r or (sb and any(y in support(x) for y in sb))
        def go(g):
            if type(g) is Poly: return T.mapatoms(g,ga)
            if isinstance(g,tuple): return tuple(go(x) for x in g)
            return g
        def ga(x):
            r=memo.get(x)
            if r is not None: return r
            if x in sb: r=sb[x]
            elif not active(x): r=T.Poly({(x,):1},x in T.SPECIAL)
            else:
                A=ATOMS[x]; args=memo.get(id(A.args))
                if args is None: args=memo[id(A.args)]=tuple(go(g) for g in A.args)
                if A.kind=='ite':
                    c=args[0]; c=_X.simp_cond(c) if isinstance(c,tuple) else c
                    if c is True or (isinstance(c,tuple) and w.ex.prove(st,c)): r=args[1]
                    elif c is False or (isinstance(c,tuple) and w.ex.prove(st,c_not(c))): r=args[2]
                    else: r=T.rebuild(A,(c,)+args[1:])
                elif A.kind=='app' and A.name=='tmod': r=w.tmod(args[0],st)
                elif A.kind=='app' and A.name in('shi','slo'):
                    h=w.split(args[0],st,soft=True)
                    r=h[A.name=='slo'] if h is not None else T.rebuild(A,args)
                else: r=T.rebuild(A,args)
                if sb and A.kind=='app' and A.name in('tmod','shi','slo'): r=substm(r,sb)
            memo[x]=r
            return r
        return go(p)
    def nbr(w,mu,i,s=1,st=None):
        if not w.slices: return nbr(mu,i,w.nd,s)
        r=w.split(i,st,soft=True)
        if r is None:
            a=app_single(P(i))
            if a is None or a.kind not in('sym','app'): raise Unsupported('site index %s is not of the form slice + position'%show(i))
            # an arbitrary site: its slice number and position in the slice
            r=(app('shi',(P(i),),'int'),app('slo',(P(i),),'int'))
        t,b=r
        if mu==w.nd-1: return w.Lcu*w.tmod(t+s,st)+b
        return w.Lcu*t+nbr(mu,b,w.nd,s)
    def slat(w,name,count,nent=None,gen=None):
        """a struct s_site array of the given length; contents undefined unless gen(i,mu) gives them"""
        n2=nent or w.n*w.n
        data=Obj(name+'.U',None,num(16*n2),ext=True)
        def dinit(ex,st,idx,inner,ty,size):
            if gen is None: return X_UNDEF
            if len(idx)==3: inner=idx[2].const()*st.ostate(data).stride+inner
            z=gen(idx[0],idx[1])[inner//16]
            return T.re(z) if inner%16==0 else T.im(z)
        data.init=dinit
        ptrs=Obj(name+'.O',None,None,ext=True); ptrs.stride0=8
        ptrs.init=lambda ex,st,idx,inner,ty,size: Ptr(data,(idx[0],idx[1]))
        o=Obj(name,None,None,ext=True); o.stride0=8
        def init(ex,st,idx,inner,ty,size):
            if not ex.prove(st,c_and(c_le(-idx[0]),c_lt(idx[0]-count))): raise Violation('index %s outside the %s elements of %s'%(show(idx[0]),show(count),name))
            return Ptr(ptrs,(idx[0],))
        o.init=init
        o.tag={'data':data,'ptrs':ptrs,'count':count}
        return Ptr(o)
    def matfield(w,name,gen=None,count=1,n2=None):
        """GLU_complex ** : one matrix per site"""
        n2=n2 or w.n*w.n
        g=gen or (lambda i: [app('%s_%d'%(name,j),(P(i),),'cplx') for j in range(n2)])
        data=Obj(name+'.m',None,num(16*n2),ext=True)
        def dinit(ex,st,idx,inner,ty,size):
            if len(idx)==2: inner=idx[1].const()*st.ostate(data).stride+inner
            z=g(idx[0])[inner//16]
            return T.re(z) if inner%16==0 else T.im(z)
        data.init=dinit
        o=Obj(name,None,None,ext=True); o.stride0=8
        o.init=lambda ex,st,idx,inner,ty,size: Ptr(data,(idx[0],))
        o.tag={'data':data,'g':g}
        return Ptr(o)
    def getU(w,st,lat,i,mu):
        """matrix U_mu(i) in state st"""
        d=lat.obj.tag['data']
        return getm(w.ex,st,Ptr(d,(P(i),P(mu))),w.n*w.n)
    def getM(w,st,f,i,n2=None):
        return getm(w.ex,st,Ptr(f.obj.tag['data'],(P(i),)),n2 or w.n*w.n)
def gen_site_atom(): return sym('x','int')
