"""Site colouring used by the parallel updates."""
from smear import *
import itertools
CFGS=['nc3','nc5nd3']
SRC=['Geometry/']
DIMS=([4,2,4,2],[2,4,3,6],[3,2,5,4],[7,3,2,2],[2,1,4,3],[1,3,1,2],[2,2,7,1])
def jobs(): return [(c,d,p) for c in CFGS for d in ((0,1) if c=='nc3' else (0,)) for p in reversed(range((5 if c=='nc3' else 4)-d))]
def run(ck): ck.par(jobs(),one)
def one(ck,job):
    cfg,less,part=job; rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='colouring',dims=DIMS)
    tag='[%s],%s'%(cfg,'slice' if less else 'lattice')
    ck.guard('init_cb'+tag,lambda: colouring(ck,cfg,less,part,rep,tag),'init_cb',replay=rep)
def colouring(ck,cfg,less,part,rep,tag):
    ex=Exec(cfg); ex.load_all(['Geometry/draughtboard.c','Geometry/geometry.c','Geometry/init.c']); w=World(ex); nd=w.nd
    f=ex.fn('init_cb')
    if f is None: raise Unsupported('function init_cb not found')
    dirs=nd-less; x=[sym('x%d'%m,'int') for m in range(dirs)]
    for m in range(dirs): ex.digits[aid(x[m])]=w.L[m]
    site=ZERO; s_=ONE
    for m in range(dirs): site=site+x[m]*s_; s_=s_*w.L[m]
    LEN=s_; off,size=field_offsets(ex,'draughtboard')
    cnt=lambda k,i: app('count%d'%k,(i,),'int')
    for k in range(3): ex.bounds['count%d'%k]=lambda p,k=k: [c_le(-cnt(k,p))]
    # arrays from malloc
    sizes={}
    def mal(ex_,st,a,I):
        o=Obj('array@%s.%d'%(I.line,len(st.flags.get('mallocs',()))),None,ex_.asint(a[0])); o.stride0=8
        st.flags=dict(st.flags); st.flags['mallocs']=st.flags.get('mallocs',())+(o,); return [(st,Ptr(o))]
    ex.contracts['malloc']=mal
    db=Obj('db',None,num(size),ext=True); P64=('i',64)
    fld=lambda st,n,ty: ex.read(st,Ptr(db).plus(off[n][0]),ty,None)
    nsq=lambda st,k: ex.asint(ex.read(st,fld(st,'Nsquare',('ptr',)).plus(num(8)*k),P64,None))
    sqp=lambda st,k: ex.read(st,fld(st,'square',('ptr',)).plus(num(8)*k),('ptr',),None)
    def setn(st,k,v): ex.write(st,fld(st,'Nsquare',('ptr',)).plus(num(8)*k),v,P64,None)
    # a computed colour enters the bookkeeping as a symbol known only to be a colour; its definition is put back below
    defs={}; names={}
    def opaque(st,v):
        if not isinstance(v,Poly) or not any(ATOMS[q].kind=='ite' or ATOMS[q].name=='ite' for m in v.d for q in m): return v
        k=v.key()
        if k not in names:
            for n in (2,3):
                if ex.prove(st,c_le(-v)) and ex.prove(st,c_lt(v-n)): break
            else: return v
            q=sym('colour%d'%len(names),'int'); names[k]=q; ex.digits[aid(q)]=num(n); defs[aid(q)]=v
        return names[k]
    ex.on_return=opaque
    def attempt(stage):
        """stage 0: one site of the counting loop; 1: counting done, one site of the recording loop; 2: both done"""
        back=[]
        def cut(ex_,st,fr,h,env):
            ph=phis_in(ex_,fr,h,env); vis=st.flags.get('loops',())
            body=fr.f.loops[h]['body']
            if h in vis:
                if st.flags.get('one')==h: back.append((st,ph)); return False
                return None
            isl=False
            for b in body:
                for I in fr.f.blocks[b].instrs:
                    if I.op=='icmp':
                        for v in I.args:
                            try: q=ex_.val(v,('i',64),env,fr)
                            except Exception: continue
                            if isinstance(q,Poly) and same(q,LEN): isl=True
            if not isl: return None
            if len(ph)!=1 or not same(ph[0][2],ZERO): raise Unsupported('site loop not recognised')
            k=len(vis); st.flags=dict(st.flags); st.flags['loops']=vis+(h,)
            nc=ex_.asint(fld(st,'Ncolors',P64)).const()
            if nc is None: raise Unsupported('number of colours unknown')
            for c in range(nc):
                if not same(nsq(st,num(c)),ZERO): raise Violation('counter of colour %d is not zero before the sites are visited'%c)
            at=site if k==stage else LEN
            if k>stage: raise Unsupported('more loops over the sites than expected')
            for c in range(nc): setn(st,num(c),cnt(c,at))
            if k==stage: st.flags['one']=h; st.flags['at']={c:cnt(c,site) for c in range(nc)}; st.flags['nc']=nc
            return {ph[0][0]:at}
        st=State(); ex.cuts={'init_cb':cut}
        try: outs=ex.call(f,[Ptr(db),LEN,num(dirs)],st)
        finally: ex.cuts={}
        return back,outs
    def increments(back,stage):
        res=[]
        for st,ph in back:
            if not same(ph[0][2],site+1): raise Violation('the loop over the sites does not advance by one')
            def which(s):
                nc=s.flags['nc']; d=[nsq(s,num(c))-cnt(c,site) for c in range(nc)]; r=[]
                for q in d:
                    if ex.decide(s,c_eq(q)): r.append(0)
                    elif ex.decide(s,c_eq(q-1)): r.append(1)
                    else: raise Violation('a counter changes by %s'%show(q)[:100])
                if sum(r)!=1: raise Violation('%d counters advance for one site on %s'%(sum(r),cshow(s.pc)[:200]))
                return r.index(1)
            res+=[(s,k) for s,k in forks(ex,st,which,2000)]
        return res
    nm='init_cb'+tag
    # counting
    back,outs=attempt(0)
    if not back: raise Unsupported('no loop over the sites')
    A=increments(back,0)
    if part==dirs: ck.ob(nm+'/counts-each-site-once',True,'init_cb','%d cases'%len(A),replay=rep)
    # recording
    back,outs=attempt(1)
    if not back: raise Unsupported('no second loop over the sites')
    B=increments(back,1); ok=True; det=''
    for s,k in B:
        nc=s.flags['nc']; p=sqp(s,num(k)); o=s.flags['mallocs']
        if not any(p.obj is q for q in o) or p.off.d if hasattr(p.off,'d') else False: ok=False; det='list of colour %d is not an allocated array'%k; break
        if not same(p.obj.size,cnt(k,LEN)*8): ok=False; det='list of colour %d has %s bytes for %s entries'%(k,show(p.obj.size),show(cnt(k,LEN))); break
        v=ex.asint(ex.read(s,p.plus(cnt(k,site)*8),P64,None))
        if not ex.int_equal(s,v,site): ok=False; det='entry is %s'%show(v)[:200]; break
        for q in o:
            g=s.mem[q.id].groups if q.id in s.mem else []
            base={fld(s,'Nsquare',('ptr',)).obj,fld(s,'square',('ptr',)).obj}
            if q in base: continue
            if q is not p.obj and g: ok=False; det='another list is modified'; break
            if q is p.obj and len(g)!=1: ok=False; det='%d entries of the list are modified'%len(g); break
        if any(sqp(s,num(a)).obj is sqp(s,num(b)).obj for a in range(nc) for b in range(a)): ok=False; det='two colours share a list'
        if not ok: break
    if part==dirs or not ok: ck.ob(nm+'/records-each-site-once',ok,'init_cb',det,replay=rep)
    ck.canary(nm,bool(B) and not same(cnt(0,site),cnt(0,site)+1))
    # colours of a site and of its neighbours: case split over the classes of the extents and the position of the site
    kk=[sym('k%d'%m,'int') for m in range(dirs)]; yy=[sym('y%d'%m,'int') for m in range(dirs)]
    lo=lambda p: all(isinstance(c,int) and c>=0 for c in p.d.values()) and not any(aid(q) in m for m in p.d for q in x)
    def classes(m):
        """(extent, is it odd and >1) covering every extent >=1"""
        k=kk[m]; return [(2*k+2,False),(ONE,False),(6*k+3,True),(6*k+5,True),(6*k+7,True)]
    def places(m,L,pcs=None):
        """positions of a site: first of a length-one direction, the last site, any other (not distinguished where the colour does not)"""
        if pcs is not None and not same(L,ONE) and not any(depends(c,aid(kk[m])) for pc in pcs if pc is not None for c in pc): return [(x[m],None)]
        return [(ZERO,None)] if same(L,ONE) else [(L-1,None),(x[m],L-2-yy[m])]
    def shifts(m,L):
        """positions (site, forward neighbour): across the boundary, onto the last site, any other"""
        return [] if same(L,ONE) else [(L-1,ZERO,None),(L-2,L-1,None),(x[m],x[m]+1,L-3-yy[m])]
    lm={}
    def atL(pc,Ls):
        kL=tuple(q.key() for q in Ls); key=(id(pc),kL)
        if key not in lm:
            if kL not in lm: lm[kL]=Fold(lo,{},{aid(w.L[m]):Ls[m] for m in range(dirs)},defs)
            lm[key]=(lm[kL].conds(pc),pc)
        return lm[key][0]
    ckeys=lambda pc: None if pc is None else tuple(sorted(repr(ckey(c)) for c in pc))
    def sub(pc,Ls,X):
        q=atL(pc,Ls)
        if q is None: return None
        return Fold(lo,{aid(x[m]):X[m][-1] for m in range(dirs) if X[m][-1] is not None},{aid(x[m]):X[m][0] for m in range(dirs) if not same(X[m][0],x[m])}).conds(q)
    N=[sym('N%d'%k,'int') for k in range(3)]; tot={aid(cnt(k,LEN)):N[k] for k in range(3)}
    keep=lambda pc: csub(tuple(pc),tot)   # the final totals as symbols
    cA=[(keep(s.pc),k) for s,k in A]; cBs={nc:[(keep(s.pc),k) for s,k in B if s.flags['nc']==nc] for nc in (2,3)}; cB=cBs.get
    memo={}
    def empty(pc,Ls):
        if pc is None: return True
        key=tuple(sorted(map(repr,map(ckey,pc))))
        if key not in memo:
            st=State(); st.pc=pc; memo[key]=ex.infeasible(st,timeout=5000)
        return memo[key]
    done=set()
    def has_third(Ls,odd):
        """with an odd extent >1 the site at 2 on that axis was counted as the third colour"""
        for m in range(dirs):
            if odd[m]:
                X=[(num(2) if q==m else ZERO,None) for q in range(dirs)]
                if any(k==2 and sub(pc,Ls,X)==() for pc,k in cA): return True
        return False
    def lens(ms):
        for cl in itertools.product(*[classes(m) if m in ms else [(w.L[m],None)] for m in range(dirs)]): yield [c[0] for c in cl],[c[1] for c in cl]
    for nc in (2,3):
        Bp=cB(nc)
        if not Bp: ck.ob(nm+'/%d-colours'%nc,False,'init_cb','never used',replay=rep)
    if part==dirs:
        for nc in (2,3):
            ok=True; det=''; n=0
            for Ls,odd in lens(range(dirs)):
                extra=(c_le(1-N[2]),) if has_third(Ls,odd) else ()
                pcs=[atL(pc,Ls) for pc,k in cA+cB(nc)]; pk=tuple(map(ckeys,pcs))
                for X in itertools.product(*[places(m,Ls[m],pcs) for m in range(dirs)]):
                    key=(nc,bool(extra),pk,repr([show(q[0]) for q in X]))
                    if key in done: continue
                    done.add(key)
                    fa=[(sub(pc,Ls,X),k) for pc,k in cA]; fb=[(sub(pc,Ls,X),k) for pc,k in cB(nc)]; n+=1
                    for (pa,ka),(pb,kb) in itertools.product(fa,fb):
                        if ka==kb or pa is None or pb is None: continue
                        if not empty(merge(pa,pb)+extra,Ls): ok=False; det='colour %d when counted, %d when recorded for extents %s, site %s'%(ka,kb,[show(q) for q in Ls],[show(q[0]) for q in X]); break
                    if not ok: break
                if not ok: break
            ck.ob(nm+'/same-colour,%d'%nc,ok,'init_cb',det or '%d cases'%n,replay=rep,backend='z3')
    else:
        m=part
        for nc in (2,3):
            ok=True; det=''; n=0
            for Ls,odd in lens(range(dirs)):
                extra=(c_le(1-N[2]),) if has_third(Ls,odd) else ()
                pcs=[atL(pc,Ls) for pc,k in cB(nc)]; pk=tuple(map(ckeys,pcs))
                for X in itertools.product(*[places(q,Ls[q],pcs) if q!=m else shifts(q,Ls[q]) for q in range(dirs)]):
                    key=(nc,bool(extra),pk,repr([[show(q) for q in a[:-1]] for a in X]))
                    if key in done: continue
                    done.add(key); X0=list(X); X1=list(X)
                    X0[m]=(X[m][0],X[m][2]); X1[m]=(X[m][1],X[m][2]); n+=1
                    fa=[(sub(pc,Ls,X0),k) for pc,k in cB(nc)]; fb=[(sub(pc,Ls,X1),k) for pc,k in cB(nc)]
                    for (pa,ka),(pb,kb) in itertools.product(fa,fb):
                        if ka!=kb or pa is None or pb is None: continue
                        if not empty(merge(pa,pb)+extra,Ls): ok=False; det='site %s and its neighbour in direction %d share colour %d for extents %s'%([show(q[0]) for q in X0],m,ka,[show(q) for q in Ls]); break
                    if not ok: break
                if not ok: break
            ck.ob(nm+'/neighbours-differ,%d,mu=%d'%(nc,m),ok,'get_midx',det or '%d cases'%n,replay=rep,backend='z3')
        ck.use(ex); return
    # result
    back,outs=attempt(2); good=0; ok=True; det=''
    for st,rv in outs:
        nc=ex.asint(fld(st,'Ncolors',P64)).const()
        empty=any(ex.prove(st,c_eq(cnt(c,LEN))) for c in range(nc))
        if empty: ok=ok and same(rv,num(-1)); det='an empty colour is not reported'
        elif not same(rv,ZERO): ok=False; det='does not report success on %s'%cshow(st.pc)[:200]
        else:
            good+=1
            for c in range(nc):
                if not ex.int_equal(st,nsq(st,num(c)),cnt(c,LEN)): ok=False; det='number of sites of colour %d'%c
    ck.ob(nm+'/result',ok and good>0,'init_cb','' if ok else det,replay=rep); ck.use(ex)
def merge(a,b):
    seen=set(); r=[]
    for c in tuple(a)+tuple(b):
        k=ckey(c)
        if k not in seen: seen.add(k); r.append(c)
    return tuple(r)
def csub(c,mp):
    if not isinstance(c,tuple): return c
    return tuple(substm(q,mp) if type(q) is Poly else csub(q,mp) if isinstance(q,tuple) else q for q in c)
def depends(c,a):
    if isinstance(c,tuple): return any(depends(q,a) for q in c)
    return type(c) is Poly and any(adepends(b,{a}) for m in c.d for b in m)
class Fold:
    """evaluates the conditions and integer divisions that the class of the extents decides"""
    def __init__(s,nonneg,alt={},mp={},defs={}): s.nn0=nonneg; s.alt=alt; s.defs=defs; s.am=dict(mp)
    def nn(s,p): return s.nn0(substm(p,s.alt) if s.alt else p)
    def poly(s,p):
        im={}; ch=False
        for mn in p.d:
            for a in mn:
                if a not in im:
                    im[a]=s.atom(a); ch=ch or not same(im[a],Poly({(a,):1},a in SPECIAL))
        return mapped(p,im,False) if ch else p
    def atom(s,a):
        r=s.am.get(a)
        if r is not None: return r
        at=ATOMS[a]
        if a in s.defs: r=s.poly(s.defs[a])
        elif at.name=='ite' or at.kind=='ite':
            c,u,v=at.args; c=s.cond(c)
            r=s.poly(u) if c is True else s.poly(v) if c is False else ite(c,s.poly(u),s.poly(v))
        elif at.name=='idiv': r=s.div(s.poly(at.args[0]),s.poly(at.args[1]))
        elif at.args and all(type(g) is Poly for g in at.args): r=app(at.name,tuple(s.poly(g) for g in at.args),at.sort)
        else: r=Poly({(a,):1},a in SPECIAL)
        s.am[a]=r; return r
    def div(s,p,b):
        n=b.const() if b.is_const() else None
        if not n or n<0: return idiv(p,b)
        q={}; r={}
        for m,c in p.d.items():
            if isinstance(c,int) and c//n: q[m]=c//n
            if not isinstance(c,int) or c%n: r[m]=c%n if isinstance(c,int) else c
        return Poly(q)+idiv(Poly(r),b)
    def cond(s,c):
        if c is True or c is False: return c
        if c[0]=='not': return c_not(s.cond(c[1]))
        if c[0] in('and','or'):
            stop=c[0]=='or'; r=not stop
            for q in c[1:]:
                q=s.cond(q)
                if q is stop: return stop
                r=c_or(r,q) if stop else c_and(r,q)
            return r
        if c[0] in('eq','lt','le') and len(c)==2:
            p=s.poly(c[1])
            for q,sg in ((p,1),(-p,-1)):
                if s.nn(q):
                    pos=(substm(q,s.alt) if s.alt else q).d.get((),0)>0
                    if c[0]=='eq' and pos: return False
                    if sg==1 and (c[0]=='lt' or c[0]=='le' and pos): return False
                    if sg==-1 and (c[0]=='le' or pos): return True
            return {'eq':c_eq,'lt':c_lt,'le':c_le}[c[0]](p)
        return c
    def conds(s,pc):
        r=[]
        for c in pc:
            c=s.cond(c)
            if c is False: return None
            if c is not True: r.append(c)
        return tuple(r)
def native(s,seed):
    C=nlat.C
    class DB(C.Structure): _fields_=[('square',C.POINTER(C.POINTER(C.c_size_t))),('Nsquare',C.POINTER(C.c_size_t)),('Ncolors',C.c_size_t)]
    for less in (0,1):
        dd=s.nd-less; V=int(np.prod(s.dims[:dd])); db=DB(); i=np.arange(V)
        r=s.d('init_cb',C.byref(db),C.c_size_t(V),C.c_size_t(dd),ret=C.c_int)
        inp=dict(dims=list(s.dims),directions=dd)
        if r!=0:
            if V==1: continue
            return dict(function='init_cb',input=inp,got='failure',expected='success')
        cl=[[db.square[c][k] for k in range(db.Nsquare[c])] for c in range(db.Ncolors)]; s.d('free_cb',C.byref(db),ret=None)
        if sorted(sum(cl,[]))!=list(range(V)): return dict(function='init_cb',input=inp,what='the colour lists are not a partition of the sites',got=str(cl)[:300])
        col=np.zeros(V,int)
        for c,l in enumerate(cl): col[l]=c
        for m in range(dd):
            if s.dims[m]<2: continue
            j=s.shift(m)[:V]; b=np.nonzero(col==col[j])[0]
            if len(b): return dict(function='init_cb',input=inp,what='site %d and its neighbour %d in direction %d have the same colour %d'%(b[0],j[b[0]],m,col[b[0]]))
