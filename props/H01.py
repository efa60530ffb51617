"""Heat-bath and overrelaxation updates."""
from smear import *
from lattice import INJ
import exec as _X, itertools
from exec import app_single
CFGS=['nc3','nc2','nc4','nc5nd3','nc3s','nc2s','nc4s']
SRC=['Update/','Geometry/','Matrix_Ops/U_Nops.c']
DIMS=([4,2,4,2],[2,4,2,6],[3,2,2,4])
INJ.add('sq')
def jobs(): return [(c,f) for f in ('hb_lattice','OR_lattice','sub','gen') for c in CFGS]
def run(ck): ck.par(jobs(),one)
def pairs(n,table=False):
    """rows mixed by subgroup k, in the order in which the routines name them"""
    if n==3 and not table: return [(0,1),(1,2),(2,0)]
    return [(i,i+d) for d in range(1,n) for i in range(n-d)]
def emb(n,pq,a,b):
    """the SU(2) matrix with first row (a,b) embedded in rows and columns (p,q)"""
    p,q=pq; E=list(ident(n)); E[p*n+p]=a; E[p*n+q]=b; E[q*n+p]=-b.conj(); E[q*n+q]=a.conj(); return E
def block(W,n,pq):
    """SU(2) part of the block: W_pp + W_qq^*, W_pq - W_qp^*"""
    p,q=pq; return W[p*n+p]+W[q*n+q].conj(),W[p*n+q]-W[q*n+p].conj()
def mod2(a,b): return T.re(a*a.conj()+b*b.conj())
def one(ck,job):
    cfg,part=job
    if part=='sub': return subgroups(ck,cfg)
    if part=='gen': return generate(ck,cfg)
    return lattice(ck,cfg,part)
def world(cfg):
    ex,w=lat_world(cfg,SRC)
    st=State(); f=ex.fn('compute_pertinent_indices')
    if f is None: raise Unsupported('function compute_pertinent_indices not found')
    outs=ex.call(f,[],st)
    if len(outs)!=1: raise Unsupported('compute_pertinent_indices')
    return ex,w,outs[0][0]
def cpx(z): return [T.re(z),T.im(z)]
def subgroups(ck,cfg):
    rep=rep_session(ck,cfg,lambda s: native_sub(s,ck.seed),what='SU(2) subgroups',dims=DIMS)
    def go():
        ex,w,st=world(cfg); n=w.n
        # table of index positions
        off,size=field_offsets(ex,'su2_subgroups'); tp=ex.read(st,Ptr(w.latt,(),num(w.fields['su2_data'][0])),('ptr',),None)
        for k,(p,q) in enumerate(pairs(n,True)):
            for c,v in (('a',p*n+p),('b',p*n+q),('c',q*n+p),('d',q*n+q)):
                v={'b':q+n*p,'c':p+n*q}.get(c,v)
                g=ex.asint(ex.read(st,tp.plus(size*k+off['idx_'+c][0]),('i',64),None))
                ck.ob('compute_pertinent_indices[%s]/%d%s'%(cfg,k,c),same(g,num(v)),'compute_pertinent_indices','' if same(g,num(v)) else 'got %s expected %d'%(show(g),v),replay=rep)
        ck.use(ex)
        U,S=M('U',n),M('S',n); W=mm(U,dag(S)); z0,z1=sym('z0','cplx'),sym('z1','cplx')
        a,b=SU('s',2)[:2]
        for k,pq in enumerate(pairs(n)):
            b0,b1=block(W,n,pq); nrm=T.recip(T.sqrt(mod2(b0,b1)))
            o0,o1,o2=cobj('s0',[None]),cobj('s1',[None]),robj('scale',[None]); cu,cs_=cobj('U',U),cobj('staple',S)
            lat_obs(ck,ex,w,'only_subgroup',[Ptr(o0),Ptr(o1),Ptr(o2),Ptr(cu),Ptr(cs_),num(k)],outs=[('s0',Ptr(o0),'c',[b0*nrm]),('s1',Ptr(o1),'c',[b1*nrm]),('scale',Ptr(o2),'r',[nrm])],replay=rep,tag=',%d'%k,frame=[Ptr(cu),Ptr(cs_)],state=st)
            Un=SU('V',2) if n==2 else U
            if n==2: s0,s1=a,b
            else: s0,s1=z0,z1
            cu=cobj('U',Un)
            lat_obs(ck,ex,w,'su2_rotate',[Ptr(cu)]+cpx(s0)+cpx(s1)+[num(k)],outs=[('rotated',Ptr(cu),'c',mm(emb(n,pq,s0,s1),Un))],replay=rep,tag=',%d'%k,state=st)
        for k,pq in enumerate(pairs(n,True)):
            cu=cobj('U',U)
            lat_obs(ck,ex,w,'shortened_su2_multiply',[Ptr(cu)]+cpx(z0)+cpx(z1)+[num(k)],outs=[('rotated',Ptr(cu),'c',mm(emb(n,pq,z0,z1),U))],replay=rep,tag=',%d'%k,state=st)
            cu=cobj('U',U)
            lat_obs(ck,ex,w,'shortened_su2_multiply_dag',[Ptr(cu)]+cpx(z0)+cpx(z1)+[num(k)],outs=[('rotated',Ptr(cu),'c',mm(U,dag(emb(n,pq,z0,z1))))],replay=rep,tag=',%d'%k,state=st)
        # microcanonical reflection: the square of the inverse
        o0,o1=cobj('s0',[z0]),cobj('s1',[z1]); q=dag(emb(2,(0,1),z0,z1)); m=mm(q,q)
        lat_obs(ck,ex,w,'microcanonical',[Ptr(o0),Ptr(o1)],outs=[('s0',Ptr(o0),'c',[m[0]]),('s1',Ptr(o1),'c',[m[1]])],replay=rep)
        # lemma: this reflection of the subgroup part leaves Re tr(U staple^dagger) unchanged and is special unitary
        q=dag(emb(2,(0,1),a,b)); m=mm(q,q); kk=sym('k')
        for k,pq in enumerate(pairs(n)):
            X=M('X',n); p_,q_=pq; X[p_*n+p_]=kk*a-X[q_*n+q_].conj(); X[p_*n+q_]=kk*b+X[q_*n+p_].conj()
            d=T.re(mtr(mm(emb(n,pq,m[0],m[1]),X)))-T.re(mtr(X)); ok=same(d,ZERO) or equal(d,ZERO) is True
            ck.ob('action-unchanged[%s],%d'%(cfg,k),ok,'microcanonical','' if ok else show(d)[:300],replay=rep)
        d=mod2(m[0],m[1])-1; ok=same(d,ZERO) or equal(d,ZERO) is True
        ck.ob('reflection-unitary[%s]'%cfg,ok,'microcanonical','' if ok else show(d)[:200],replay=rep)
        ck.use(ex)
    ck.guard('subgroups[%s]'%cfg,go,'only_subgroup',replay=rep)
def local(ex,name,near):
    return next((m.funcs[name] for m in ex.mods.values() if near in m.funcs and name in m.funcs),None)
def draws(ex):
    """random numbers: arbitrary reals, recorded in order"""
    def r(ex_,st,a,I):
        d=st.flags.get('draws',()); v=sym('rnd%d'%len(d)); st.flags=dict(st.flags); st.flags['draws']=d+(v,); return [(st,v)]
    ex.contracts['par_rng_dbl']=r
def kp(d,NORM):
    """Kennedy-Pendleton: gamma-distributed candidate and the acceptance threshold"""
    x=T.cos(d[2]*num(2*math.pi)); return -(app('log',(d[0],))+app('log',(d[1],))*x*x)*NORM, d[3]*d[3]
def strip_abs(p,pos):
    """|x| -> x for the expressions that are nonnegative when 0 <= d <= 2 and the random numbers lie in [0,1]"""
    for _ in range(8):
        x=[a for s_ in p.atoms() for a in support(s_) if ATOMS[a].name=='fabs']
        x=[a for a in x if not any(b!=a and b in support(a) and ATOMS[b].name=='fabs' for b in x)]
        if not x: return p
        g=ATOMS[x[0]].args[0]; v=next((z for z in pos if same(z,g) or same(z,-g)),None)
        if v is None: return p
        p=substm(p,{x[0]:v})
    return p
def generate(ck,cfg):
    nm='generate_SU2[%s]'%cfg; rep=rep_session(ck,cfg,lambda s: native(s,ck.seed,'hb_lattice'),what='heat bath',dims=DIMS,**NARGS)
    def go():
        ex,w=lat_world(cfg,SRC); f=local(ex,'generate_SU2','hb_lattice')
        if f is None: ck.notes.append('generate_SU2 is not a function of its own'); raise Unsupported('generate_SU2 not found')
        draws(ex); a,b=SU('s',2)[:2]; NORM=sym('NORM'); seen=[0]
        def cut(ex_,st,fr,h,env):
            """later attempts are like the first: nothing is known but the attempt counter"""
            if 'cut' in st.flags: seen[0]+=1; return False
            st.flags=dict(st.flags); st.flags['cut']=h; over={}
            for v in env.values():
                if isinstance(v,Ptr) and v.obj not in (o0,o1): ex_.write(st,v,sym('earlier'),('double',),None)
            for r,ty,v in phis_in(ex_,fr,h,env):
                k=fresh('attempt','int') if ty[0]=='i' else sym('earlier2'); over[r]=k
                if ty[0]=='i': st.pc=st.pc+(c_le(1-k),); st.flags['attempt']=k
            st.flags['draws']=()
            return over
        ex.cuts={'generate_SU2':cut}; o0,o1=cobj('s0',[a]),cobj('s1',[b])
        outs=ex.call(f,[Ptr(o0),Ptr(o1),NORM,sym('thread','int')],State())
        if not outs: raise Unsupported('no path returns')
        acc=0
        for i,(s2,rv) in enumerate(outs):
            d=s2.flags.get('draws',()); pn='%s/path%d'%(nm,i)
            if len(d)!=6: ck.ob(pn+'/draws',False,'generate_SU2','%d random numbers after the last attempt'%len(d),replay=rep); continue
            r0,r1=getc(ex,s2,o0),getc(ex,s2,o1); A0,A1=r0*a-r1*b.conj(),r0*b+r1*a.conj()
            ok=False; det='no assignment of the random numbers to their roles gives 1-d'
            for q in itertools.permutations(d[:4]):
                cand,x2=kp(q,NORM); a0=ONE-cand
                if not(same(T.re(A0),a0) or equal(T.re(A0),a0) is True): continue
                # accepted, or the last of the allowed attempts
                cd=c_lt(ONE-cand.scale(0.5)-x2); accp=any(ckey(c)==ckey(c_not(cd)) or (c[0]=='and' and False) for c in s2.pc if isinstance(c,tuple))
                det='rejected candidate is used'
                rej=any(ckey(c)==ckey(cd) for c in s2.pc if isinstance(c,tuple))
                if accp or (rej and 'attempt' in s2.flags and ex.prove(s2,c_le(20-s2.flags['attempt']))): ok=True; acc+=accp; det=''; break
            ck.ob(pn+'/energy',ok,'generate_SU2',det+(' on '+cshow(s2.pc)[:200] if det else ''),replay=rep)
            if not ok: continue
            if i==0: ck.canary(nm,not same(T.re(A0),a0+sym('canary')))
            ar2=ONE-a0*a0; comp=[T.im(A0),T.re(A1),T.im(A1)]; okd=False; okn=False
            pos=[ar2]+[ar2-z*z for z in (T.sqrt(ar2)*(u*2-1) for u in d[4:6])]
            n2=sum((strip_abs(c,pos)*strip_abs(c,pos) for c in comp),ZERO); okn=same(n2,ar2) or equal(n2,ar2) is True
            for u,v in ((d[4],d[5]),(d[5],d[4])):
                z=T.sqrt(ar2)*(u*2-1); rho=T.sqrt(ar2-z*z); ph=v*num(2*math.pi)
                want=[z,rho*T.cos(ph),rho*T.sin(ph)]
                for per in itertools.permutations(want):
                    if all(any(same(g,x) or equal(g,x) is True for x in (y,-y)) for g,y in zip([strip_abs(c,pos) for c in comp],per)): okd=True
            ck.ob(pn+'/unit-norm',okn,'generate_SU2','' if okn else show(n2-ar2)[:300],replay=rep)
            ck.ob(pn+'/direction',okd,'generate_SU2','' if okd else ' ; '.join(show(strip_abs(c,pos))[:150] for c in comp),replay=rep)
        ck.ob(nm+'/accepts',acc>0,'generate_SU2','' if acc else 'no candidate is ever accepted',replay=rep)
        ck.use(ex)
    ck.guard(nm,go,'generate_SU2',replay=rep)
def lattice(ck,cfg,fname):
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed,fname),what=fname,dims=DIMS,**NARGS)
    ex,w=lat_world(cfg,SRC); n,nd=w.n,w.nd; staple_contract(ex,w)
    Uf=plain_su('lat',n); U=lambda i,m: Uf(i,m); lat=w.lat(gen=U); dat=lat.obj.tag['data']; N=len(pairs(n))
    NC_,c,ib=sym('Ncolors','int'),sym('colour','int'),sym('invbeta'); ex.facts+=[c_le(1-NC_)]; ex.pos|={aid(NC_)}
    nsq=lambda k: app('nsq',(k,),'int'); sq=lambda k,i: app('sq',(k,i),'int')
    ex.bounds['nsq']=lambda k: [c_le(-nsq(k))]; ex.bounds['sq']=lambda k,i: [c_le(-sq(k,i)),c_lt(sq(k,i)-w.V)]
    def eqh(st,x,y):
        """colour classes: distinct entries are distinct sites, and no two sites of a class are neighbours"""
        p,q=app_single(x),app_single(y)
        def cls(p):
            if p is None or p.kind!='app': return None
            if p.name=='sq': return p.args[0],p.args[1],None
            if p.name=='site':
                b=app_single(p.args[0])
                if b is not None and b.kind=='app' and b.name=='sq' and sum(abs(int(v)) for v in p.args[1])==1: return b.args[0],b.args[1],p.args[1]
        p,q=cls(p),cls(q)
        if p is None or q is None or not same(p[0],q[0]): return None
        if p[2] is None and q[2] is None: return c_eq(p[1]-q[1])
        if (p[2] is None)!=(q[2] is None): return False
    ex.eqhook=eqh; ex.peel=True
    db=Obj('db',None,None,ext=True); off,size=field_offsets(ex,'draughtboard')
    sqd=Obj('db.square[]',None,None,ext=True); sqd.stride0=8
    def rng(st,k,i):
        if not ex.prove(st,c_and(c_le(-i),c_lt(i-nsq(k)))): raise Violation('index %s outside colour class %s'%(show(i),show(k)))
    def sqi(ex_,st,idx,inner,t,sz): rng(st,idx[0],idx[1]); return sq(idx[0],idx[1])
    sqd.init=sqi
    sqo=Obj('db.square',None,None,ext=True); sqo.stride0=8; sqo.init=lambda ex_,st,idx,inner,t,sz: Ptr(sqd,(idx[0],))
    nso=Obj('db.Nsquare',None,None,ext=True); nso.stride0=8; nso.init=lambda ex_,st,idx,inner,t,sz: nsq(idx[0])
    ptrs={off['square'][0]:Ptr(sqo),off['Nsquare'][0]:Ptr(nso),off['Ncolors'][0]:NC_}
    db.init=lambda ex_,st,idx,inner,t,sz: ptrs[inner]
    # contracts of the matrix-level routines (proved above), as functions of everything they depend on
    f_sub=lambda k,A: (app('sub0_%d'%k,A,'cplx'),app('sub1_%d'%k,A,'cplx'),app('subk_%d'%k,A))
    f_mic=lambda s0,s1: (app('mic0',(s0,s1),'cplx'),app('mic1',(s0,s1),'cplx'))
    f_gen=lambda s0,s1,N_: (app('gen0',(s0,s1,N_),'cplx'),app('gen1',(s0,s1,N_),'cplx'))
    f_rot=lambda k,A,s0,s1: [app('rot%d_%d'%(k,j),tuple(A)+(s0,s1),'cplx') for j in range(n*n)]
    gram=plain_su('gram',n)
    def csub(ex_,st,a,I):
        k=ex_.asint(a[5]).const(); r=f_sub(k,tuple(getm(ex_,st,a[3],n*n)+getm(ex_,st,a[4],n*n)))
        setc(ex_,st,a[0],0,r[0]); setc(ex_,st,a[1],0,r[1]); ex_.write(st,a[2],r[2],('double',),None); return [(st,None)]
    def cmic(ex_,st,a,I):
        r=f_mic(getc(ex_,st,a[0]),getc(ex_,st,a[1])); setc(ex_,st,a[0],0,r[0]); setc(ex_,st,a[1],0,r[1]); return [(st,None)]
    def cgen(ex_,st,a,I):
        s0,s1=getc(ex_,st,a[0]),getc(ex_,st,a[1]); p,q=app_single(s0),app_single(s1)
        if p is None or q is None or p.name[:4]!='sub0' or q.name[:4]!='sub1': raise Unsupported('heat bath of something that is not a normalised subgroup matrix')
        r=f_gen(s0,s1,ex_.asfp(a[2])); setc(ex_,st,a[0],0,r[0]); setc(ex_,st,a[1],0,r[1]); return [(st,ZERO)]
    def crot(ex_,st,a,I):
        k=ex_.asint(a[5]).const(); u=getm(ex_,st,a[0],n*n)
        if n==2 and not is_su(u): raise Unsupported('rotation of a matrix not known to be SU(2)')
        setm(ex_,st,a[0],f_rot(k,u,cplx(ex_.asfp(a[1]),ex_.asfp(a[2])),cplx(ex_.asfp(a[3]),ex_.asfp(a[4])))); return [(st,None)]
    def cgram(ex_,st,a,I): setm(ex_,st,a[0],gram(*getm(ex_,st,a[0],n*n))); return [(st,None)]
    ex.contracts.update(only_subgroup=csub,microcanonical=cmic,su2_rotate=crot,gram_reunit=cgram)
    hb=fname=='hb_lattice'
    if hb:
        if local(ex,'generate_SU2',fname) is not None: ex.contracts['generate_SU2']=cgen
    def want(i,mu):
        S=stapf('APE',nd,U,i,mu,w.nbr,n); u=U(i,mu)
        for k in range(N):
            s0,s1,sc=f_sub(k,tuple(u)+tuple(S)); s0,s1=f_gen(s0,s1,ib*sc) if hb else f_mic(s0,s1)
            u=f_rot(k,u,s0,s1)
        return gram(*u) if hb else u
    args=[lat]+([ib] if hb else [])+[Ptr(db)]
    def written(st): return [g for g in (st.mem[dat.id].groups if dat.id in st.mem else [])]
    for mu in list(range(nd))+['end']:
        nm='%s[%s],%s'%(fname,cfg,'mu=%s'%mu if mu!='end' else 'end'); seen=[0]
        def cut(ex_,st,fr,h,env):
            ph=phis_in(ex_,fr,h,env); k0=st.flags.get('pass')
            cnt=[(r,v) for r,ty,v in ph if ty[0]=='i' and ty[1]>1 and isinstance(v,Poly)]
            if k0 is None:
                if written(st): ck.ob(nm+'/entry',False,fname,'field modified before the first pass',replay=rep)
                if len(cnt)!=1 or not same(cnt[0][1],ZERO): raise Unsupported('pass counter not recognised')
                v=NC_*mu+c if mu!='end' else NC_*nd
                st.flags=dict(st.flags); st.flags['pass']=(h,cnt[0][0],v)
                return {cnt[0][0]:v}
            if k0[0]!=h: return None
            seen[0]+=1
            ok=len(cnt)==1 and same(cnt[0][1],k0[2]+1); ck.ob(nm+'/counter',ok,fname,'' if ok else 'pass counter does not advance by one',replay=rep)
            i0=sym('i0','int'); s0=st.clone(); s0.pc=st.pc+(c_le(-i0),c_lt(i0-nsq(c))); x=sq(c,i0)
            g=w.getU(s0,lat,x,mu); e=want(x,mu); ok=True; det=''
            for k in range(n*n):
                if not same(g[k],e[k]) and equal(g[k],e[k]) is not True: ok=False; det='element %d: got %s expected %s'%(k,show(g[k])[:300],show(e[k])[:300]); break
            ck.ob(nm+'/link',ok,fname,det,replay=rep,backend='polynomial-identity'); ck.canary(nm,not same(g[0],e[0]+sym('canary')))
            # nothing else is written
            ok=True; det=''
            for gr in written(st):
                a0=app_single(gr.idx[0]); okg=a0 is not None and a0.name=='sq' and same(a0.args[0],c) and same(gr.idx[1],num(mu))
                if not okg: ok=False; det='links at %s are modified'%[show(z) for z in gr.idx]
            ck.ob(nm+'/others-unchanged',ok,fname,det,replay=rep)
            return False
        def go():
            f=ex.fn(fname)
            if f is None: raise Unsupported('function %s not found'%fname)
            st=State()
            if mu!='end': st.pc=(c_le(-c),c_lt(c-NC_))
            ex.cuts={fname:cut}
            try: outs=ex.call(f,args,st)
            finally: ex.cuts={}
            if mu!='end':
                if not seen[0]: raise Unsupported('no pass recognised')
                ck.ob(nm+'/goes-on',not outs,fname,'' if not outs else 'stops before the last colour of the last direction',replay=rep)
            else:
                ok=seen[0]==0 and len(outs)==1 and not written(outs[0][0]) and same(outs[0][1],ZERO)
                ck.ob(nm+'/stops',ok,fname,'' if ok else 'goes on after the last direction, or does not report success',replay=rep)
        ck.guard(nm,go,fname,replay=rep)
    ck.use(ex)
NARGS=dict(extra=('-Wl,--wrap=par_rng_dbl',),wrap=r"""
double __real_par_rng_dbl(const uint32_t); double gl_rng=-1; static uint64_t gl_s=88172645463325252ULL;
double __wrap_par_rng_dbl(const uint32_t t){ if( gl_rng>=0 ) return gl_rng; gl_s^=gl_s<<13; gl_s^=gl_s>>7; gl_s^=gl_s<<17; return ((gl_s>>11)+0.5)*(1.0/9007199254740992.0); }
""")
def np_block(W,pq):
    p,q=pq; return W[...,p,p]+W[...,q,q].conj(),W[...,p,q]-W[...,q,p].conj()
def np_emb(n,pq,a,b):
    p,q=pq; E=np.zeros(np.shape(a)+(n,n),dtype=complex); E[...]=np.eye(n); E[...,p,p]=a; E[...,p,q]=b; E[...,q,p]=-np.conj(b); E[...,q,q]=np.conj(a); return E
def native_sub(s,seed):
    rng=np.random.default_rng(seed); n=s.n; C=nlat.C; Z=C.c_size_t; D=C.c_double; dg=nlat.dg
    class CX(C.Structure): _fields_=[('r',D),('i',D)]
    cx=lambda z: CX(z.real,z.imag)
    s.d('compute_pertinent_indices',ret=None)
    def bad(fn,k,what,got,want):
        if not np.allclose(got,want,rtol=1e-9,atol=1e-10): return dict(function=fn,subgroup=k,output=what,got=str(got),expected=str(want))
    for t in range(3):
        for k,pq in enumerate(pairs(n)):
            U,S=(rng.normal(size=(n,n))+1j*rng.normal(size=(n,n)) for _ in range(2)); pu,vu=s.arr(U); ps,vs=s.arr(S)
            a,va=s.arr(np.zeros(1,complex)); b,vb=s.arr(np.zeros(1,complex)); c,vc=s.arr(np.zeros(1))
            s.d('only_subgroup',a,b,c,pu,ps,Z(k),ret=None); z0,z1=np_block(U@dg(S),pq); nr=np.sqrt(abs(z0)**2+abs(z1)**2)
            r=bad('only_subgroup',k,'s0,s1,scale',np.array([va[0],vb[0],vc[0]]),np.array([z0/nr,z1/nr,1/nr])) or bad('only_subgroup',k,'U',vu,U) or bad('only_subgroup',k,'staple',vs,S)
            if r: return r
            q=nlat.rand_su(rng,(),2); V=nlat.rand_su(rng,(),2) if n==2 else U; pv,vv=s.arr(V)
            s.d('su2_rotate',pv,cx(q[0,0]),cx(q[0,1]),Z(k),ret=None)
            r=bad('su2_rotate',k,'U',vv,np_emb(n,pq,q[0,0],q[0,1])@V)
            if r: return r
        for k,pq in enumerate(pairs(n,True)):
            U=rng.normal(size=(n,n))+1j*rng.normal(size=(n,n)); z=rng.normal(size=2)+1j*rng.normal(size=2); E=np_emb(n,pq,z[0],z[1])
            for fn,w in (('shortened_su2_multiply',E@U),('shortened_su2_multiply_dag',U@dg(E))):
                pv,vv=s.arr(U); s.d(fn,pv,cx(z[0]),cx(z[1]),Z(k),ret=None); r=bad(fn,k,'U',vv,w)
                if r: return r
        q=nlat.rand_su(rng,(),2); a,va=s.arr(q[0,:1].copy()); b,vb=s.arr(q[0,1:].copy()); s.d('microcanonical',a,b,ret=None); w=dg(q)@dg(q)
        r=bad('microcanonical',0,'s0,s1',np.array([va[0],vb[0]]),w[0])
        if r: return r
def native(s,seed,only=None):
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; C=nlat.C; dg=nlat.dg; L=s.L
    class DB(C.Structure): _fields_=[('square',C.POINTER(C.POINTER(C.c_size_t))),('Nsquare',C.POINTER(C.c_size_t)),('Ncolors',C.c_size_t)]
    db=DB(); s.d('compute_pertinent_indices',ret=None)
    if s.d('init_cb',C.byref(db),C.c_size_t(V),C.c_size_t(nd),ret=C.c_int)!=0: return None
    cl=[[db.square[c][i] for i in range(db.Nsquare[c])] for c in range(db.Ncolors)]; rv=C.c_double.in_dll(L,'gl_rng')
    if sorted(sum(cl,[]))!=list(range(V)): return None
    def stap(u,mu,x):
        t=0
        for nu in range(nd):
            if nu==mu: continue
            F,G,K=s.shift(mu),s.shift(nu),s.shift(nu,-1)
            t=t+u[x,nu]@u[G[x],mu]@dg(u[F[x],nu])+dg(u[K[x],nu])@u[K[x],mu]@u[F[K[x]],nu]
        return t
    def step(u,f,ib,r):
        u=u.copy()
        for mu in range(nd):
            for x in cl_:
                x=np.array(x); S=stap(u,mu,x); v=u[x,mu]
                for pq in pairs(n):
                    z0,z1=np_block(v@dg(S),pq); k=np.sqrt(abs(z0)**2+abs(z1)**2); a,b=z0/k,z1/k
                    if f=='OR_lattice': m0,m1=a.conj()**2-abs(b)**2,-2*a.real*b
                    else:
                        d=-np.log(r)*(1+np.cos(2*np.pi*r)**2)*ib/k; a0=1-d; ar2=abs(1-a0*a0); a3=np.sqrt(ar2)*(2*r-1); rho=np.sqrt(abs(ar2-a3*a3)); a1,a2=rho*np.cos(2*np.pi*r),rho*np.sin(2*np.pi*r)
                        X=np_emb(2,(0,1),a0+1j*a3,a2+1j*a1)@dg(np_emb(2,(0,1),a,b)); m0,m1=X[...,0,0],X[...,0,1]
                    v=np_emb(n,pq,m0,m1)@v
                u[x,mu]=v
        return u
    cl_=cl
    for f in ('OR_lattice','hb_lattice'):
        if only and f!=only: continue
        for r in ((0.5,) if f=='OR_lattice' else (0.3,0.45,0.81)):
            u=nlat.rand_su(rng,(V,nd),n,eps=0.3); lat=s.lat(u); rv.value=r; ib=0.05
            s.d(f,lat,*([C.c_double(ib)] if f=='hb_lattice' else []),db,ret=C.c_int)
            g=s.get(lat); w=step(u,f,ib,r); rv.value=-1
            if not np.allclose(g,w,rtol=1e-7,atol=1e-7):
                q=np.unravel_index(np.argmax(abs(g-w)),g.shape); return dict(function=f,random_number=r,inverse_beta=ib,site=int(q[0]),link=int(q[1]),got=str(g[q[0],q[1]]),expected=str(w[q[0],q[1]]),field='random SU(N) near unity')
    if only in (None,'hb_lattice') and n==2:
        # distribution of the links updated last, whose staples are final
        tot=0; var=0; u=nlat.rand_su(rng,(V,nd),n); x=np.array(cl[-1]); mu=nd-1
        lat=s.lat(u); h=np.linspace(-1,1,4001)
        for t in range(max(20,6000//len(x))):
            ib=4.0; s.d('hb_lattice',lat,C.c_double(ib),db,ret=C.c_int); g=s.get(lat); S=stap(g,mu,x); z0,z1=np_block(S,(0,1)); z=np_block(g[x,mu]@dg(S),(0,1))[0].real
            k=np.sqrt(abs(z0)**2+abs(z1)**2); a0=z/k; wgt=np.sqrt(1-h*h)*np.exp(k[:,None]/ib*(h-1)); m=(wgt*h).sum(-1)/wgt.sum(-1); v=(wgt*h*h).sum(-1)/wgt.sum(-1)-m*m
            tot+=(a0-m).sum(); var+=v.sum()
        if abs(tot)>7*np.sqrt(var): return dict(function='hb_lattice',what='mean action of the updated links differs from that of the Boltzmann weight by %.1f standard deviations'%(tot/np.sqrt(var)),inverse_beta=4.0)
