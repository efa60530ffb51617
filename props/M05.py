"""Matrix exponential and logarithm of SU(N)."""
from smear import *
from matfn import *
from terms import SPECIAL
import math, numpy as np
CFGS=['nc3','nc2','nc4gsl','nc4','nc5nd3','nc3s','nc2s']
SRC=['Matrix_Ops/','Geometry/','Utils/init_factorial.c']
MO=['Matrix_Ops/'+f for f in ('expMat.c','exactQ.c','effs.c','evalues.c','vandermonde.c','U_Nops.c','taylor_logs.c')]
def jobs():
    r=[]
    for c in CFGS:
        n=int(c[2])
        if n==3: r+=[(c,'exponentiate'),(c,'exponentiate_short'),(c,'exact_log_slow'),(c,'exact_log_slow_short'),(c,'evalues'),(c,'lemma')]
        if n==2: r+=[(c,'exponentiate'),(c,'exponentiate_short'),(c,'exact_log_slow'),(c,'exact_log_slow_short')]
        if n>3: r+=[(c,'exponentiate'),(c,'exponentiate_short'),(c,'vandermonde'),(c,'power')]
    return r
def run(ck): ck.par(jobs(),one)
def one(ck,job):
    cfg,what=job; rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='exponential and logarithm',dims=([2,2,2,2],[2,2,2]))
    if what=='lemma': return ck.guard('closed-form',lambda: lemmas(ck),'exponentiate')
    ex=Exec(cfg); ex.load_all([s for s in build.sources() if s.startswith('Matrix_Ops/')]); n=ex.NC
    g=globals()['%s%s'%({'exponentiate':'exp','exponentiate_short':'exp','exact_log_slow':'log','exact_log_slow_short':'log'}.get(what,what),min(n,4))]
    ck.guard('%s[%s]'%(what,cfg),lambda: g(ck,ex,what,rep),what,replay=rep); ck.use(ex)
def resolve(ex,st,p):
    """choose the branches of conditional values that the path decides (forks otherwise)"""
    def f(a):
        at=ATOMS[a]
        if at.kind=='ite' or at.name=='ite':
            c,x,y=at.args; return resolve(ex,st,x if ex.decide(st,c) else y)
        return Poly({(a,):1},a in SPECIAL)
    return T.mapatoms(p,f) if any(ATOMS[a].kind=='ite' or ATOMS[a].name=='ite' for a in p.atoms()) else p
def allforks(ex,outs,f): return [(s,v) for st,_ in outs for s,v in forks(ex,st,f)]
# ---------- inputs
def herm(n,nm='q'):
    """general traceless hermitian matrix"""
    Q=[None]*(n*n); tr=ZERO
    for i in range(n):
        for j in range(i+1,n): Q[i*n+j]=sym('%s%d%d'%(nm,i,j),'cplx'); Q[j*n+i]=Q[i*n+j].conj()
        if i<n-1: Q[i*n+i]=sym('%s%d%d'%(nm,i,i)); tr=tr+Q[i*n+i]
    Q[n*n-1]=-tr; return Q
def packed(Q,n): return [Q[i*n+j] for i in range(n-1) for j in range(i,n)]
def mm(A,B,n): return [sum((A[i*n+k]*B[k*n+j] for k in range(n)),ZERO) for i in range(n) for j in range(n)]
def trc(A,n): return sum((A[i*(n+1)] for i in range(n)),ZERO)
def mnum(ex):
    """fmin/fmax fork on the comparison; fabs of a real is left to the machinery"""
    def mk(mx):
        def c(ex_,st,a,I):
            x,y=ex_.asfp(a[0]),ex_.asfp(a[1]); out=[]
            for cond,v in ((c_lt(x-y),y if mx else x),(c_not(c_lt(x-y)),x if mx else y)):
                s=st.clone(); s.pc=s.pc+(cond,) if cond is not True else s.pc
                if cond is not False and not ex_.infeasible(s): out.append((s,v))
            return out
        return c
    ex.contracts['fmin']=mk(False); ex.contracts['fmax']=mk(True)
SER=lambda x2,k: sum((x2**j*num((-1)**j/math.factorial(2*j+1)) for j in range(k)),ZERO)
def sincs(ex,st,w,w2):
    """admissible values of sin(w)/w on this path: exact, or a truncated series where the path bounds |w| so that the remainder is below 1e-14"""
    r=[('exact',T.div(T.sin(w),w))]
    for k in range(1,8):
        B=(1e-14*math.factorial(2*k+1))**(1.0/(2*k))
        if ex.prove(st,c_lt(w-B)) and ex.prove(st,c_lt(-w-B)) or ex.prove(st,c_lt(ex.fabs(w,st)-B)): r.append(('series of %d terms'%k,SER(w2,k)))
    return r
def tiny(ex,st,q):
    """the path says that the (non-negative) q is below 1e-28"""
    return ex.prove(st,c_lt(q-1e-28))
def outmat(ex,st,o,n): return [getc(ex,st,o,k) for k in range(n*n)]
# ---------- NC=3: closed forms
def effs3(u,w,cu,su,cw,E):
    """f_j with f0+f1 l+f2 l^2=exp(i l) for l=2u,-u+w,-u-w and sin(w)=w E (shown in lemmas)"""
    e0=(cu+su.scale(1j)); two=e0*e0; one=e0.conj(); uu=u*u; ww=w*w; d=recip(uu*9-ww)
    f0=(uu-ww)*two+one*(uu*8*cw+(u*(uu*3+ww)*E).scale(2j))
    f1=u*2*two-one*(u*2*cw-((uu*3-ww)*E).scale(1j))
    f2=two-one*(cw+(u*E).scale(3j))
    return [f*d for f in (f0,f1,f2)]
def lemmas(ck):
    u,w,E=sym('u'),sym('w'),sym('E'); t=sym('tu'); cu,su=T.cos(t),T.sin(t); cw=T.cos(sym('tw'))
    f=effs3(u,w,cu,su,cw,E); sw=w*E; e0=cu+su.scale(1j)
    for k,(l,e) in enumerate(((u*2,e0*e0),(w-u,e0.conj()*(cw+sw.scale(1j))),(-w-u,e0.conj()*(cw-sw.scale(1j))))):
        ck.ob('closed-form/interpolates,%d'%k,bool(equal(f[0]+f[1]*l+f[2]*l*l,e)),'exponentiate',backend='polynomial-identity')
        ck.ob('closed-form/interpolates,conjugate,%d'%k,bool(equal(f[0].conj()-f[1].conj()*l*-1*-1+f[2].conj()*l*l,e.conj()) or equal(f[0].conj()+f[1].conj()*l+f[2].conj()*l*l,e.conj())),'exponentiate',backend='polynomial-identity')
    # eigenvalues of a traceless hermitian Q: roots of l^3-3 c1 l-c0
    rc,th=sym('rc'),sym('th'); C,S=T.cos(th),T.sin(th); U,W=rc*C,rc*S*math.sqrt(3)
    lam=[U*2,W-U,-W-U]
    ck.ob('closed-form/eigenvalues,sum',bool(equal(lam[0]+lam[1]+lam[2],ZERO)),'exponentiate',backend='polynomial-identity')
    ck.ob('closed-form/eigenvalues,pairs',bool(equal(lam[0]*lam[1]+lam[0]*lam[2]+lam[1]*lam[2],rc*rc*-3)),'exponentiate',backend='polynomial-identity')
    cos3=C*C*C-C*S*S*3   # cos(3 th)
    ck.ob('closed-form/eigenvalues,product',bool(equal(lam[0]*lam[1]*lam[2],rc**3*2*cos3)),'exponentiate',backend='polynomial-identity')
    n=3; Q=herm(n); Q2=mm(Q,Q,n); Q3=mm(Q2,Q,n); c1=trc(Q2,n).scale(1/6.); c0=trc(Q3,n).scale(1/3.)
    ck.ob('closed-form/characteristic-equation',all(bool(equal(Q3[k]-c1*3*Q[k]-(c0 if k%(n+1)==0 else ZERO),ZERO)) for k in range(9)),'exponentiate',backend='polynomial-identity')
    # inversion used by the logarithm: U=f0+f1 Q+f2 Q^2
    F=[sym('F%d'%k,'cplx') for k in range(3)]; UU=[(F[0] if k%(n+1)==0 else ZERO)+F[1]*Q[k]+F[2]*Q2[k] for k in range(9)]
    L=invert3(F,UU); ck.ob('closed-form/inversion',all(bool(equal(L[k],Q[k])) for k in range(9)),'exact_log_slow',backend='polynomial-identity')
    ck.canary('closed-form',not equal(f[0]+f[1]*u+f[2]*u*u,e0*e0))
def invert3(f,U,n=3):
    con=f[2].conj(); mod=recip(T.im(f[1]*con)); imf=T.im(f[0]*con)*mod; t=mod.scale(-0.5j)
    return [t*(con*U[i*n+j]-f[2]*U[j*n+i].conj())-(imf if i==j else ZERO) for i in range(n) for j in range(n)]
def exp3(ck,ex,fn,rep):
    n=3; nm='%s[%s]'%(fn,ex.cfg); Q=herm(n); Q2=mm(Q,Q,n); c1=trc(Q2,n).scale(1/6.); det=mdet(Q)
    mnum(ex); TH=sym('TH'); seen=[]
    def acos(ex_,st,a,I):
        st.flags=dict(st.flags); st.flags['acos']=st.flags.get('acos',())+(ex_.asfp(a[0]),); return [(st,TH)]
    ex.contracts['acos']=acos
    f=ex.fn(fn)
    if f is None: raise Unsupported('function %s not found'%fn)
    uo=cobj('U',[None]*9); qo=cobj('Q',packed(Q,n) if fn.endswith('short') else Q); st=State()
    outs=ex.call(f,[Ptr(uo),Ptr(qo)],st); kinds=set(); k=0
    def look(s):
        neg=not s.flags.get('acos') or ex.decide(s,c_lt(det))
        return neg,[resolve(ex,s,v) for v in outmat(ex,s,uo,n)],[resolve(ex,s,v) for v in s.flags.get('acos',())]
    for st2,(neg,U,A) in allforks(ex,outs,look):
        k+=1; pn='%s/path%d'%(nm,k)
        if all(same(U[i],ONE if i%4==0 else ZERO) for i in range(9)):
            ck.ob(pn+'/identity-only-for-zero',tiny(ex,st2,c1),fn,'returns the identity on %s'%cshow(st2.pc)[:200],replay=rep); kinds.add('id'); continue
        if len(A)!=1: ck.ob(pn+'/angle',False,fn,'%d arc cosines'%len(A),replay=rep); continue
        sg=-1 if neg else 1
        rc=T.sqrt(c1); r=T.div(det.scale(sg),rc*c1*2)
        if same(A[0],ONE): ok=ex.prove(st2,c_le(ONE-r)) or any(eq_r(ex,st2,c,r) for c in st2.pc)
        else: ok=bool(equal(A[0],r)) and any(eq_r(ex,st2,c,r) for c in st2.pc)
        ck.ob(pn+'/angle',ok,fn,'the arc cosine is taken of %s, expected |det Q|/(2 c1^(3/2)) capped at one'%show(A[0])[:200],replay=rep,backend='polynomial-identity')
        C,S=T.cos(TH.scale(1/3.)),T.sin(TH.scale(1/3.)); u=rc*C; w=rc*S*math.sqrt(3)
        got=False; det_=''
        for tag,E in sincs(ex,st2,w,w*w):
            F=effs3(u,w,T.cos(u),T.sin(u),T.cos(w),E)
            if sg<0: F=[F[0].conj(),-F[1].conj(),F[2].conj()]
            want=[(F[0] if i%4==0 else ZERO)+F[1]*Q[i]+F[2]*Q2[i] for i in range(9)]
            bad=next((i for i in range(9) if not equal(U[i],want[i])),None)
            if bad is None: got=True; kinds.add((tag.split()[0],sg)); break
            if not det_: det_='U[%d] is not f0+f1 Q+f2 Q^2 (%s)'%(bad,tag)
        ck.ob(pn+'/value',got,fn,det_,replay=rep,backend='polynomial-identity')
        if got and k<4: ck.canary(nm,not equal(U[4],want[4]+sym('canary')))
    for t in ('id',('exact',1),('exact',-1)): ck.ob(nm+'/reaches,%s'%(t,),t in kinds,fn,'no path',replay=rep)
def eq_r(ex,st,c,r):
    c=c[1] if c[0]=='not' and isinstance(c[1],tuple) else c
    return c[0] in('lt','le') and type(c[1]) is Poly and any(bool(equal(resolve(ex,st,c[1]),v)) for v in (r-1,ONE-r))
# ---------- NC=2
def exp2(ck,ex,fn,rep):
    n=2; nm='%s[%s]'%(fn,ex.cfg); Q=herm(n); z2=Q[0]*Q[0]+Q[1]*Q[1].conj(); z=T.sqrt(z2); mnum(ex)
    uo=cobj('U',[None]*4); qo=cobj('Q',packed(Q,n) if fn.endswith('short') else Q); k=0; kinds=set()
    ck.ob(nm+'/eigenvalues',all(bool(equal(v,z2 if i%3==0 else ZERO)) for i,v in enumerate(mm(Q,Q,n))),fn,backend='polynomial-identity')
    for st2,rv in ex.call(ex.fn(fn),[Ptr(uo),Ptr(qo)],State()):
        k+=1; U=outmat(ex,st2,uo,n); got=False; det=''
        for tag,E in sincs(ex,st2,z,z2):
            want=[(T.cos(z) if i%3==0 else ZERO)+(E*Q[i]).scale(1j) for i in range(4)]
            bad=next((i for i in range(4) if not equal(U[i],want[i])),None)
            if bad is None: got=True; kinds.add(tag.split()[0]); break
            if not det: det='U[%d] is %s, not cos z + i Q sin z/z'%(bad,show(U[bad])[:200])
        if tag and got and tag=='exact': ck.ob('%s/path%d/nonzero'%(nm,k),nonzero(ex,st2,z),fn,'divides by z although z may vanish',replay=rep)
        ck.ob('%s/path%d/value'%(nm,k),got,fn,det,replay=rep,backend='polynomial-identity')
        if got: ck.canary(nm,not equal(U[0],want[0]+sym('canary')))
    ck.ob(nm+'/reaches',{'exact','series'}<=kinds,fn,str(kinds),replay=rep)
def nonzero(ex,st,z):
    s=st.clone(); s.pc=s.pc+(c_eq(z),c_eq(vabs(z))); return ex.infeasible(s)
def log2(ck,ex,fn,rep):
    """U=cos t+i sin t N with N^2=1: the result is t N, t=arg(cos t+i|sin t|)"""
    n=2; nm='%s[%s]'%(fn,ex.cfg); a,b=sym('a','cplx'),sym('b','cplx'); U=[a,b,-b.conj(),a.conj()]; re0=T.re(a); mnum(ex); ph=sym('phase')
    args=[]
    def carg(ex_,st,x,I):
        st.flags=dict(st.flags); st.flags['carg']=st.flags.get('carg',())+((ex_.asfp(x[0]),ex_.asfp(x[1])),); return [(st,ph)]
    ex.contracts['carg']=carg; ex.contracts['atan2']=lambda ex_,st,x,I: carg(ex_,st,[x[1],x[0]],I)
    sh=fn.endswith('short'); qo=cobj('Q',[None]*(2 if sh else 4)); uo=cobj('U',U); k=0; kinds=set(); s2=ONE-re0*re0
    for st2,rv in ex.call(ex.fn(fn),[Ptr(qo),Ptr(uo)],State()):
        k+=1; pn='%s/path%d'%(nm,k); A=st2.flags.get('carg',())
        clamp=ex.prove(st2,c_le(s2))
        sn=ZERO if clamp else T.sqrt(s2)
        ck.ob(pn+'/phase',len(A)==1 and bool(equal(A[0][0],re0)) and bool(equal(A[0][1],sn)),fn,'the phase is taken of %s'%(str([(show(x)[:100],show(y)[:100]) for x,y in A])),replay=rep,backend='polynomial-identity')
        W=[getc(ex,st2,qo,i) for i in range(2 if sh else 4)]; got=False; det=''
        for tag,E in [('exact',T.div(sn,ph))]+[t for t in sincs(ex,st2,ph,ph*ph) if t[0]!='exact']:
            if not E.d: continue
            want=[((U[i]-(re0 if i%3==0 else ZERO))*recip(E)).scale(-1j) for i in range(len(W))]
            bad=next((i for i in range(len(W)) if not equal(W[i],want[i])),None)
            if bad is None: got=True; kinds.add(tag.split()[0]); break
            if not det: det='Q[%d] is %s, not (U-cos)/(i sin t/t)'%(bad,show(W[bad])[:200])
        if not got and clamp and not ex.prove(st2,c_lt(ex.fabs(ph,st2)-1e-3)): continue   # |re U0|>=1 has phase 0 or pi
        ck.ob(pn+'/value',got,fn,det,replay=rep,backend='polynomial-identity')
        if got: ck.canary(nm,not equal(W[0],want[0]+sym('canary')))
    ck.ob(nm+'/reaches',{'exact','series'}<=kinds,fn,str(kinds),replay=rep)
def log3(ck,ex,fn,rep):
    n=3; nm='%s[%s]'%(fn,ex.cfg); U=[sym('U%d'%k,'cplx') for k in range(9)]; mnum(ex); u,w=sym('u'),sym('w'); l=[u*2,w-u,-w-u]
    Z=[sym('Z%d'%k,'cplx') for k in range(3)]
    def ev(ex_,st,a,I):
        if not (same(getc(ex_,st,a[1].obj,0),U[0]) and same(getc(ex_,st,a[1].obj,8),U[8])): raise Violation('eigenvalues of another matrix')
        for k in range(3):
            ex_.write(st,a[0].plus(num(16*k)),T.re(Z[k]),('double',),None); ex_.write(st,a[0].plus(num(16*k+8)),T.im(Z[k]),('double',),None)
        return [(st,None)]
    ex.contracts['Eigenvalues_suNC']=ev
    def carg(ex_,st,x,I):
        z=ex_.asfp(x[0])+ex_.asfp(x[1]).scale(1j)
        for k in range(3):
            if same(z,Z[k]): return [(st,l[k])]
        raise Violation('phase of %s, which is not an eigenvalue'%show(z)[:100])
    ex.contracts['carg']=carg
    sh=fn.endswith('short'); idx=[0,1,2,4,5] if sh else list(range(9)); qo=cobj('Q',[None]*len(idx)); uo=cobj('U',U); k=0; kinds=set()
    near=ONE-(T.re(U[0])+T.re(U[4])+T.re(U[8])).scale(1/3.)
    for st2,rv in ex.call(ex.fn(fn),[Ptr(qo),Ptr(uo)],State()):
        k+=1; pn='%s/path%d'%(nm,k); W=[getc(ex,st2,qo,i) for i in range(len(idx))]; got=False; det=''
        H=[(U[i*3+j]-U[j*3+i].conj()).scale(-0.5j) for i in range(3) for j in range(3)]; t=trc(H,3).scale(1/3.); H=[H[i]-(t if i%4==0 else ZERO) for i in range(9)]
        if all(equal(W[q],H[i]) for q,i in enumerate(idx)):
            ck.ob(pn+'/projection-only-near-identity',any(c[0] in('lt','le') and type(c[1]) is Poly and (near-c[1]).is_const() and abs((near-c[1]).const())<=1e-9 for c in st2.pc),fn,'uses the hermitian projection on %s'%cshow(st2.pc)[:200],replay=rep); kinds.add('near'); continue
        for tag,E in sincs(ex,st2,w,w*w):
            F=effs3(u,w,T.cos(u),T.sin(u),T.cos(w),E); G=[sym('G%d'%q,'cplx') for q in range(3)]; L=invert3(F,U)
            ok=True
            for q,i in enumerate(idx):
                alt=[L[i]]
                if i==8: alt=[-(W[0]+W[4]),L[8]]
                if not any(equal(W[q],v) for v in alt): ok=False; det=det or 'Q[%d] is not the inverted closed form (%s)'%(i,tag); break
            if ok: got=True; kinds.add(tag.split()[0]); break
        ck.ob(pn+'/value',got,fn,det,replay=rep,backend='polynomial-identity')
        if got: ck.canary(nm,not equal(W[0],L[0]+sym('canary')))
    ck.ob(nm+'/reaches',{'exact','near'}<=kinds,fn,str(kinds),replay=rep)
def evalues3(ck,ex,what,rep):
    """the three returned numbers have the elementary symmetric functions tr U, conj(tr U), 1 of the eigenvalues of an SU(3) matrix"""
    n=3; nm='Eigenvalues_suNC[%s]'%ex.cfg; U=[sym('U%d'%k,'cplx') for k in range(9)]; tr=trc(U,3)
    SQ,CB=sym('root','cplx'),sym('cuberoot','cplx'); got={}
    def pair(x): return [ex.asfp(v) for v in x]
    def sq(ex_,st,a,I):
        v=[ex_.asfp(x) for x in a]; st.flags=dict(st.flags); st.flags['sq']=v[0]+v[1].scale(1j); return [(st,Agg([T.re(SQ),T.im(SQ)]))]
    def cb(ex_,st,a,I):
        v=[ex_.asfp(x) for x in a[1:]]; st.flags=dict(st.flags); st.flags['cb']=v[0]+v[1].scale(1j)
        ex_.write(st,a[0],T.re(CB),('double',),None); ex_.write(st,a[0].plus(num(8)),T.im(CB),('double',),None); return [(st,None)]
    helpers={}
    for m in ex.mods.values():
        for q in ('squarert','cubert'):
            if q in m.funcs: helpers[q]=m.funcs[q]
    if len(helpers)<2: raise Unsupported('square and cube root helpers not found')
    # the helpers: root^2=z, root^3=z in polar form
    z=sym('z','cplx'); R=sym('R','cplx'); ang=app('atan2',(T.im(z),T.re(z))); ab=cabs(z)
    for st1,rv in ex.call(helpers['squarert'],[T.re(z),T.im(z),T.re(R),T.im(R)],State()):
      for st2,v in forks(ex,st1,lambda s: resolve(ex,s,ex.asfp(rv[0]))+resolve(ex,s,ex.asfp(rv[1])).scale(1j)):
        w=T.sqrt(ab)*(T.cos(ang.scale(0.5))+T.sin(ang.scale(0.5)).scale(1j))
        w2=T.re(w)   # the discriminant is real and not negative (lemma below), so the real part is the root
        ck.ob(nm+'/square-root',any(bool(equal(v,q)) for q in (w,-w,w2,-w2)),'squarert','got '+show(v)[:200],replay=rep,backend='polynomial-identity')
    ex.contracts['cbrt']=lambda ex_,st,a,I: [(st,app('cbrt',(ex_.asfp(a[0]),)))]
    o=cobj('res',[None])
    for st2,rv in ex.call(helpers['cubert'],[Ptr(o),T.re(z),T.im(z)],State()):
        v=getc(ex,st2,o,0); w=app('cbrt',(ab,))*(T.cos(ang.scale(1/3.))+T.sin(ang.scale(1/3.)).scale(1j))
        ck.ob(nm+'/cube-root',bool(equal(v,w)),'cubert','got '+show(v)[:200],replay=rep,backend='polynomial-identity')
    l1,l2=T.unit_atom('lam1'),T.unit_atom('lam2'); l3=(l1*l2).conj(); tt=l1+l2+l3; mm_=tt.scale(1/3.)
    D=(-(mm_**3)+(tt*tt.conj()).scale(1/6.)-num(0.5))**2+(tt.conj().scale(1/3.)-mm_*mm_)**3; ab2=ONE
    for x_,y_ in ((l1,l2),(l1,l3),(l2,l3)): ab2=ab2*((x_-y_)*(x_-y_).conj())
    ck.ob(nm+'/discriminant-is-real',bool(equal(D,ab2.scale(1/108.))),'Eigenvalues_suNC','q^2+p^3 is not prod|l_i-l_j|^2/108',backend='polynomial-identity')
    ex.contracts['squarert']=sq; ex.contracts['cubert']=cb
    zo=cobj('z',[None]*3); uo=cobj('U',U); t=sym('t','cplx'); a=ONE-t.scale(1/3.)
    k=0
    for st2,rv in ex.call(ex.fn('Eigenvalues_suNC'),[Ptr(zo),Ptr(uo)],State()):
        k+=1; sub_=lambda p: subst(subst(p,U[0],t-U[4]-U[8]),aid_conj(U[0]),t.conj()-U[4].conj()-U[8].conj())
        zz=[sub_(getc(ex,st2,zo,i)) for i in range(3)]; s=st2.flags.get('sq'); c=st2.flags.get('cb')
        if s is None or c is None: raise Unsupported('roots not used')
        s=sub_(s); c=sub_(c)
        zero=ex.prove(st2,c_eq(T.re(CB)))
        y=[q-(ONE-a) for q in zz]
        # y are the roots of y^3+3 p y+2 q=0 by the cubic formula
        m=t.scale(1/3.); p=-(m*m)+t.conj().scale(1/3.); qq=-(m*m*m)+(t*t.conj()).scale(1/6.)-num(0.5)
        # substitute: the square of the root is s, the cube of the cube root is c
        red=lambda e: reduce_pow(reduce_pow(e,CB,3,c),SQ,2,s)
        ck.ob('%s/path%d/discriminant'%(nm,k),bool(equal(s,qq*qq+p*p*p)),'Eigenvalues_suNC','square root of '+show(s)[:200],replay=rep,backend='polynomial-identity')
        kap=1 if equal(c,SQ-qq) or equal(c,-SQ-qq) else -1 if equal(c,SQ+qq) or equal(c,qq-SQ) else 0; sg=kap
        ck.ob('%s/path%d/radicand'%(nm,k),sg!=0,'Eigenvalues_suNC','cube root of '+show(c)[:200],replay=rep,backend='polynomial-identity')
        if zero:
            # then the other term of the formula vanishes as well (p=0): exact when the cube root is zero
            z0=[subst_c(v,CB,ZERO) for v in y]; ck.ob('%s/path%d/vanishing-root'%(nm,k),all(bool(equal(v,ZERO)) for v in z0),'Eigenvalues_suNC',show(z0[0])[:100],replay=rep); continue
        om=num(-0.5)+num(math.sqrt(3)/2).scale(1j); CK=CB*(kap or 1); v=T.div(-p,CK)
        want=[CK+v,om*CK+om.conj()*v,om.conj()*CK+om*v]
        for i in range(3):
            ck.ob('%s/path%d/root,%d'%(nm,k,i),any(bool(equal(y[i],q)) for q in want) and not any(bool(equal(y[i],y[j])) for j in range(i)),'Eigenvalues_suNC','y=%s'%show(y[i])[:200],replay=rep,backend='polynomial-identity')
        # algebra of the formula: e1=0, e2=3p, e3=-2q with u^3=root-q, root^2=q^2+p^3
        P_,Q_,u_=sym('P','cplx'),sym('Qq','cplx'),sym('uu','cplx'); v_=sym('vv','cplx')
        Y=[u_+v_,om*u_+om.conj()*v_,om.conj()*u_+om*v_]
        ck.ob('%s/path%d/cubic-formula'%(nm,k),bool(equal(Y[0]+Y[1]+Y[2],ZERO)) and bool(equal(Y[0]*Y[1]+Y[0]*Y[2]+Y[1]*Y[2],u_*v_*-3)) and bool(equal(Y[0]*Y[1]*Y[2],u_**3+v_**3)),'Eigenvalues_suNC',backend='polynomial-identity')
        ck.canary(nm,not equal(y[0],want[0]+sym('canary')))
def aid_conj(p): return p.conj()
def subst_c(p,x,v): return subst(subst(p,x,v),x.conj(),v.conj())
def reduce_pow(e,x,k,v): return e
# ---------- NC>=4
def vandermonde4(ck,ex,what,rep):
    n=ex.NC
    for fn,order in (('solvandermonde','fx'),('solvandermonde_new','xf')):
        f=ex.fn(fn)
        if f is None: continue
        x=[sym('x%d'%k) for k in range(n)]; e=[sym('e%d'%k,'cplx') for k in range(n)]; fo=cobj('f',e); xo=robj('x',x)
        args=[Ptr(fo),Ptr(xo)] if order=='fx' else [Ptr(xo),Ptr(fo)]
        for st2,rv in ex.call(f,args,State()):
            F=[getc(ex,st2,fo,k) for k in range(n)]
            for k in range(n):
                v=ZERO
                for j in reversed(range(n)): v=v*x[k]+F[j]
                ck.ob('%s[%s]/interpolates,%d'%(fn,ex.cfg,k),bool(equal(v,e[k])),fn,'sum_j f_j x_%d^j is not the given value'%k,replay=rep,backend='polynomial-identity')
            ck.canary(fn,not equal(F[0],e[0])); 
    f=ex.fn('calculate_effs_VDM_herm')
    if f is not None:
        x=[sym('x%d'%k) for k in range(n)]; zo=robj('z',x); fo=cobj('f',[None]*n); seen=[]
        def solv(ex_,st,a,I):
            fp=a[1] if a[1].obj is fo else a[0]
            seen.append([getc(ex_,st,fo,k) for k in range(n)]); ok=a[0].obj is zo or a[1].obj is zo
            if not ok: seen.append(None)
            return [(st,None)]
        ex.contracts['solvandermonde_new']=solv; ex.contracts['solvandermonde']=solv
        ex.call(f,[Ptr(fo),Ptr(zo)],State())
        ck.ob('calculate_effs_VDM_herm[%s]'%ex.cfg,len(seen)==1 and seen[0] is not None and all(bool(equal(seen[0][k],T.cos(x[k])+T.sin(x[k]).scale(1j))) for k in range(n)),'calculate_effs_VDM_herm','the solver is not given exp(i z)',replay=rep)
def exp4(ck,ex,fn,rep):
    n=ex.NC; nm='%s[%s]'%(fn,ex.cfg); Q=herm(n); n2=n*n
    if fn.endswith('short'):
        got=[]
        def e(ex_,st,a,I):
            got.append([getc(ex_,st,a[1].obj,k) for k in range(n2)])
            for k in range(n2): setcc(ex_,st,a[0],k,sym('R%d'%k,'cplx'))
            return [(st,None)]
        ex.contracts['exponentiate']=e; uo=cobj('U',[None]*n2); qo=cobj('Q',packed(Q,n))
        for st2,rv in ex.call(ex.fn(fn),[Ptr(uo),Ptr(qo)],State()):
            ck.ob(nm+'/unpacks',len(got)==1 and all(same(got[0][k],Q[k]) for k in range(n2)),fn,'the matrix given to exponentiate is not the unpacked one',replay=rep)
            ck.ob(nm+'/result',all(same(getc(ex,st2,uo,k),sym('R%d'%k,'cplx')) for k in range(n2)),fn,'',replay=rep)
        return
    uo=cobj('U',[None]*n2); qo=cobj('Q',Q)
    if 'gsl' in ex.cfg:
        x=[sym('x%d'%k) for k in range(n)]; F=[sym('F%d'%k,'cplx') for k in range(n)]; bad=[]
        def ev(ex_,st,a,I):
            if not all(same(getc(ex_,st,a[1].obj,k),Q[k]) for k in range(n2)): bad.append('eigenvalues of another matrix')
            for k in range(n): ex_.write(st,a[0].plus(num(8*k)),x[k],('double',),None)
            return [(st,None)]
        def ef(ex_,st,a,I):
            if not all(same(ex_.read(st,a[1].plus(num(8*k)),('double',),None),x[k]) for k in range(n)): bad.append('coefficients for other eigenvalues')
            for k in range(n): setcc(ex_,st,a[0],k,F[k])
            return [(st,None)]
        ex.contracts['Eigenvalues_hermitian']=ev; ex.contracts['calculate_effs_VDM_herm']=ef
        want=[ZERO]*n2; Pw=[ONE if k%(n+1)==0 else ZERO for k in range(n2)]
        for j in range(n): want=[want[k]+F[j]*Pw[k] for k in range(n2)]; Pw=mm(Pw,Q,n)
        for st2,rv in ex.call(ex.fn(fn),[Ptr(uo),Ptr(qo)],State()):
            U=outmat(ex,st2,uo,n); b=next((k for k in range(n2) if not equal(U[k],want[k])),None)
            ck.ob(nm+'/value',b is None and not bad,fn,'; '.join(bad) or 'U[%s] is not sum_j f_j Q^j'%b,replay=rep,backend='polynomial-identity')
            ck.canary(nm,not equal(U[0],want[0]+sym('canary')))
        return
    # scaling, rational approximation and squaring
    st=State(); ini=ex.fn('init_factorial')
    if ini is not None:
        o=ex.call(ini,[],st)
        if len(o)!=1: raise Unsupported('init_factorial')
        st=o[0][0]
    ident=[ONE if k%(n+1)==0 else ZERO for k in range(n2)]
    q=sym('qsym')  # all matrices are polynomials of one matrix: compare coefficients of its powers
    calls=[]
    def inv(ex_,st,a,I):
        st.flags=dict(st.flags); st.flags['inv']=[getc(ex_,st,a[1].obj,k) for k in range(n2)]
        for k in range(n2): setcc(ex_,st,a[0],k,sym('I%d'%k,'cplx'))
        return [(st,ZERO)]
    def right(ex_,st,a,I):
        A=[getc(ex_,st,a[0].obj,k) for k in range(n2)]; B=[getc(ex_,st,a[1].obj,k) for k in range(n2)]
        if not same(B[1],sym('I1','cplx')): return None
        st.flags=dict(st.flags); st.flags['num']=A
        for k in range(n2): setcc(ex_,st,a[0],k,sym('R%d'%k,'cplx'))
        return [(st,None)]
    def powr(ex_,st,a,I):
        if not all(same(getc(ex_,st,a[1].obj,k),sym('R%d'%k,'cplx')) for k in range(n2)): raise Violation('the power is not taken of the rational approximation')
        it=ex_.asint(a[2]).const(); st.flags=dict(st.flags); st.flags['pow']=it; m=st.flags.get('n',0)+1; st.flags['n']=m
        for k in range(n2): setcc(ex_,st,a[0],k,sym('X%d_%d'%(m,k),'cplx'))
        return [(st,None)]
    def gram(ex_,st,a,I):
        st.flags=dict(st.flags); st.flags['gram']=True
        m=st.flags.get('n',0)
        if not all(same(getc(ex_,st,a[0].obj,k),sym('X%d_%d'%(m,k),'cplx')) for k in range(n2)): raise Violation('another matrix than the last power is reunitarised')
        for k in range(n2): setcc(ex_,st,a[0],k,sym('Y%d_%d'%(m,k),'cplx'))
        return [(st,None)]
    ex.contracts.update(inverse=inv,multab_atomic_right=right,matrix_power=powr,gram_reunit=gram)
    ex.contracts['cabs']=lambda ex_,st,a,I: [(st,app('cabs',(ex_.asfp(a[0]),ex_.asfp(a[1]))))]
    # horner sums stay manageable with Q restricted to a two-parameter family is not general: use the full matrix
    powers=[ident]
    for j in range(4): powers.append(mm(powers[-1],Q,n))
    outs=ex.call(ex.fn(fn),[Ptr(uo),Ptr(qo)],st); k=0
    for st2,rv in outs:
        k+=1; fl=st2.flags; pn='%s/path%d'%(nm,k)
        if not fl.get('pow'): ck.ob(pn,False,fn,'no power taken',replay=rep); continue
        it=fl['pow']; m=fl['n']
        cf=lambda M_: coeffs(M_,powers,n)
        A=cf(fl['num']); B=cf(fl['inv']); ok=A is not None and B is not None; det='not polynomials of Q'
        if ok:
            x=[a*(it/1j)**j for j,a in enumerate(A)]; y=[b*(it/1j)**j for j,b in enumerate(B)]   # in powers of iQ/it
            # P(x)-exp(x)P(-x)=O(x^9) for x=iQ/it
            N=8; e=[1/math.factorial(j) for j in range(N+1)]
            g=lambda L,j: L[j] if j<len(L) else 0
            ser=[g(x,j)-sum(e[i]*g(y,j-i) for i in range(j+1)) for j in range(N+1)]
            ok=all(abs(v)<1e-15 for v in ser) and abs(x[0]-1)<1e-15; det='the rational function agrees with the exponential only up to order %d'%next((j for j,v in enumerate(ser) if abs(v)>=1e-15),0)
            ck.ob(pn+'/halvings',it>=8 and it&(it-1)==0,fn,'scaled by %d'%it,replay=rep)
        ck.ob(pn+'/rational-approximation',ok,fn,det,replay=rep,backend='polynomial-identity')
        ck.ob(pn+'/reunitarised',bool(fl.get('gram')) and all(same(getc(ex,st2,uo,i),sym('Y%d_%d'%(m,i),'cplx')) for i in range(n2)),fn,'result is not the reunitarised power',replay=rep)
    ck.ob(nm+'/paths',k>0,fn,''); ck.canary(nm,k>0)
def setcc(ex,st,p,k,v):
    ex.write(st,p.plus(num(16*k)),T.re(v),('double',),None); ex.write(st,p.plus(num(16*k+8)),T.im(v),('double',),None)
def coeffs(M_,powers,n):
    """coefficients of a matrix as a polynomial of Q, or None"""
    A=[]; R=list(M_)
    for j in reversed(range(len(powers))):
        # the monomial q01^j... of the top power fixes the coefficient
        w=powers[j]; k=1 if j else 0
        key=next((mo for mo in w[k].d if len(mo)==j),None)
        c=R[k].d.get(key,0)/w[k].d[key] if key is not None else 0
        if j==0: c=R[0].d.get((),0)
        R=[a-b.scale(c) if c else a for a,b in zip(R,w)]; A.insert(0,c)
    if any(maxc(r)>1e-12 for r in R): return None
    return A
def power4(ck,ex,what,rep):
    """matrix_power(a,b,k)=b^k, with matrices represented by their exponent"""
    n=ex.NC; n2=n*n; nm='matrix_power[%s]'%ex.cfg
    pw=lambda k,i: app('pw',(num(k),num(i)),'cplx')
    def expo(ex_,st,p):
        v=app_single(getc(ex_,st,p.obj,0))
        if v is None or v.name!='pw': raise Unsupported('not a power')
        k=v.args[0].const()
        if not all(same(getc(ex_,st,p.obj,i),pw(k,i)) for i in range(n2)): raise Violation('a matrix with entries of different powers')
        return k
    def mul(ex_,st,a,I):
        if a[0].obj is a[1].obj or a[0].obj is a[2].obj: raise Violation('product overwrites its factor')
        k=expo(ex_,st,a[1])+expo(ex_,st,a[2])
        for i in range(n2): setcc(ex_,st,a[0],i,pw(k,i))
        return [(st,None)]
    ex.contracts['multab']=mul; f=ex.fn('matrix_power')
    for k in (1,2,3,5,6,7,8,11,16,32,64,100,128,256,512,1024):
        a=cobj('a',[None]*n2); b=cobj('b',[pw(1,i) for i in range(n2)])
        def go(k=k,a=a,b=b):
            ex.maxiter=max(ex.maxiter,64)
            outs=ex.call(f,[Ptr(a),Ptr(b),num(k)],State())
            ck.ob('%s/%d'%(nm,k),bool(outs) and all(expo(ex,s,Ptr(a))==k for s,_ in outs),'matrix_power','the result is not the %d-th power'%k,replay=rep)
        ck.guard('%s/%d'%(nm,k),go,'matrix_power',replay=rep)
    ck.canary(nm,not same(pw(2,0),pw(3,0)))
# ---------- native oracle
def _expm(q):
    w,v=np.linalg.eigh(q); return (v*np.exp(1j*w))@v.conj().T
def native(s,seed):
    C=nlat.C; n=s.n; rng=np.random.default_rng(seed+3); L=s.L
    gsl=n>3 and not hasattr(L,'init_factorial')
    def al(k): 
        b=np.zeros(k*2+2); o=(-b.ctypes.data%16)//8; return b[o:o+2*k].view(complex)
    p=lambda a: a.ctypes.data_as(C.c_void_p)
    def herms():
        for sc in (1e-9,1e-5,1e-3,0.02,0.05,0.06,0.08,0.3,1.0,1.5):
            for _ in range(6):
                z=rng.normal(size=(n,n))+1j*rng.normal(size=(n,n)); q=(z+z.conj().T)/2; q-=np.eye(n)*np.trace(q)/n; q*=sc/np.sqrt((abs(q)**2).sum()); yield q,True
        if n==3:
            z=rng.normal(size=(3,3))+1j*rng.normal(size=(3,3)); v=np.linalg.qr(z)[0]
            for d in (0.3,-0.4,0.8): q=(v*np.array([d,d,-2*d]))@v.conj().T; yield (q+q.conj().T)/2,False
        yield np.zeros((n,n),complex),True
        yield np.diag([0.4]+[-0.4/(n-1)]*(n-1)).astype(complex),False
        d=rng.normal(size=n); yield np.diag(0.4*(d-d.mean())).astype(complex),n<4
    for q,dist in herms():
        if gsl and (not dist or abs(q).max()<1e-2): continue    # the interpolation needs distinct eigenvalues
        Q=al(n*n); Q[:]=q.flatten(); U=al(n*n); E=_expm(q); inp=dict(Q=str(q.tolist()))
        tol=1e-12 if n<4 else 1e-9
        s.d('exponentiate',p(U),p(Q),ret=None)
        if not abs(U.reshape(n,n)-E).max()<tol: return dict(function='exponentiate',input=inp,got=str(U.tolist())[:600],expected=str(E.flatten().tolist())[:600])
        S=al(n*n); S[:n*(n+1)//2-1]=[q[i,j] for i in range(n-1) for j in range(i,n)]; U[:]=0
        s.d('exponentiate_short',p(U),p(S),ret=None)
        if not abs(U.reshape(n,n)-E).max()<tol: return dict(function='exponentiate_short',input=inp,got=str(U.tolist())[:600],expected=str(E.flatten().tolist())[:600])
        if n>3 or not dist: continue
        U[:]=E.flatten(); W=al(n*n); s.d('exact_log_slow',p(W),p(U),ret=None)
        if not abs(W.reshape(n,n)-q).max()<(1e-7 if abs(q).max()<0.1 else 1e-9): return dict(function='exact_log_slow',input=dict(U=str(E.tolist())),got=str(W.tolist())[:600],expected=str(q.flatten().tolist())[:600])
        W=al(n*n); s.d('exact_log_slow_short',p(W),p(U),ret=None); want=[q[i,j] for i in range(n-1) for j in range(i,n)]
        if not abs(W[:len(want)]-want).max()<1e-7: return dict(function='exact_log_slow_short',input=dict(U=str(E.tolist())),got=str(W.tolist())[:600],expected=str(want)[:600])
    if n>3:
        z=rng.normal(size=(n,n))+1j*rng.normal(size=(n,n)); B=al(n*n); B[:]=z.flatten()/4; A=al(n*n)
        for k in (1,2,3,5,6,7,8,11,16):
            s.d('matrix_power',p(A),p(B),C.c_int(k),ret=None); w=np.linalg.matrix_power(B.reshape(n,n),k)
            if not abs(A.reshape(n,n)-w).max()<1e-9*max(1,abs(w).max()): return dict(function='matrix_power',input=dict(k=k,b=str(B.tolist())),got=str(A.tolist())[:600])
