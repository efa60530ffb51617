"""Elimination algorithms: loop-invariant (cut) proofs for LU determinant, Gauss-Jordan inverse and Newton inverse."""
from matfn import *
def blk(W,n,k): return [W[i*n+j] for i in range(k,n) for j in range(k,n)]
def _nonneg_lin(pc,zero_atoms,given=()):
    """does the path condition (linear in |x|^2) imply that all the given complex atoms vanish?"""
    import z3
    V={}
    def v(m):
        if m not in V: V[m]=z3.Real('m%d'%len(V))
        return V[m]
    S=z3.Solver(); S.set('timeout',3000)
    def lin(p):
        e=z3.RealVal(0)
        for m,c in p.d.items():
            c=complex(c).real
            if len(m)==0: e=e+c; continue
            mv=v(m)
            if len(m)==2 and ATOMS[m[0]].conj==m[1]: S.add(mv>=0)
            e=e+c*mv
        return e
    def go(c):
        if c is True: return z3.BoolVal(True)
        if c is False: return z3.BoolVal(False)
        if c[0]=='eq': return lin(c[1])==0
        if c[0]=='le': return lin(c[1])<=0
        if c[0]=='lt': return lin(c[1])<0
        if c[0]=='not': return z3.Not(go(c[1]))
        if c[0]=='and': return z3.And(go(c[1]),go(c[2]))
        return z3.BoolVal(True) if c[0]!='or' else z3.Or(go(c[1]),go(c[2]))
    for c in pc: S.add(go(c))
    goal=[]
    for x in given: S.add(v(next(iter((x*x.conj()).d)))==0)
    for x in zero_atoms:
        m=next(iter((x*x.conj()).d)); goal.append(v(m)>0); S.add(v(m)>=0)
    S.add(z3.Or(*goal))
    return str(S.check())=='unsat'
def phi_in(ex,fr,h,env):
    """(operand, value) pairs flowing into the header's phis"""
    out=[]
    for I in fr.f.blocks[h].instrs:
        if I.op!='phi': break
        for v,b in I.args:
            if b==ex.cut_prev: out.append((v,ex.val(v,I.ty,env,fr)))
    return out
def vkey(v):
    if isinstance(v,Poly): return v.key()
    if isinstance(v,(Agg,Vec)): return tuple(vkey(x) for x in v)
    if isinstance(v,Ptr): return ('p',v.obj.id,tuple(i.key() for i in v.idx),v.off.key())
    return repr(v)
def abstract_product(ex,fr,h,env,prod,d):
    """generalise the running product held in loop-carried variables: returns True if found"""
    hit=False; rp,ip=T.re(prod),T.im(prod); rd,im_=T.re(d),T.im(d)
    def conv(x):
        for a,b in ((rp,rd),(ip,im_)):
            if same(x,a): return b
            if same(x,-a): return -b
        return None
    for v,x in phi_in(ex,fr,h,env):
        if not (isinstance(v,tuple) and v[0]=='loc'): continue
        if isinstance(x,(Agg,Vec)) and len(x)==2:
            y=[conv(ex.asfp(t)) for t in x]
            if all(t is not None for t in y): env[v[1]]=type(x)(y); hit=True
        elif isinstance(x,Poly) and not x.is_const():
            y=conv(x)
            if y is not None: env[v[1]]=y; hit=True
    return hit
def prove_lu(ck,ex,fname,N,alloc_inside=False):
    n=N; name='%s[%s,N=%d]'%(fname,ex.cfg,N)
    A=M('u',n); cache={}
    def rep():
        return native_replay(ck,ex.cfg,fname,[zv('N',n),cin('U',A)] if fname=='LU_det' else [zv('N',n),Arg('c*','U',A,post=[None]*(n*n))],mdet(A),valid=None) or \
               native_replay(ck,ex.cfg,fname,[zv('N',n),cin('U',A,g_perm(n)) if fname=='LU_det' else Arg('c*','U',A,post=[None]*(n*n),gen=g_perm(n))],mdet(A))
    def go():
        f=ex.fn(fname)
        if f is None: raise Unsupported('function %s not found'%fname)
        o=cobj('U',A); st=State(); feas=ex.feas; ex.feas=False; ex.fork_select=True; ex.merge_returns=10**9
        bad=[]; seen=set()
        def cut(ex_,st,fr,h,env):
            ob=target(st)
            g=st.flags.get('lu')
            if g is None:
                W=getm(ex,st,ob,n*n)
                if not all(same(w,a) for w,a in zip(W,A)): raise Unsupported('elimination starts from a different matrix %r %s'%(ob,[show(w) for w in W][:4]))
                st.flags=dict(st.flags); st.flags['lu']=(0,ONE); return
            k,prod=g
            W=getm(ex,st,ob,n*n)
            cur=A if k==0 else M('u_%d_'%k,n)
            B=blk(W,n,k+1)
            key=(k,)+tuple(x.key() for x in B)+(W[k*(n+1)].key(),)
            s=cache.get(key)
            if s is None:
                D=mdet(blk(cur,n,k)); E=W[k*(n+1)]*mdet(B)
                s=1 if same(D,E) else -1 if same(D,-E) else 0
                if s==0: s=1 if equal(D,E) else -1 if equal(D,-E) else 0
                cache[key]=s
                ck.ob('%s/step%d.%d'%(name,k,len(cache)),s!=0,fname,'elimination step %d does not preserve the determinant'%k if s==0 else '',replay=rep,backend='polynomial-identity')
            if s==0: bad.append(k); return False
            nw=M('u_%d_'%(k+1),n)
            setm(ex,st,Ptr(ob),nw)
            prod=prod*W[k*(n+1)].scale(s)
            d=sym('d_%d'%(k+1),'cplx')
            if abstract_product(ex,fr,h,env,prod,d): prod=d
            st.flags=dict(st.flags); st.flags['lu']=(k+1,prod)
            key=(k+1,h,prod.key(),tuple(vkey(x) for _,x in phi_in(ex,fr,h,env)))
            if key in seen: return False
            seen.add(key); st.pc=()
        def target(st):
            if fname!='LU_det': return o
            c=[x for x in st.mem if OBJS[x].size is not None and x!=o.id and _is16(ex,st,OBJS[x],n*n)]
            if not c: raise Unsupported('work matrix not found')
            return OBJS[c[0]]
        ex.cuts={'LU_det_overwrite':cut,'LU_det':cut}
        try: outs=ex.call(f,[num(n),Ptr(o)],st)
        finally: ex.cuts={}; ex.feas=feas; ex.fork_select=False
        ok=0
        for i,(st2,rv) in enumerate(outs):
            if isinstance(rv,(Agg,Vec)): rv=ex.asfp(rv[0])+ex.asfp(rv[1]).scale(1j)
            k,prod=st2.flags.get('lu',(0,ONE))
            cur=A if k==0 else M('u_%d_'%k,n)
            if k==n-1:
                want=prod*cur[-1]
                good=same(rv,want)
                if ok==0: ck.canary(name,not same(rv,want+sym('canary')))
                ok+=1
            else:
                # singular exit: the whole remaining column must vanish
                good=rv.is_zero() and _nonneg_lin(st2.pc,[cur[j*n+k] for j in range(k,n)])
            ck.ob('%s/exit%d'%(name,i),good,fname,'returned %s on an exit at step %d'%(show(rv)[:200],k) if not good else '',replay=rep,backend='polynomial-identity')
        if ok==0 and not bad: raise Unsupported('no regular exit reached')
    ck.guard(name,go,fname,replay=rep); ck.use(ex)
def _is16(ex,st,o,k):
    return o.size is not None and o.size.is_const() and o.size.const()==16*k
def g_perm(n):
    def g(rng):
        p=list(range(n)); rng.shuffle(p)
        return [complex(rng.uniform(.5,1),rng.uniform(-1,1)) if p[i]==j else (complex(rng.uniform(-1,1),rng.uniform(-1,1)) if p[i]<j else 0) for i in range(n) for j in range(n)]
    return g
def prove_inverse(ck,ex):
    n=ex.NC; fname='inverse'; name='inverse[%s]'%ex.cfg; A0=M('m',n); n2=n*n
    def rep():
        for g in (None,g_perm(n),g_perm(n)):
            for _ in range(4):
                r=inv_native(ck,ex.cfg,n,g)
                if r: return r
        return None
    if n==2:
        d=recip(mdet(A0))
        return prove(ck,ex,fname,[cout('r',[A0[3]*d,-A0[1]*d,-A0[2]*d,A0[0]*d]),cin('m',A0)],replay_fn=rep)
    def go():
        f=ex.fn(fname)
        if f is None: raise Unsupported('function not found')
        om=cobj('m',A0); orr=cobj('r',[None]*n2); st=State(); feas=ex.feas; ex.feas=False; ex.fork_select=True; ex.merge_returns=10**9
        nst=[0]; seen=set(); cache=set(); bad=[]
        I1=ident(n)
        def cut(ex_,st,fr,h,env):
            g=st.flags.get('gj')
            if g is None:
                a=b=None
                for x in list(st.mem):
                    ob=OBJS[x]
                    if ob is om or not (ob is orr or _is16(ex,st,ob,n2)): continue
                    try: W=getm(ex,st,ob,n2)
                    except (Unsupported,Violation): continue
                    if all(same(p,q) for p,q in zip(W,A0)): a=ob
                    elif all(same(p,q) for p,q in zip(W,I1)): b=ob
                if a is None or b is None: return
                cA=M('A_0_',n); cB=M('B_0_',n); setm(ex,st,Ptr(a),cA); setm(ex,st,Ptr(b),cB)
                st.flags=dict(st.flags); st.flags['gj']=(0,a,b,frozenset()); return
            k,a,b,Z=g
            if len(Z)==n2-n: return      # matrix is diagonal: final scaling is checked at the exit
            cA=M('A_%d_'%k,n); cB=M('B_%d_'%k,n)
            cAz=[ZERO if (i//n,i%n) in Z else cA[i] for i in range(n2)]
            W=getm(ex,st,a,n2); V=getm(ex,st,b,n2)
            if all(same(p,q) for p,q in zip(W,cA)) and all(same(p,q) for p,q in zip(V,cB)): return
            # extract the row operation T from the right-hand side
            ids=[{aid(cB[j*n+c]):j for j in range(n)} for c in range(n)]
            T_=[None]*n2; good=True
            for i in range(n):
                row=[ZERO]*n
                for m,c in V[i*n].d.items():
                    hit=[x for x in m if x in ids[0]]
                    if len(hit)!=1: good=False; break
                    rest=list(m); rest.remove(hit[0])
                    row[ids[0][hit[0]]]=row[ids[0][hit[0]]]+Poly({tuple(rest):c})
                for j in range(n): T_[i*n+j]=row[j]
            TA=TB=None
            if good:
                TB=mm(T_,cB); good=all(same(p,q) for p,q in zip(TB,V))
            Z2=set()
            if good:
                TA=mm(T_,cAz)
                for i in range(n2):
                    if same(TA[i],ZERO) or (equal(TA[i],ZERO) is True): Z2.add((i//n,i%n))
                    elif not (same(TA[i],W[i]) or equal(TA[i],W[i]) is True): good=False
                # invertibility of T: must have nonzero determinant polynomial
                dT=mdet(T_)
                if good and (same(dT,ZERO) or equal(dT,ZERO) is True): good=False
            if good and not all((r,c) in Z for c in range(n) for r in range(c+1,n)):
                # forward elimination: a vanishing pivot must mean that its whole column below vanishes
                ids2={aid(cA[i]):i for i in range(n2)}
                piv={ids2[y] for x in set().union(*[t.atoms() for t in T_]) if ATOMS[x].kind=='den' for y in ATOMS[x].args[0].atoms() if y in ids2}
                for q in piv:
                    r0,c0=divmod(q,n)
                    R=[r for r in range(n) if (r,c0) in Z2 and (r,c0) not in Z]
                    pk=(k,q,tuple(R),len(st.pc))
                    pv=_nonneg_lin(st.pc,[cA[r*n+c0] for r in list(R)+[r0]],given=[cA[q]])
                    nst[0]+=1
                    ck.ob('%s/pivot%d.%d'%(name,k,nst[0]),pv,fname,'' if pv else 'a zero pivot can be chosen although the column is not zero',replay=rep,backend='z3-linear')
                    if not pv: good=False
            key=(k,tuple(x.key() for x in V))
            if key not in cache:
                cache.add(key)
                ck.ob('%s/step%d.%d'%(name,k,len(cache)),good,fname,'elimination step is not the same row operation on the matrix and on the inverse' if not good else '',replay=rep,backend='polynomial-identity')
            if not good: bad.append(k); return False
            nA=M('A_%d_'%(k+1),n); nB=M('B_%d_'%(k+1),n); setm(ex,st,Ptr(a),nA); setm(ex,st,Ptr(b),nB)
            st.flags=dict(st.flags); st.flags['gj']=(k+1,a,b,frozenset(Z2))
            key=(k+1,h,frozenset(Z2),tuple(vkey(x) for _,x in phi_in(ex,fr,h,env)))
            if key in seen: return False
            seen.add(key); st.pc=()
        ex.cuts={'gauss_jordan':cut,'inverse':cut}
        try: outs=ex.call(f,[Ptr(orr),Ptr(om)],st)
        finally: ex.cuts={}; ex.feas=feas; ex.fork_select=False
        nok=0
        for i,(st2,rv) in enumerate(outs):
            g=st2.flags.get('gj')
            if g is None: raise Unsupported('elimination not recognised')
            k,a,b,Z=g
            cA=M('A_%d_'%k,n); cB=M('B_%d_'%k,n)
            if rv.is_const() and rv.const()==0 or (rv.is_const() and rv.const()==1 and False):
                pass
            R=getm(ex,st2,orr,n2)
            diag_ok=len(Z)==n2-n and all((r,c) in Z for r in range(n) for c in range(n) if r!=c)
            if _is_fail(rv):
                # reported singular: some pivot must vanish on this path
                good=diag_ok and any(_nonneg_lin(_sq(st2.pc),[cA[j*(n+1)]]) or _zero_pc(st2.pc,cA[j*(n+1)]) for j in range(n))
                det='failure reported although no pivot vanishes'
            else:
                good=diag_ok and all(same(R[j*n+c]*cA[j*(n+1)],cB[j*n+c]) or equal(R[j*n+c]*cA[j*(n+1)],cB[j*n+c]) is True for j in range(n) for c in range(n))
                det='matrix not reduced to diagonal form' if not diag_ok else 'result is not the scaled right-hand side'
                if good and nok==0: ck.canary(name,not same(R[0]*cA[0],cB[1]))
                nok+=1
            ck.ob('%s/exit%d'%(name,i),good,fname,'' if good else det,replay=rep,backend='polynomial-identity')
        # pivot rule: the factors divide by an entry that is the largest in its column -> non-zero for invertible input
        if nok==0 and not bad: raise Unsupported('no regular exit')
    ck.guard(name,go,fname,replay=rep); ck.use(ex)
def _is_fail(rv): return rv.is_const() and rv.const() in (-1,4294967295)
def _sq(pc): return pc
def _zero_pc(pc,x):
    r,i=T.re(x),T.im(x); hr=hi=False
    for c in pc:
        for e in _flat(c):
            if e[0]=='eq':
                if same(e[1],r) or same(e[1],-r): hr=True
                if same(e[1],i) or same(e[1],-i): hi=True
    return hr and hi
def _flat(c):
    if isinstance(c,tuple) and c[0]=='and': return _flat(c[1])+_flat(c[2])
    return [c] if isinstance(c,tuple) else []
def inv_native(ck,cfg,n,gen):
    rng=ck.rng
    m=np.array(gen(rng) if gen else [complex(rng.uniform(-1,1),rng.uniform(-1,1)) for _ in range(n*n)]).reshape(n,n)
    if abs(np.linalg.det(m))<1e-3: return None
    out=call_native(cfg,'inverse',['c*','c*'],'i',[[0]*(n*n),list(m.flatten())])
    if out is None or out[0]=='crash': return dict(kind='crash/hang',function='inverse',config=cfg,input=str(m))
    rv,b=out; r=np.array(b[0]).reshape(n,n)
    if rv!=0 or not np.allclose(r@m,np.eye(n),atol=1e-7):
        return dict(function='inverse',config=cfg,input=str(m.tolist()),returned=rv,got=str(r.tolist()),expected=str(np.linalg.inv(m).tolist()))
    return None
def prove_newton(ck,ex):
    n=ex.NC; n2=n*n; fname='newton_approx_inverse'; name='%s[%s]'%(fname,ex.cfg)
    Z=M('z',n); X0=M('x',n)
    def rep():
        for _ in range(6):
            m=np.eye(n)+0.1*np.array([complex(ck.rng.uniform(-1,1),ck.rng.uniform(-1,1)) for _ in range(n2)]).reshape(n,n)
            out=call_native(ex.cfg,fname,['c*','c*'],'v',[list(np.eye(n).flatten()),list(m.flatten())])
            if out is None or out[0]=='crash': return dict(kind='crash',function=fname)
            r=np.array(out[1][0]).reshape(n,n); E=np.eye(n)-m; want=sum(np.linalg.matrix_power(E,k) for k in range(16))
            if not np.allclose(r,want,atol=1e-7) : return dict(function=fname,config=ex.cfg,input=str(m.tolist()),got=str(r.tolist()),expected_newton_iterate=str(want.tolist()))
        return None
    def go():
        f=ex.fn(fname)
        if f is None: raise Unsupported('not found')
        oz=cobj('Z',Z); ox=cobj('X',X0); st=State(); feas=ex.feas; ex.feas=False; ex.fork_select=True; ex.merge_returns=10**9
        done=set()
        I1=ident(n)
        def cut(ex_,st,fr,h,env):
            g=st.flags.get('nw')
            if g is None: st.flags=dict(st.flags); st.flags['nw']=0; return
            X=M('x_%d_'%g,n) if g else X0
            W=getm(ex,st,ox,n2)
            if g not in done:
                done.add(g)
                E=msub(I1,mm(Z,X)); L=msub(I1,mm(Z,W)); R=mm(E,E)
                good=all(same(a,b) for a,b in zip(L,R))
                ck.ob('%s/step%d'%(name,g),good,fname,'Newton step does not square the residual' if not good else '',replay=rep,backend='polynomial-identity')
                if g==0: ck.canary(name,not all(same(a,b) for a,b in zip(L,E)))
                if not good: return False
            setm(ex,st,Ptr(ox),M('x_%d_'%(g+1),n)); st.flags=dict(st.flags); st.flags['nw']=g+1
        ex.cuts={fname:cut}
        try: outs=ex.call(f,[Ptr(ox),Ptr(oz)],st)
        finally: ex.cuts={}; ex.feas=feas; ex.fork_select=False
        if not done: raise Unsupported('no Newton step')
        for i,(st2,rv) in enumerate(outs):
            g=st2.flags['nw']; X=M('x_%d_'%g,n) if g else X0
            good=all(same(a,b) for a,b in zip(getm(ex,st2,ox,n2),X)) and all(same(a,b) for a,b in zip(getm(ex,st2,oz,n2),Z))
            ck.ob('%s/exit%d'%(name,i),good,fname,'state changed between the last step and the exit' if not good else '',replay=rep)
    ck.guard(name,go,fname,replay=rep); ck.use(ex)
