"""Loop rule: inductive treatment of a loop with symbolic trip count.

One generic iteration k is executed on an overlay of the entry state.  The inferred invariant at the head of iteration k is
  - every location written at an index depending injectively on k holds the value written by its own iteration,
  - accumulators hold init + SUM_{j<k} increment(j), coupled recurrences a FOLD term, other rewritten scalars their last value.
The rule checks that this is inductive: no iteration reads or overwrites what another iteration writes (up to those
classified variables); otherwise Unsupported is raised and the obligation is not discharged."""
from terms import *
import terms as T
import exec as X

class Lazy:
    __slots__=('f','v')
    def __init__(s,f): s.f=f; s.v=None
    def get(s):
        if s.v is None:
            s.v=s.f()
            while type(s.v) is Lazy: s.v=s.v.get()
            s.f=None
        return s.v
def force(v):
    return v.get() if type(v) is Lazy else v
X.Lazy=Lazy

def defs(f):
    d=getattr(f,'_defs',None)
    if d is None:
        d={}
        for b in f.blocks.values():
            for i in b.instrs:
                if i.res is not None: d[i.res]=i
        f._defs=d
    return d
def static_iv(f,I,latches):
    """constant step of an integer phi, or None"""
    D=defs(f); step=None
    if I.ty[0]!='i': return None
    for v,b in I.args:
        if b not in latches: continue
        if v[0]!='loc' or v[1] not in D: return None
        J=D[v[1]]
        if J.op not in('add','sub'): return None
        a,c=J.args
        if a==('loc',I.res) and c[0]=='ci': c=c[1]
        elif J.op=='add' and c==('loc',I.res) and a[0]=='ci': c=a[1]
        else: return None
        c=X.sgn(c,I.ty[1])
        if J.op=='sub': c=-c
        if step not in(None,c): return None
        step=c
    return step
def vdepends(v,ids):
    if isinstance(v,Poly): return depends(v,ids)
    if isinstance(v,(X.Vec,X.Agg)): return any(vdepends(x,ids) for x in v)
    if isinstance(v,X.Ptr): return depends(v.off,ids) or any(depends(i,ids) for i in v.idx)
    if isinstance(v,tuple): return not ids.isdisjoint(T.csupport(v))
    if type(v) is Lazy: return vdepends(v.get(),ids)
    if isinstance(v,X.Bits): return vdepends(v.v,ids)
    return False
def trip(cond,k):
    """smallest n>=0 (as Poly, may be negative meaning 0) with cond(k) <=> k<n ; None if not linear in k"""
    if cond is True or cond is False: return None
    kid=aid(k)
    c=cond
    if c[0]=='and':
        return None
    neg=False
    if c[0]=='not': c=c[1]; neg=True
    p=c[1] if c[0] in('lt','le','eq') else None
    if p is None or any(len(m)>1 and kid in m for m in p.d) or any(kid in support(x) and x!=kid for m in p.d for x in m): return None
    m=p.d.get((kid,),0)
    if m==0 or type(m) is not int: return None
    rest=p-k.scale(m)
    if c[0]=='eq':
        if not neg or m not in(1,-1): return None
        return rest.scale(-m)            # loops while k != n
    if neg: return None
    if m<0: return None
    if c[0]=='lt':
        if m==1: return -rest
        return idiv(-rest+(m-1),num(m))
    if m==1: return -rest+1
    return idiv(-rest,num(m))+1

def loop_rule(s,fr,hd,lc,peeled=0):
    env0,st0,prev0=lc[hd][1]
    st0=st0.clone() if False else st0
    L=fr.f.loops[hd]; body=L['body']; f=fr.f
    B=f.blocks[hd]
    phis=[I for I in B.instrs if I.op=='phi']
    init={}
    for I in phis:
        for v,b in I.args:
            if b==prev0: init[I.res]=s.val(v,I.ty,env0,fr); break
        else: raise X.Unsupported('phi init')
    ivs={}
    for I in phis:
        c=static_iv(f,I,L['latches'])
        if c is not None and isinstance(init[I.res],Poly): ivs[I.res]=c
    s.stats.loops+=1
    where='%s:%s'%(getattr(f,'src','?'),B.instrs[-1].line)
    memvars=[]      # carried fixed memory locations: (obj, idx, inner, size, type)
    gvars=[]        # carried ranges of locations rewritten by every iteration
    try:
        for attempt in range(10):
            k=fresh('k','int')
            r=iterate(s,fr,hd,L,env0,st0,init,ivs,phis,k,memvars,where,gvars)
            if r[0]=='more': memvars=r[1]; continue
            if r[0]=='gmore': gvars=gvars+r[1]; continue
            return r[1]
        raise X.Unsupported('loop state does not stabilise')
    except X.CarriedDep:
        if lc[hd][0]==0 and peeled>=1: raise
    # peel one iteration: the first pass round a software pipeline differs from the others
    env=dict(env0); env.update(init)
    outs=s.run(fr,env,st0.clone(),hd,'__start__',{},stop=hd,body=frozenset(L['body']))
    res=[]
    for st,kind,v in outs:
        if kind=='ret': res.append(('ret',st,v))
        elif kind=='exit': res.append((v[2],st,v[0],v[1]))
        else:
            pb,e=v
            lc2=dict(lc); lc2[hd]=(0,(e,st,pb))
            res+=loop_rule(s,fr,hd,lc2,peeled+1)
    return res

def iterate(s,fr,hd,L,env0,st0,init,ivs,phis,k,memvars,where,gvars=()):
    f=fr.f; body=L['body']; kid=aid(k)
    lay=st0.layer()
    env=dict(env0)
    svars=[]     # (kind, ref, symbol, init)
    for I in phis:
        p=init[I.res]
        if I.res in ivs: env[I.res]=p+k.scale(ivs[I.res])
        elif isinstance(p,X.Vec):
            vs=X.Vec()
            for j,x in enumerate(p):
                z=fresh('s.%s.%d'%(I.res,j)); vs.append(z); svars.append(('phi',(I.res,j),z,s.asfp(x)))
            env[I.res]=vs
        elif isinstance(p,Poly) or p is X.UNDEF or isinstance(p,(bool,tuple)):
            sort='int' if I.ty[0]=='i' else 'real'
            z=fresh('s.'+I.res,sort)
            if I.ty==('i',1):
                if isinstance(p,(bool,tuple)): p=ite(p,ONE,ZERO,'int')
                env[I.res]=c_not(c_eq(z))
            else: env[I.res]=z
            if isinstance(p,(bool,tuple)): p=s.asint(p)
            svars.append(('phi',(I.res,None),z,fresh('undef',sort) if p is X.UNDEF else p))
        else:
            # pointer phi: only if it is loop invariant on every back edge
            ok=all(v==('loc',I.res) for v,b in I.args if b in L['latches'])
            if ok: env[I.res]=p
            else:
                z=X.Obj('%loopptr'); env[I.res]=X.Ptr(z); svars.append(('ptr',(I.res,None),z,p))
    for (obj,idx,inner,size,t,pair) in memvars:
        if isinstance(pair,tuple):
            # an integer location that advances by the same amount in every iteration
            z=fresh('m.%s'%obj.name,'int'); v0=s.asint(s.read_cell(st0,obj,idx,inner,t,size))
            s.write_cell(lay,obj,idx,inner,size,v0+k*pair[1],t)
            svars.append(('mem',(obj,idx,inner,size,t,pair),z,v0)); continue
        if pair:
            z=fresh('m.%s'%obj.name,'cplx')
            a=s.asfp(s.read_cell(st0,obj,idx,inner,t,8)); b=s.asfp(s.read_cell(st0,obj,idx,inner+8,t,8))
            s.write_cell(lay,obj,idx,inner,8,T.re(z),t); s.write_cell(lay,obj,idx,inner+8,8,T.im(z),t)
            svars.append(('mem',(obj,idx,inner,8,t,True),z,a+b.scale(1j)))
        else:
            v0=s.read_cell(st0,obj,idx,inner,t,size)
            if t[0]=='ptr':
                z=X.Obj('%loopptr'); s.write_cell(lay,obj,idx,inner,size,X.Ptr(z),t); svars.append(('memptr',(obj,idx,inner,size,t,False),z,v0)); continue
            z=fresh('m.%s'%obj.name,'int' if t[0]=='i' else 'real')
            s.write_cell(lay,obj,idx,inner,size,z,t)
            svars.append(('mem',(obj,idx,inner,size,t,False),z,s.asint(v0) if t[0]=='i' else s.asfp(v0)))
    ghead=[]
    for (obj,idx,q,cells) in gvars:
        rc_=()
        for v,(lo,hi) in zip(*q):
            a=Poly({(v,):1}); rc_+=(c_le(lo-a),c_lt(a-hi))
        q0=st0.clone(); q0.reads=st0.reads; q0.pc=st0.pc+rc_
        hc={}
        for c,(size,N,t,kk) in cells.items():
            try: v0=s.read_cell(q0,obj,idx,c,t,size)
            except X.NeedFork: raise X.CarriedDep('entry value of a carried range is not determined at '+where)
            if v0 is X.UNDEF: v0=fresh('undef')
            v0=force(v0)
            hc[c]=(size,X._ite_val(c_lt(-k),subst(N,kk,k-1),v0),t)
        g=X.Group(idx,hc,([x for x in q[0]],[x for x in q[1]])); ghead.append((obj,g.q[0]))
        lay.wstate(obj).groups.append(g)
    npc0=len(st0.pc)
    # ---- trip count from the header
    probe=lay.clone(); probe.reads=lay.reads
    cond_in=None; header_exit=False
    houts=s.run(fr,dict(env),probe,hd,'__start__',{},body=frozenset([hd]))
    hin=[o for o in houts if o[1]=='exit' and o[2][0] in body]; hout=[o for o in houts if o[1]=='exit' and o[2][0] not in body]
    if hd in L['latches'] and not hin:
        hin=[]
    if hout:
        header_exit=True
        cond_in=False
        for o in hin:
            c=True
            for x in o[0].pc[npc0:]: c=c_and(c,x)
            cond_in=c_or(cond_in,c)
        if len(hin)==1:
            pass
    sids=frozenset([aid(z) for kd,_,z,_ in svars if kd in('phi','mem')]+[T.ATOMS[aid(z)].conj for kd,_,z,_ in svars if kd in('phi','mem')])
    n=None
    if header_exit and not (isinstance(cond_in,tuple) and not sids.isdisjoint(T.csupport(cond_in))):
        n=trip(cond_in,k)
    known_n=n is not None
    if known_n:
        if s.prove(st0,c_le(n)):
            # zero iterations
            return ('done',[zero_exit(s,fr,hd,L,env0,st0,init,phis)])
        zero_case=not s.prove(st0,c_le(-n))
    else:
        n=fresh('n','int'); zero_case=False
    pre=[c_le(-k),c_lt(k-n)]
    if isinstance(cond_in,tuple): pre.append(cond_in)
    lay.pc=st0.pc+tuple(c for c in pre if c is not True)
    if zero_case: lay.pc=lay.pc+(c_lt(-n),)
    itpc=lay.pc
    npc=len(itpc)
    outs=s.run(fr,dict(env),lay,hd,'__start__',{},stop=hd,body=frozenset(body))
    iters=[o for o in outs if o[1]=='iter']
    exits=[o for o in outs if o[1]=='exit' and not (header_exit and o[2][1]==hd)]
    rets=[o for o in outs if o[1]=='ret']
    if not iters:
        # the body never reaches the back edge: at most one iteration
        if not header_exit: raise X.Unsupported('loop without back edge')
    # ---- next values of phis, merged over paths
    if iters:
        conds=[]
        for o in iters:
            c=True
            for x in o[0].pc[npc:]: c=c_and(c,x)
            conds.append(c)
        nxt={}
        for I in phis:
            vs=[]
            for (st,_,(pb,e)),c in zip(iters,conds):
                for v,b in I.args:
                    if b==pb: vs.append(s.val(v,I.ty,e,fr)); break
                else: raise X.Unsupported('phi edge')
            nxt[I.res]=X.merge_vals(vs,conds) if len(vs)>1 else vs[0]
        if len(iters)==1: mst=iters[0][0]
        else: mst=s.merge_states([o[0] for o in iters],conds,itpc)
        if mst.events!=st0.events: raise X.Unsupported('observable event inside a symbolic loop')
    else:
        mst=st0.layer(); nxt=dict(env)
    reads=dict(lay.reads)
    # ---- frame / dependence analysis
    have=[(m[0].id,tuple(i.key() for i in m[1]),m[2]+d) for m in memvars for d in ((0,8) if m[5] is True else (0,))]
    kset=frozenset([kid])
    k2=fresh('k2','int'); sub2={kid:k2}
    pcx=itpc+(c_le(-k2),c_lt(k2-n),c_not(c_eq(k-k2)))
    pcr=itpc+(c_le(-k2),c_lt(k2-k))      # what iteration k reads must not have been written by an earlier one
    ghave=[(o.id,i) for (o,i,q,c) in gvars]
    gnew=[]
    new=[]
    for (obj,idx,q,cells) in gvars:
        rc_=()
        for v,(lo,hi) in zip(*q):
            a=Poly({(v,):1}); rc_+=(c_le(lo-a),c_lt(a-hi))
        q1=mst.clone(); q1.reads=None; q1.pc=itpc+rc_
        for c,(size,N,t,kk) in cells.items():
            try: v=force(s.read_cell(q1,obj,idx,c,t,size))
            except X.NeedFork: v=None
            if not isinstance(v,Poly) or not same(substm(v,{}),subst(N,kk,k)): raise X.CarriedDep('carried range of %s is not rewritten by every iteration at %s'%(obj.name,where))
    for obj,qv in ghead:
        os_=mst.wstate(obj); os_.groups=[g for g in os_.groups if not(g.q and g.q[0]==qv)]
    W={}
    for oid,os_ in mst.mem.items():
        if not os_.groups: continue
        W[oid]=os_
    for st_,_,_ in exits+rets:
        pass
    class PC: pass
    def differ(ia,ib,pc):
        """some index component provably differs"""
        c=False
        q=X.State(); q.pc=pc
        for x,y in zip(ia,ib):
            d=x-y
            if d.is_const():
                if d.d: return True
                continue
            c=c_or(c,c_not(s.eq_cond(q,x,y)))
        if c is False: return False
        return s.prove(q,c)
    for rk,(obj,pre_,off,size,rpc) in reads.items():
        os_=W.get(obj.id)
        if os_ is None: continue
        S=os_.stride
        if S is None: ridx=pre_; rin=off.const()
        else:
            inner=off.const()%S; ridx=pre_+(X.Poly({m:c//S for m,c in off.d.items() if m!=()})+(off.const()-inner)//S,); rin=inner
        _pk={ckey(x) for x in pcr}; rpcx=pcr+tuple(x for x in rpc if ckey(x) not in _pk)
        for g in os_.groups:
            hit=[c for c in g.cells if isinstance(c,int) and c<rin+size and rin<c+g.cells[c][0]]
            if not hit: continue
            qv=frozenset(g.q[0]) if g.q else frozenset()
            dep=any(depends(i,kset) for i in g.idx)
            rdep=any(depends(i,kset) for i in ridx)
            if not dep and not qv and s.same_idx(_st(rpcx),ridx,g.idx) is True:
                for c in hit:
                    key=(obj.id,g.key,c)
                    if key not in have and key not in [x[0] for x in new]: new.append((key,(obj,g.idx,c,g.cells[c][0],g.cells[c][2] if len(g.cells[c])>2 else None,False)))
                continue
            widx=[substm(i,sub2) for i in g.idx]
            extra=()
            if g.q:
                for v,(lo,hi) in zip(*g.q):
                    a=Poly({(v,):1}); extra+=(c_le(substm(lo,sub2)-a),c_lt(a-substm(hi,sub2)))
                # rename bound vars apart from those of the read
                ren={v:fresh('q','int') for v in g.q[0]}
                widx=[substm(i,ren) for i in widx]; extra=tuple(X.simp_cond(csubst(e,ren)) for e in extra)
                extra=tuple(e for e in extra if e is not True)
            if not differ(ridx,widx,rpcx+extra):
                if g.q and not dep:
                    def like(idx2,q2):
                        if len(q2)!=len(g.q[0]) or len(idx2)!=len(g.idx): return False
                        r2=dict(zip(g.q[0],[Poly({(v,):1}) for v in q2]))
                        return all(same(substm(i,r2),j) for i,j in zip(g.idx,idx2))
                    if any(o is obj and like(g2.idx,g2.q[0]) for o,g2,_ in gnew): continue
                    if any(m[0] is obj and like(m[1],m[2][0]) for m in gvars): raise X.CarriedDep('carried range of %s at %s is read outside the range at %s'%(obj.name,where,[show(i) for i in ridx]))
                    gnew.append((obj,g,mst)); continue
                raise X.CarriedDep('loop-carried dependence at %s: %s read at %s may be written by another iteration at %s'%(where,obj.name,[show(i) for i in ridx],[show(i) for i in widx]))
    if new: return ('more',memvars+[x[1] for x in new])
    if gnew:
        out=[]
        for obj,g,_ in gnew:
            ren={v:fresh('q','int') for v in g.q[0]}
            idx=tuple(substm(i,ren) for i in g.idx); q=([aid(ren[v]) for v in g.q[0]],[(substm(lo,ren),substm(hi,ren)) for lo,hi in g.q[1]])
            cells={}
            for og in mst.mem[obj.id].groups:
                # every group over the same range (one per member of the element)
                if og.q is None or len(og.q[0])!=len(g.q[0]) or any(depends(i,kset) for i in og.idx): continue
                r2=dict(zip(og.q[0],[ren[v] for v in g.q[0]]))
                if not all(same(substm(i,r2),j) for i,j in zip(og.idx,idx)): continue
                for c,cv in og.cells.items():
                    if not isinstance(c,int): continue
                    v=force(cv[1])
                    if not isinstance(v,Poly): raise X.CarriedDep('carried range of pointers at '+where)
                    cells[c]=(cv[0],substm(v,r2),cv[2] if len(cv)>2 else X.guess_type(v,cv[0]),k)
            out.append((obj,idx,q,cells))
        return ('gmore',out)
    # write-write: different groups of one object must not collide across iterations
    for oid,os_ in W.items():
        gs=os_.groups
        for a in range(len(gs)):
            da=any(depends(i,kset) for i in gs[a].idx)
            for b in range(a+1):
                db=any(depends(i,kset) for i in gs[b].idx)
                if a==b:
                    if da and not gs[a].q:
                        widx=[substm(i,sub2) for i in gs[a].idx]
                        if not differ(gs[a].idx,widx,pcx): raise X.CarriedDep('two iterations of the loop at %s may write the same element of %s (index %s)'%(where,X.OBJS[oid].name,[show(i) for i in gs[a].idx]))
                    continue
                if not da and not db: continue
                if not any(isinstance(c,int) and c in gs[b].cells for c in gs[a].cells): continue
                def inst(g,sb):
                    w=[substm(i,sb) for i in g.idx] if sb else list(g.idx); ex_=()
                    if g.q:
                        ren={v:fresh('q','int') for v in g.q[0]}
                        for v,(lo,hi) in zip(*g.q):
                            lo=substm(lo,sb) if sb else lo; hi=substm(hi,sb) if sb else hi
                            ex_+=(c_le(substm(lo,ren)-ren[v]),c_lt(ren[v]-substm(hi,ren)))
                        w=[substm(i,ren) for i in w]
                    return w,tuple(e for e in ex_ if e is not True)
                wa,ea=inst(gs[a],None); wb,eb=inst(gs[b],sub2)
                if not differ(wa,wb,pcx+ea+eb):
                    raise X.CarriedDep('overlapping writes of different iterations to %s at %s'%(X.OBJS[oid].name,where))
    # ---- classify state variables
    info=[]
    for kd,ref,z,v0 in svars:
        if kd=='phi':
            N=nxt[ref[0]]
            if ref[1] is not None: N=s.asfp(N[ref[1]]) if N is not X.UNDEF else X.fresh('undef')
            if isinstance(N,(bool,tuple)): N=s.asint(N)
            if N is X.UNDEF: N=None
        elif kd=='mem':
            obj,idx,inner,size,t,pair=ref
            if isinstance(pair,tuple):
                N=s.asint(s.read_cell(mst,obj,idx,inner,t,size))
                if not same(N,v0+(k+1)*pair[1]): raise X.CarriedDep('%s does not advance by the same amount in every iteration at %s'%(obj.name,where))
                info.append((kd,ref,z,v0,'sum',pair[1])); continue
            if pair:
                N=s.asfp(s.read_cell(mst,obj,idx,inner,t,8))+s.asfp(s.read_cell(mst,obj,idx,inner+8,t,8)).scale(1j)
            else:
                N=s.read_cell(mst,obj,idx,inner,t,size); N=s.asint(N) if t[0]=='i' else s.asfp(N)
        else:
            N=nxt[ref[0]] if kd=='ptr' else s.read_cell(mst,ref[0],ref[1],ref[2],ref[4],ref[3])
            if isinstance(N,X.Ptr) and N.obj is z and not N.off.d: info.append((kd,ref,z,v0,'inv',None)); continue
            info.append((kd,ref,z,v0,'plast',N)); continue
        if N is None: info.append((kd,ref,z,v0,'undef',None)); continue
        if type(N) is Lazy: N=N.get()
        if not isinstance(N,Poly): raise X.Unsupported('loop variable %r'%(N,))
        d=N-z
        if not depends(d,sids): info.append((kd,ref,z,v0,'sum',d))
        elif not depends(N,sids): info.append((kd,ref,z,v0,'last',N))
        else: info.append((kd,ref,z,v0,'fold',N))
    aff=[i for i in info if i[0]=='mem' and i[4]=='sum' and i[1][5] is False and i[1][4][0]=='i' and not depends(i[5],kset|sids)]
    if aff:
        used=[i for i in aff if any(depends(x,frozenset([aid(i[2])])) for os_ in W.values() for g in os_.groups for x in g.idx) or any(j[4] in('fold','last') and depends(j[5],frozenset([aid(i[2])])) for j in info)]
        if used:
            ks={(i[1][0].id,tuple(x.key() for x in i[1][1]),i[1][2]):i[5] for i in used}
            return ('more',[m[:5]+(('aff',ks[kk]),) if (kk:=(m[0].id,tuple(x.key() for x in m[1]),m[2])) in ks else m for m in memvars])
    ptrobjs={i[2].id:i for i in info if i[0] in('ptr','memptr')}
    folds=[i for i in info if i[4]=='fold']
    # pair re/im memory cells taking part in a recurrence, for readability of products
    if folds:
        cand={}
        for i in folds:
            if i[0]=='mem' and not i[1][5] and i[1][4][0]=='double': cand[(i[1][0].id,tuple(x.key() for x in i[1][1]),i[1][2])]=i
        for key,i in cand.items():
            if i[1][2]%16==0 and (key[0],key[1],key[2]+8) in cand:
                mv=[]
                done=set()
                for m in memvars:
                    kk=(m[0].id,tuple(x.key() for x in m[1]),m[2])
                    if m[5] or kk not in cand: mv.append(m); continue
                    if m[2]%16==0 and (kk[0],kk[1],kk[2]+8) in cand: mv.append(m[:5]+(True,))
                    elif m[2]%16==8 and (kk[0],kk[1],kk[2]-8) in cand: continue
                    else: mv.append(m)
                return ('more',mv)
    val={}      # symbol id -> function(t) giving value at the head of iteration t
    lastids=[i for i in info if i[4]=='last']
    fold_sys=None
    def at(t,memo={}):
        """substitution: state symbols at the head of iteration t"""
        key=t.key()
        r=cache.get(key)
        if r is not None: return r
        mp={}
        for kd,ref,z,v0,cl,e in info:
            if cl=='sum': v=v0+SUM(k,ZERO,t,e)
            elif cl=='last':
                q=_st(itpc)
                c=c_le(-t+1)
                if isinstance(c,tuple):
                    if s.prove(_st(st0.pc+((c_le(-n),) if known_n else ())),c): c=True
                v=ite(c,subst(e,k,t-1),v0) if c is not False else v0
            elif cl=='undef': v=fresh('undef')
            elif cl=='fold': v=None
            else: continue
            if v is not None:
                mp[aid(z)]=v
                cj=T.ATOMS[aid(z)].conj
                if cj!=aid(z): mp[cj]=v.conj()
        if folds:
            vals=fold_values(t)
            for i,v in zip(folds_all,vals):
                z=i[2]; mp[aid(z)]=v
                cj=T.ATOMS[aid(z)].conj
                if cj!=aid(z): mp[cj]=v.conj()
        cache[key]=mp
        return mp
    cache={}
    folds_all=list(folds)
    if folds:
        # 'last' variables read by a recurrence join the system
        ch=True
        while ch:
            ch=False
            for i in lastids:
                if i in folds_all: continue
                if any(depends(j[5],frozenset([aid(i[2]),T.ATOMS[aid(i[2])].conj])) for j in folds_all): folds_all.append(i); ch=True
        summ={}
        for i in info:
            if i[4]=='sum':
                v=i[3]+SUM(k,ZERO,k,i[5]) if False else None
                summ[aid(i[2])]=i
        def body_(e):
            mp={}
            for a,i in summ.items():
                if depends(e,frozenset([a])):
                    j=fresh('j','int')
                    mp[a]=i[3]+SUM(j,ZERO,k,subst(i[5],k,j))
            return substm(e,mp) if mp else e
        sysb=[(i[2],i[3],body_(i[5])) for i in folds_all]
        def fold_values(t): return T.FOLD(k,t,sysb)
    def sv(v,mp):
        return substv2(v,mp)
    def substv2(v,mp):
        if type(v) is Lazy: v=v.get()
        if isinstance(v,X.Ptr) and v.obj.id in ptrobjs:
            i=ptrobjs[v.obj.id]
            if i[4]=='inv': v=X.Ptr(i[3].obj,i[3].idx,i[3].off+v.off)
            else: raise X.Unsupported('loop-carried pointer')
        return X.substv(v,mp)
    def effect(m,st,kk):
        """apply iterations 0..m-1 to st; kk: bound variable to use"""
        ge1=s.prove(_st(st.pc),c_le(1-m))
        ren=None if kk is k else {kid:kk}
        atk=at(k)
        for oid,os_ in mst.mem.items():
            if not os_.groups: continue
            obj=X.OBJS[oid]
            tgt=st.wstate(obj)
            if tgt.stride!=os_.stride:
                s.unify_from(st,obj,os_.stride)
                tgt=st.wstate(obj)
                if tgt.stride!=os_.stride: raise X.Unsupported('stride mismatch after loop')
            svk={(i[1][0].id,tuple(x.key() for x in i[1][1]),i[1][2]+d):(i,d) for i in info if i[0]=='mem' for d in ((0,8) if i[1][5] is True else (0,))}
            for g in os_.groups:
                dep=any(depends(i,kset) for i in g.idx)
                if not dep:
                    cells={}
                    for c,cv in g.cells.items():
                        if not isinstance(c,int): cells[c]=cv; continue
                        sz,v=cv[0],cv[1]; t=cv[2] if len(cv)>2 else None
                        h=svk.get((oid,g.key,c)) if not g.q else None
                        if h:
                            i,dd=h
                            fv=at(m)[aid(i[2])]
                            if i[1][5] is True: fv=T.re(fv) if dd==0 else T.im(fv)
                            cells[c]=(sz,fv,t); continue
                        def last(v=v,m=m):
                            mp=dict(at(m-1)); mp[kid]=m-1
                            # values mention k directly and state symbols at head of iteration m-1
                            return substv2(substv2(v,at(k)),{kid:m-1})
                        simple=not isinstance(v,Poly) or not depends(v,sids|kset)
                        nv=v if (simple and not isinstance(v,X.Ptr)) else Lazy(last)
                        if not ge1 and not g.q:
                            if obj.name.startswith('%'): nv=nv
                            else:
                                try: old=s.read_cell(st,obj,g.idx,c,t or X.guess_type(v,sz),sz)
                                except X.Unsupported: old=X.UNDEF
                                nv=force(nv)
                                if isinstance(nv,X.Ptr) and not(isinstance(old,X.Ptr) and old.obj is nv.obj): nv=X.Ptr(X.Obj('%deadptr'))    # unknown: any use fails
                                else: nv=X._ite_val(c_le(1-m),nv,old)
                        elif not ge1: raise X.Unsupported('possibly empty loop writing a quantified range')
                        cells[c]=(sz,nv,t)
                    if g.q is None:
                        for c,cv in cells.items(): s.write_cell(st,obj,g.idx,c,cv[0],cv[1],cv[2])
                    else: tgt=st.wstate(obj); tgt.groups.append(X.Group(g.idx,cells,g.q))
                else:
                    cells={}
                    for c,cv in g.cells.items():
                        if not isinstance(c,int): cells[c]=cv; continue
                        v=cv[1]
                        if isinstance(v,X.Ptr): v=substv2(v,atk)
                        elif isinstance(v,Poly) and depends(v,sids): v=X.substv(v,atk)
                        elif not isinstance(v,Poly): v=substv2(v,atk)
                        if ren: v=X.substv(v,ren)
                        cells[c]=(cv[0],v)+tuple(cv[2:])
                    idx=g.idx
                    if any(depends(i,sids) for i in idx): idx=tuple(substm(i,atk) for i in idx)
                    if ren: idx=tuple(substm(i,ren) for i in idx)
                    q=(list(g.q[0]),[tuple(substm(y,ren) if ren else y for y in x) for x in g.q[1]]) if g.q else ([],[])
                    if g.q:
                        # inner bound variables must be unique
                        r2={v:fresh('q','int') for v in q[0]}
                        idx=tuple(substm(i,r2) for i in idx)
                        cells={c:((cv[0],X.substv(cv[1],r2))+tuple(cv[2:]) if isinstance(c,int) else cv) for c,cv in cells.items()}
                        q=([aid(r2[v]) for v in q[0]],[tuple(substm(y,r2) for y in x) for x in q[1]])
                    tgt=st.wstate(obj)
                    tgt.groups.append(X.Group(idx,cells,([aid(kk)]+q[0],[(ZERO,m)]+q[1])))
            # objects carrying state variables that no path wrote keep their value
        return st
    res=[]
    # ---- normal exit
    if header_exit:
        # an unknown or non-positive trip count is handled by an explicit zero case
        st=st0.clone(); st.reads=st0.reads
        if known_n and not zero_case and iters and any(g.q and not any(depends(i,kset) for i in g.idx) for os_ in mst.mem.values() for g in os_.groups):
            zero_case=not s.prove(st0,c_lt(-n))
        if zero_case: st.pc=st.pc+(c_lt(-n),)
        if not known_n: st.pc=st.pc+tuple(c for c in (c_le(-n),) if c is not True)
        if iters: effect(n,st,k)
        e2=dict(env0)
        atn=at(n)
        for I in phis:
            if I.res in ivs: e2[I.res]=init[I.res]+n.scale(ivs[I.res])
        for kd,ref,z,v0,cl,e in info:
            if kd=='phi':
                v=atn[aid(z)]
                if ref[1] is None: e2[ref[0]]=v if not isinstance(env[ref[0]],(bool,tuple)) else c_not(c_eq(v))
                else:
                    e2.setdefault(ref[0],X.Vec())
                    if ref[1]==0: e2[ref[0]]=X.Vec()
                    e2[ref[0]].append(v)
            elif kd=='ptr':
                if cl=='inv': e2[ref[0]]=v0
                else: e2[ref[0]]=X.Ptr(X.Obj('%deadptr'))
        for I in phis:
            if I.res not in e2 or e2[I.res] is None: e2[I.res]=env[I.res]
            if I.res not in ivs and isinstance(init[I.res],X.Ptr) and all(kd!='ptr' or ref[0]!=I.res for kd,ref,*_ in info): e2[I.res]=init[I.res]
        # instructions of the header are re-evaluated to leave the loop
        if isinstance(cond_in,tuple):
            if known_n: ce=None
            else:
                mp=dict(atn); mp[kid]=n
                ce=X.simp_cond(csubst(substc(cond_in,atn),{kid:n})); ce=c_not(ce)
                if ce is False: ce=None; st=None
                elif ce is not True: st.pc=st.pc+(ce,)
        if st is not None:
            for o in run_header(s,fr,hd,L,e2,st,k,n,cond_in,known_n):
                res.append(o)
        if zero_case:
            zst=st0.clone(); zst.reads=st0.reads; zst.pc=zst.pc+(c_le(n),)
            if not s.infeasible(zst): res.append(zero_exit(s,fr,hd,L,env0,zst,init,phis))
    # ---- early exits: iteration kb is the last, partially executed one
    for o in exits+rets:
        sto=o[0]
        kb=fresh('kb','int')
        st=st0.clone(); st.reads=st0.reads
        st.pc=st.pc+(c_le(-kb),)+((c_lt(kb-n),) if header_exit else ())
        if iters: effect(kb,st,k)
        atb=at(kb)
        mpk={kid:kb}
        def conv(v,atb=atb,mpk=mpk):
            return X.substv(substv2(v,at(k)) if not isinstance(v,X.Undef) else v,mpk)
        pcs=[]
        for c in sto.pc[npc:]:
            c2=X.simp_cond(csubst(substc(c,at(k)),mpk)) if isinstance(c,tuple) else c
            if c2 is False: break
            if c2 is not True: pcs.append(c2)
        else:
            st.pc=st.pc+tuple(pcs)
            if not header_exit and iters:
                cc=False
                for it in iters:
                    c=True
                    for x in it[0].pc[npc:]: c=c_and(c,x)
                    cc=c_or(cc,c)
                c2=X.simp_cond(csubst(substc(cc,at(k)),{kid:kb-1})) if isinstance(cc,tuple) else cc
                c3=c_or(c_eq(kb),c2)
                if c3 is not True: st.pc=st.pc+(c3,)
            if s.infeasible(st): continue
            for oid,os_ in sto.mem.items():
                obj=X.OBJS[oid]
                for g in os_.groups:
                    idx=tuple(substm(substm(i,at(k)),mpk) for i in g.idx)
                    if g.q: raise X.Unsupported('early exit after inner symbolic loop')
                    if st.ostate(obj).stride!=os_.stride: s.unify_from(st,obj,os_.stride)
                    for c,cv in g.cells.items(): s.write_cell(st,obj,idx,c,cv[0],conv(cv[1]),cv[2] if len(cv)>2 else None)
            st.events=sto.events; st.flags={**st.flags,**sto.flags}
            if o[1]=='ret':
                v=o[2]
                v=conv(v) if v is not None and not isinstance(v,X.Undef) else v
                res.append(('ret',st,v))
            else:
                blk,pv,e=o[2]
                e3={kk:(conv(vv) if isinstance(vv,(Poly,tuple,X.Ptr,X.Vec,X.Agg)) else vv) for kk,vv in e.items() if kk not in env0 or e[kk] is not env0[kk]}
                e4=dict(env0); e4.update(e3)
                res.append((e4,st,blk,pv))
    s.loop_reports.append((where,len(reads),len(info)))
    return ('done',res)

def substc(c,mp):
    if not mp: return c
    return X.simp_cond(csubst(c,mp)) if isinstance(c,tuple) else c
def _st(pc):
    q=X.State(); q.pc=pc; return q
def zero_exit(s,fr,hd,L,env0,st,init,phis):
    e=dict(env0); e.update(init)
    outs=s.run(fr,e,st,hd,'__start__',{},body=frozenset([hd]))
    for o in outs:
        if o[1]=='exit' and o[2][0] not in L['body']: return (o[2][2],o[0],o[2][0],o[2][1])
    raise X.Unsupported('zero-trip exit')
def run_header(s,fr,hd,L,env,st,k,n,cond_in,known_n):
    """evaluate the header once more with the exit values and take the leaving edge"""
    outs=s.run(fr,env,st,hd,'__start__',{},body=frozenset([hd]))
    res=[]
    for o in outs:
        if o[1]=='exit' and o[2][0] not in L['body']: res.append((o[2][2],o[0],o[2][0],o[2][1]))
    if not res: raise X.Unsupported('loop exit not reached')
    return res
