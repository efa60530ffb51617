"""Symbolic executor over LLVM IR generated from the current sources: the VC generator.

A function is executed once on fully symbolic arguments and memory.  Constant-trip loops are unrolled,
symbolic-trip loops are handled by the loop rule (inferred inductive invariant: every location written
in iteration k is indexed injectively by k and not read by another iteration, or is an accumulator);
calls go to the callee's contract when one is registered, otherwise the body is executed."""
import sys, time
from terms import *
from terms import atom_poly
import terms as T
import build
sys.setrecursionlimit(100000)

class Unsupported(Exception): pass
class CarriedDep(Unsupported): pass
class NeedFork(Exception):
    def __init__(s,cond): s.cond=cond
class Violation(Exception): pass

OBJS={}
class Obj:
    _n=[0]
    __slots__=('id','name','init','size','const','ext','tag','schema','stride0','real')
    def __init__(s,name,init=None,size=None,const=False,ext=False,tag=None):
        Obj._n[0]+=1; s.id=Obj._n[0]; s.name=name; s.init=init; s.size=size; s.const=const; s.ext=ext; s.tag=tag; s.schema=None; s.stride0=None; s.real=0; OBJS[s.id]=s
    def __repr__(s): return '<%s#%d>'%(s.name,s.id)
class Ptr:
    __slots__=('obj','idx','off')
    def __init__(s,obj,idx=(),off=ZERO): s.obj=obj; s.idx=idx; s.off=off
    def __repr__(s): return 'Ptr(%s,%s,%s)'%(s.obj,s.idx,s.off)
    def plus(s,o): return Ptr(s.obj,s.idx,s.off+o)
NULLOBJ=Obj('NULL')
NULL=Ptr(NULLOBJ)
class FnPtr:
    __slots__=('name',)
    def __init__(s,n): s.name=n
class Bits:
    """raw bits of a double value"""
    __slots__=('v',)
    def __init__(s,v): s.v=v
class Undef:
    def __repr__(s): return 'UNDEF'
UNDEF=Undef()
class Vec(list): pass
class Agg(list): pass

def tsize(t,mod):
    k=t[0]
    if k=='i': return max(1,t[1]//8)
    if k=='double' or k=='ptr': return 8
    if k=='float': return 4
    if k=='x86_fp80': return 16
    if k=='arr': return t[1]*tsize(t[2],mod)
    if k=='vec': return t[1]*tsize(t[2],mod)
    if k=='named': return tsize(mod.types['%'+t[1]] if '%'+t[1] in mod.types else mod.types[t[1]],mod)
    if k=='st':
        o=0; al=1
        for e in t[1]:
            a=talign(e,mod); al=max(al,a); o=(o+a-1)//a*a+tsize(e,mod)
        return (o+al-1)//al*al
    if k=='opaque': return 0
    raise Unsupported('tsize %r'%(t,))
def talign(t,mod):
    k=t[0]
    if k=='arr': return talign(t[2],mod)
    if k=='vec': return tsize(t,mod)
    if k=='named': return talign(resolve(t,mod),mod)
    if k=='st': return max([talign(e,mod) for e in t[1]]+[1])
    return min(tsize(t,mod),16)
def resolve(t,mod):
    while t[0]=='named': t=mod.types.get('%'+t[1]) or mod.types[t[1]]
    return t
def foffset(t,i,mod):
    o=0
    for j,e in enumerate(t[1]):
        a=talign(e,mod); o=(o+a-1)//a*a
        if j==i: return o
        o+=tsize(e,mod)

def guess_type(v,size):
    if isinstance(v,(Ptr,FnPtr)): return ('ptr',)
    if isinstance(v,Poly) and size in(1,2) : return ('i',8*size)
    if isinstance(v,Poly) and size in(4,8):
        if v.d and not (all(ATOMS[x].sort=='int' for x in v.atoms()) and all(type(c) is int for c in v.d.values())): return ('double',)
        return ('i',8*size) if size==4 else ('double',)
    return ('double',) if size==8 else ('i',8*size)

class Group:
    """writes to one index tuple of an object"""
    __slots__=('key','idx','cells','q')
    def __init__(s,idx,cells,q=None): s.idx=idx; s.key=tuple(i.key() for i in idx); s.cells=cells; s.q=q
class OState:
    __slots__=('groups','stride','freed')
    def __init__(s): s.groups=[]; s.stride=None; s.freed=False
    def copy(s):
        o=OState(); o.groups=[Group(g.idx,dict(g.cells),g.q) for g in s.groups]; o.stride=s.stride; o.freed=s.freed; return o

class State:
    def __init__(s): s.mem={}; s.own=set(); s.pc=(); s.events=(); s.reads=None; s.flags={}; s.base=None
    def clone(s):
        n=State(); n.mem=dict(s.mem); n.own=set(); s.own=set(); n.pc=s.pc; n.events=s.events; n.flags=dict(s.flags)
        n.reads=s.reads; n.base=s.base
        return n
    def layer(s):
        """a new, empty overlay on top of this state (used for one generic loop iteration)"""
        n=State(); n.base=s; n.pc=s.pc; n.events=s.events; n.flags=dict(s.flags); n.reads={}
        return n
    def _new(s,obj):
        o=OState()
        if s.base is not None:
            b=s.base.ostate(obj); o.stride=b.stride; o.freed=b.freed
        else: o.stride=obj.stride0
        return o
    def ostate(s,obj):
        o=s.mem.get(obj.id)
        if o is None: o=s._new(obj); s.mem[obj.id]=o; s.own.add(obj.id)
        return o
    def wstate(s,obj):
        o=s.mem.get(obj.id)
        if o is None: o=s._new(obj); s.mem[obj.id]=o; s.own.add(obj.id); return o
        if obj.id not in s.own: o=o.copy(); s.mem[obj.id]=o; s.own.add(obj.id)
        return o

class Stats:
    def __init__(s): s.smt=0; s.smt_time=0.0; s.paths=0; s.loops=0; s.inlined=set(); s.contracts=set(); s.trusted=set(); s.instr=0; s.assumed=set()

def common_factor(d):
    """d divided by the largest monomial dividing every term (d==0 follows from the quotient being 0)"""
    from collections import Counter
    ms=list(d.d)
    if not ms: return d
    g=Counter(ms[0])
    for m in ms[1:]: g&=Counter(m)
    if not g: return d
    out=Poly({})
    for m,c in d.d.items():
        r=Counter(m); r.subtract(g)
        out=out+Poly({tuple(sorted(r.elements())):c})
    return out

class Exec:
    def __init__(s,cfg,omp=False):
        s.cfg=cfg; s.omp=omp; s.NC=build.NCOF.get(cfg); s.ND=build.NDOF.get(cfg)
        s.stats=Stats()
        s.contracts={}          # name -> fn(ex,st,args,I) -> list[(st,ret)] | None for 'inline'
        s.globals={}            # name -> Obj
        s.facts=[]              # global facts (conditions)
        s.bounds={}             # app name -> fn(args) -> list of conditions
        s.funcs={}              # name -> Function
        s.mods={}
        s.srcs=None
        s.maxiter=5000
        s.smt_cache={}; s.fact_cache={}; s.clo_cache={}; s.dims=None; s.tr=None; s.lin_cache={}
        s.depth=0
        s.oob=[]                # out-of-bounds / undefined behaviour reports
        s.trace=False
        s.merge_returns=64
        s.deadline=None
        s.loophook=None
        s.noinline=set()
        s.loop_reports=[]
        s.on_return=None        # fn(st,value)->value applied to the results of internal calls
        s.digits={}             # atom id -> bound D: 0<=atom<D
        s.pos=set()             # atom ids known >=1
        s.nneg=set()            # application names known >=0
        s.eqhook=None; s.peel=False
        s.cuts={}               # function -> fn(ex,st,frame,header,env): loop-invariant cut at its outermost loops
        s.idxnorm=None          # normaliser of memory indices under the path condition
        s.rangesplit=None       # (st,q,bound) -> condition equivalent to 0<=q<bound, or None
        s.split=None            # (st,index) -> digits (high,low) with low in a common range, or None
        s.fork_select=False     # explore both sides of selects
        s.feas=True             # use SMT for branch feasibility
    # ---------- program lookup
    def load(s,src):
        if src in s.mods: return s.mods[src]
        m=build.module(src,s.cfg,s.omp); s.mods[src]=m
        for n,f in m.funcs.items():
            if getattr(f,'available_ext',False): continue
            f.src=src
            if not f.internal: s.funcs[n]=f
        return m
    def load_all(s,srcs=None):
        srcs=srcs or build.sources()
        errs=build.compile_all([(x,s.cfg,s.omp) for x in srcs])
        bad={e[0] for e in errs}
        for x in srcs:
            if x in bad: continue
            s.load(x)
        return errs
    def fn(s,name,mod=None):
        if mod is not None and name in mod.funcs and mod.funcs[name].internal: return mod.funcs[name]
        f=s.funcs.get(name)
        if f is not None: return f
        if mod is not None and name in mod.funcs: return mod.funcs[name]
        return None
    # ---------- solver
    def atom_facts(s,x):
        """defining facts of an atom"""
        a=ATOMS[x]
        if x in s.digits: return [c_le(-atom_poly(a)),c_lt(atom_poly(a)-s.digits[x])]
        if a.kind=='app' and a.name=='idiv':
            q=atom_poly(a); n,d=a.args
            return [('le',q*d-n),('lt',n-q*d-d),('le',-q)]
        if a.name in s.bounds: return s.bounds[a.name](*a.args)
        if a.kind=='ite' and a.sort=='int':
            c,u,v=a.args; q=atom_poly(a)
            return [('or',('and',c,c_eq(q-u) if not c_eq(q-u) in (True,False) else c_eq(q-u)),('and',c_not(c),c_eq(q-v)))]
        return ()
    def bound_facts(s,atoms_,seen,out):
        for x in atoms_:
            if x in seen: continue
            seen.add(x)
            k=(x,x in s.digits); r=s.fact_cache.get(k)
            if r is None:
                fs=[f for f in s.atom_facts(x) if f is not True]; nx=set()
                for f in fs: nx|=_catoms(f)
                for g in ATOMS[x].args:
                    if type(g) is Poly: nx|=g.atoms()
                r=s.fact_cache[k]=(tuple(fs),tuple(sorted(nx)))
            out+=r[0]; s.bound_facts(r[1],seen,out)
    def getdims(s):
        if s.dims is None: s.dims=frozenset(x for x in set().union(*[_catoms(c) for c in s.facts]) if ATOMS[x].kind=='sym') if s.facts else frozenset()
        return s.dims
    def relevant(s,conds,goal):
        """the conditions connected with the goal through shared atoms (dimensions do not connect)"""
        D=s.getdims(); cl=s.clo_cache
        def clo(c):
            k=ckey(c); r=cl.get(k)
            if r is None:
                seen=set(); s.bound_facts(_catoms(c),seen,[]); r=cl[k]=frozenset(x for x in seen if x not in D)
            return r
        A=set(clo(goal))
        if not A: return list(conds)
        rest=[(c,clo(c)) for c in conds]; use=[False]*len(rest); ch=True
        for i,(c,a) in enumerate(rest):
            if not a: use[i]=True
        while ch:
            ch=False
            for i,(c,a) in enumerate(rest):
                if not use[i] and not A.isdisjoint(a): use[i]=True; A|=a; ch=True
        return [c for (c,a),u in zip(rest,use) if u]
    def prove(s,st,cond,timeout=4000,extra=()):
        """True if pc and facts imply cond"""
        if cond is True: return True
        if cond is False: return s.infeasible(st,extra,timeout)
        if cond[0]=='and': return s.prove(st,cond[1],timeout,extra) and s.prove(st,cond[2],timeout,extra)
        ck=ckey(cond)
        pcs=list(st.pc)+list(extra)
        for c in pcs:
            if ckey(c)==ck: return True
        pcs=s.relevant(pcs,cond)
        key=('p',ck,tuple(ckey(c) for c in pcs))
        r=s.smt_cache.get(key)
        if r is None:
            r=None
            if s.linear(cond):
                lp=[c for c in pcs if s.linear(c)]
                u,complete=s._smt(lp+[c_not(cond)],timeout,True)
                if u=='unsat': r=True
                elif complete and len(lp)==len(pcs) and u=='sat': r=False
            if r is None: r=s._smt(pcs+[c_not(cond)],timeout)=='unsat'
            s.smt_cache[key]=r
        return r
    def linear(s,c):
        """no product of unknowns in the condition"""
        if c is True or c is False: return True
        k=ckey(c); r=s.lin_cache.get(k)
        if r is None:
            r=True
            for x in c[1:]:
                if type(x) is Poly:
                    D=s.getdims()
                    if any(len(m)>1 and not all(y in D for y in m) for m in x.d): r=False
                elif isinstance(x,tuple) and c[0] in('not','and','or'): r=r and s.linear(x)
            s.lin_cache[k]=r
        return r
    def resolved(s,st,p,fuel=64):
        """case split over the integer ite atoms of p: list of (condition, polynomial without them)"""
        out=[]; todo=[((),p)]
        while todo:
            ex,q=todo.pop()
            it=[x for x in q.atoms() if ATOMS[x].kind=='ite']
            if not it: out.append((ex,q)); continue
            x=it[0]; c,a,b=ATOMS[x].args
            s1=st
            if s.prove(st,c,extra=ex): todo.append((ex,substm(q,{x:a})))
            elif s.prove(st,c_not(c),extra=ex): todo.append((ex,substm(q,{x:b})))
            else:
                todo.append((ex+(c,),substm(q,{x:a}))); todo.append((ex+(c_not(c),),substm(q,{x:b})))
            if len(todo)+len(out)>fuel: raise Unsupported('case split too large')
        return out
    def int_equal(s,st,a,b):
        if same(a,b): return True
        for ex,d in s.resolved(st,a-b):
            if d.is_zero(): continue
            if s.infeasible(st,extra=ex): continue
            q=common_factor(d)
            if q is not d:
                fac=set(next(iter(d.d)))
                for m in d.d: fac&=set(m)
                if any(s.prove(st,c_eq(atom_poly(ATOMS[x])),extra=ex) for x in fac if ATOMS[x].sort=='int' and len(fac)<8): continue
            d=q
            if len(d.d)>12 or any(len(m)>2 for m in d.d) or not s.prove(st,c_eq(d),extra=ex): return False
        return True
    def infeasible(s,st,extra=(),timeout=4000):
        pcs=list(st.pc)+list(extra)
        if any(c is False for c in pcs): return True
        key=('i',tuple(ckey(c) for c in pcs))
        r=s.smt_cache.get(key)
        if r is None:
            r=s._smt(pcs,timeout)=='unsat'; s.smt_cache[key]=r
        return r
    def _smt(s,conds,timeout,lin=False):
        import z3
        t0=time.time()
        s.stats.smt+=1
        sol=z3.Solver(); sol.set('timeout',timeout)
        if s.tr is None: s.tr=Z3Tr(); s.trlin=Z3Tr(True)
        tr=s.trlin if lin else s.tr
        out=list(conds); ats=set()
        for c in out+([] if lin else s.facts): ats|=_catoms(c)
        af=[]; s.bound_facts(ats,set(),af); n0=len(af)
        if lin: af=[c for c in af if s.linear(c)]; complete=len(af)==n0; out+=[c for c in s.facts if s.linear(c)]
        else: out+=s.facts
        out+=af
        cc=tr.cc
        for c in out:
            k=ckey(c); e=cc.get(k)
            if e is None: e=cc[k]=tr.cond(c)
            sol.add(e)
        r=str(sol.check())
        s.lastmodel=(sol.model(),tr) if r=='sat' else None
        s.stats.smt_time+=time.time()-t0
        return (r,complete) if lin else r
    def decide(s,st,cond):
        if cond is True or cond is False: return cond
        ck=ckey(cond); nk=ckey(c_not(cond))
        for c in st.pc:
            k=ckey(c)
            if k==ck: return True
            if k==nk: return False
        if s.feas and _smtable(cond):
            if s.prove(st,cond): return True
            if s.prove(st,c_not(cond)): return False
        raise NeedFork(cond)
    # ---------- memory
    def norm(s,st,p,size,write=False):
        """normalise pointer to (obj, idx, const inner offset)"""
        obj=p.obj
        if obj is NULLOBJ: raise Violation('null pointer dereference')
        if type(obj) is not Obj: raise Unsupported('deref of %r'%(p,))
        if s.deadline and time.time()>s.deadline: raise Unsupported('time limit')
        if obj.schema is not None:
            r=obj.schema(s,st,p,size,write)
            if r is not None: return r
        off=p.off
        os_=st.ostate(obj)
        if st.base is not None: 
            b=st.base; S0=os_.stride; bad=False
            while b is not None:
                if b.ostate(obj).stride!=S0: bad=True
                b=b.base
            if bad: s.unify_stride(st,obj); os_=st.ostate(obj)
        if os_.stride is None:
            if off.is_const():
                o=off.const()
                if obj.size is not None and (o<0 or (obj.size.is_const() and o+size>obj.size.const())):
                    raise Violation('out of bounds access to %s: offset %d size %d of %s'%(obj.name,o,size,show(obj.size)))
                return obj,p.idx if s.idxnorm is None else tuple(s.idxnorm(st,i) for i in p.idx),o
            s.set_stride(st,obj,off)
            os_=st.ostate(obj)
        S=os_.stride
        bad=[c for m,c in off.d.items() if m!=() and c%S]
        if bad:
            s.set_stride(st,obj,off); os_=st.ostate(obj); S=os_.stride
        c0=off.const(); inner=c0%S
        I=Poly({m:(c//S) for m,c in off.d.items() if m!=() })+ (c0-inner)//S
        idx=p.idx+(I,)
        if s.idxnorm is not None: idx=tuple(s.idxnorm(st,i) for i in idx)
        return obj,idx,inner
    def set_stride(s,st,obj,off):
        import math
        os_=st.wstate(obj)
        g=0
        for m,c in off.d.items():
            if m!=(): g=math.gcd(g,abs(c))
        if os_.stride: g=math.gcd(g,os_.stride)
        # known complex/elem stride hints
        hint=obj.tag.get('stride') if isinstance(obj.tag,dict) else None
        if hint and g%hint==0: g=hint
        s._restride(st,obj,g)
        b=st.base
        while b is not None:
            if b.ostate(obj).stride!=g: s._restride(b,obj,g)
            b=b.base
    def unify_from(s,st,obj,S):
        import math
        if S is None: raise Unsupported('stride lost in loop')
        g=math.gcd(S,st.ostate(obj).stride or 0)
        if g!=S: raise Unsupported('finer stride outside loop')
        b=st
        while b is not None:
            if b.ostate(obj).stride!=g: s._restride(b,obj,g)
            b=b.base
    def unify_stride(s,st,obj):
        import math
        ch=[]; b=st
        while b is not None: ch.append(b); b=b.base
        g=0
        for b in ch: g=math.gcd(g,b.ostate(obj).stride or 0)
        for b in ch:
            if b.ostate(obj).stride!=g: s._restride(b,obj,g)
    def _restride(s,st,obj,g):
        os_=st.wstate(obj)
        if os_.stride is None:
            # rekey existing concrete groups
            ng=[]
            for gr in os_.groups:
                if gr.q is not None: raise Unsupported('restride quantified')
                by={}
                for o,v in gr.cells.items(): by.setdefault(o//g,{})[o%g]=v
                for I,cells in by.items(): ng.append(Group(gr.idx+(num(I),),cells))
            os_.groups=ng
        elif os_.stride!=g:
            S=os_.stride; f=S//g; ng=[]
            for gr in os_.groups:
                by={}
                for o,v in gr.cells.items(): by.setdefault(o//g,{})[o%g]=v
                for J,cells in by.items(): ng.append(Group(gr.idx[:-1]+(gr.idx[-1]*f+J,),cells,gr.q))
            os_.groups=ng
        os_.stride=g
    def same_idx(s,st,a,b):
        """True / False / None"""
        und=False
        for x,y in zip(a,b):
            d=x-y
            if not d.d: continue
            if d.is_const(): return False
            r=s.idx_eq(st,d,x,y)
            if r is False: return False
            if r is None: und=True
        return None if und else True
    def idx_eq(s,st,d,x=None,y=None):
        c=s.eq_cond(st,x,y) if x is not None else c_eq(d)
        if c is True or c is False: return c
        if s.prove(st,c_not(c)): return False
        if s.prove(st,c): return True
        return None
    def eq_cond(s,st,x,y):
        """condition for two indices to be equal, digit by digit when both split"""
        if s.eqhook is not None:
            r=s.eqhook(st,x,y)
            if r is not None: return r
        if s.split is not None:
            a=s.split(st,x)
            b=s.split(st,y) if a is not None else None
            if b is not None: return c_and(c_eq(a[0]-b[0]),c_eq(a[1]-b[1]))
        return c_eq(x-y)
    def read(s,st,p,ty,mod):
        t=resolve(ty,mod)
        if t[0]=='vec':
            es=tsize(t[2],mod)
            return Vec([s.read(st,p.plus(es*i),t[2],mod) for i in range(t[1])])
        if t[0] in('st','arr'):
            if t[0]=='st': return Agg([s.read(st,p.plus(foffset(t,i,mod)),e,mod) for i,e in enumerate(t[1])])
            es=tsize(t[2],mod)
            return Agg([s.read(st,p.plus(es*i),t[2],mod) for i in range(t[1])])
        size=tsize(t,mod)
        obj,idx,inner=s.norm(st,p,size)
        return s.read_cell(st,obj,idx,inner,t,size)
    def read_cell(s,st,obj,idx,inner,t,size,pst=None):
        os_=st.ostate(obj)
        src=st
        if pst is not None: st=pst
        key=tuple(i.key() for i in idx)
        gs=os_.groups
        for n in range(len(gs)-1,-1,-1):
            g=gs[n]
            if g.q is None:
                if g.key==key: r=True
                elif inner not in g.cells and not g.cells.get('havoc'): continue
                else: r=s.same_idx(st,idx,g.idx)
                if r is False: continue
                if r is None: 
                    c=True
                    for x,y in zip(idx,g.idx): c=c_and(c,s.eq_cond(st,x,y))
                    raise NeedFork(c)
                v=g.cells.get(inner)
                if v is not None:
                    if v[0]!=size:
                        return s.reinterp(st,obj,idx,inner,v,t,size)
                    return s.coerce(v[1],t)
                for o in g.cells:
                    if isinstance(o,int) and o<inner<o+g.cells[o][0]: return s.reinterp(st,obj,idx,o,g.cells[o],t,size,inner-o)
            else:
                v=g.cells.get(inner)
                if v is None: continue
                r=s.match_q(st,g,idx)
                if r is None: continue
                mp,rc_=r
                if not s.decide(st,rc_): continue
                if v[0]!=size: raise Unsupported('size mismatch in quantified cell')
                if s.split is not None:
                    for u,q in mp.items():
                        if q.is_const() or app_single(q) is not None: continue
                        hl=s.split(st,q)
                        if hl is not None and hl[0].d and hl[1].d and s.prove(st,c_eq(hl[0])): mp[u]=hl[1]
                x=substv(v[1],mp)
                return s.coerce(x,t)
        if src.reads is not None:
            rk=(obj.id,key,inner)
            if rk in src.reads and src.reads[rk][4] is not st.pc: rk=rk+(len(src.reads),)
            S=os_.stride
            src.reads.setdefault(rk,(obj,idx,num(inner),size,st.pc) if S is None else (obj,idx[:-1],idx[-1]*S+inner,size,st.pc))
        if src.base is not None: return s.read_cell(src.base,obj,idx,inner,t,size,st)
        if obj.init is None:
            v=UNDEF
        else: v=obj.init(s,st,idx,inner,t,size)
        return v
    def reinterp(s,st,obj,idx,inner,v,t,size,shift=0):
        if isinstance(v[1],Poly) and v[1].is_const() and v[1].const()==0 and v[0]>=size: return ZERO
        if t[0]=='i' and isinstance(v[1],Poly) and v[1].is_const() and isinstance(v[1].const(),int):
            x=v[1].const()
            if v[0]>=size: return num((x>>(8*shift))&((1<<(8*size))-1))
        raise Unsupported('partial/mixed-size read of %s at %s: cell %d read %d'%(obj.name,inner,v[0],size))
    def match_q(s,st,g,idx):
        """solve g.idx(vars)=idx for the bound vars; returns (substitution, range condition) or None if impossible"""
        vars_,rng=g.q          # vars_: list of var ids, rng: list of (lo,hi) polys (may depend on earlier vars), plus guard
        mp={}
        todo=list(range(len(idx)))
        conds=True
        pend=list(zip(g.idx,idx))
        progress=True
        rest=[]
        while pend and progress:
            progress=False; nxt=[]
            for w,j in pend:
                w2=substm(w,mp) if mp else w
                free=[v for v in vars_ if v not in mp and adepends_p(w2,v)]
                if not free: rest.append((w2,j)); progress=True; continue
                sol=solve_linear(w2,j,free,{v:r for v,r in zip(vars_,rng)},s,st)
                if sol is None: nxt.append((w,j)); continue
                mp.update(sol); progress=True
            pend=nxt
        if pend:
            raise Unsupported('cannot match quantified write index %s with %s'%(g.idx,idx))
        free=[v for v in vars_ if v not in mp]
        if free: raise Unsupported('quantified write not injective')
        for w,j in rest:
            conds=c_and(conds,c_eq(w-j))
            if conds is False: return None
        for v,(lo,hi) in zip(vars_,rng):
            lo2=substm(lo,mp); hi2=substm(hi,mp)
            if s.rangesplit is not None and not lo2.d:
                r=s.rangesplit(st,mp[v],hi2)
                if r is not None:
                    conds=c_and(conds,r)
                    if conds is False: return None
                    continue
            conds=c_and(conds,c_and(c_le(lo2-mp[v]),c_lt(mp[v]-hi2)))
            if conds is False: return None
        gd=g.cells.get('guard')
        if gd is not None: conds=c_and(conds,simp_cond(csubst(gd,mp)) if isinstance(gd,tuple) else gd)
        if conds is False: return None
        return mp,conds
    def coerce(s,v,t):
        k=t[0]
        if v is UNDEF: return v
        if type(v) is Lazy: v=v.get()
        if k in('double','float'):
            if isinstance(v,Bits): return v.v
            return v
        if k=='i' and t[1]==64 and isinstance(v,Poly): return v
        return v
    def write(s,st,p,v,ty,mod):
        t=resolve(ty,mod)
        if t[0]=='vec':
            es=tsize(t[2],mod)
            vs=v if isinstance(v,Vec) else ([UNDEF]*t[1] if v is UNDEF else None)
            if vs is None: raise Unsupported('vec store')
            for i in range(t[1]): s.write(st,p.plus(es*i),vs[i],t[2],mod)
            return
        if t[0] in('st','arr'):
            n=len(t[1]) if t[0]=='st' else t[1]
            for i in range(n):
                e=t[1][i] if t[0]=='st' else t[2]
                o=foffset(t,i,mod) if t[0]=='st' else i*tsize(t[2],mod)
                s.write(st,p.plus(o),UNDEF if v is UNDEF else v[i],e,mod)
            return
        size=tsize(t,mod)
        if isinstance(v,(bool,tuple)): v=num(int(v)) if isinstance(v,bool) else ite(v,ONE,ZERO,'int')
        obj,idx,inner=s.norm(st,p,size,True)
        if obj.const: raise Violation('write to constant object '+obj.name)
        s.write_cell(st,obj,idx,inner,size,v,t)
    def write_cell(s,st,obj,idx,inner,size,v,t=None):
        os_=st.wstate(obj)
        key=tuple(i.key() for i in idx)
        gs=os_.groups
        for n in range(len(gs)-1,-1,-1):
            g=gs[n]
            if g.q is None and g.key==key:
                g.cells[inner]=(size,v,t); s._over(g,inner,size); return
            if g.q is None:
                if inner in g.cells:
                    if s.same_idx(st,idx,g.idx) is not False: break
                continue
            if inner in g.cells: break
        gs.append(Group(idx,{inner:(size,v,t)}))
    def _over(s,g,inner,size):
        kill=None
        for o,c in g.cells.items():
            if o==inner or not isinstance(o,int): continue
            if o<inner+size and inner<o+c[0]:
                if kill is None: kill=[]
                kill.append(o)
        if kill:
            for o in kill:
                c=g.cells[o]
                # writing part of a larger constant-zero cell: split
                if isinstance(c[1],Poly) and c[1].is_const() and c[1].const()==0 and o<=inner:
                    for q in list(range(o,inner))+list(range(inner+size,o+c[0])): g.cells[q]=(1,ZERO)
                del g.cells[o]
    # ---------- operand evaluation
    def val(s,op,ty,env,fr):
        k=op[0]
        if k=='loc':
            v=env.get(op[1])
            if v is None: raise Unsupported('unset local %'+op[1])
            return v
        if k=='ci':
            t=ty
            if t[0]=='i':
                if t[1]==1: return bool(op[1]&1)
                return num(op[1])
            return num(op[1])
        if k=='cf':
            if isinstance(op[1],str): return app('const_'+op[1],())
            f=op[1]
            return num(int(f)) if f.denominator==1 and abs(f)<2**53 else num(float(f))
        if k=='null': return NULL
        if k in('undef',):
            t=resolve(ty,fr.mod) if ty else ('i',8)
            if t[0]=='vec': return Vec([UNDEF]*t[1])
            if t[0]=='st': return Agg([UNDEF]*len(t[1]))
            return UNDEF
        if k=='zero':
            return s.zero(ty,fr.mod)
        if k=='glob': return s.globptr(op[1],fr.mod)
        if k=='agg':
            t=resolve(ty,fr.mod)
            vs=[s.val(o,tt,env,fr) for tt,o in op[1]]
            return Vec(vs) if t[0]=='vec' else Agg(vs)
        if k=='str': return Agg([num(b) for b in op[1]])
        if k=='ce':
            if op[1]=='gep':
                base=s.val(op[3][0][1],op[3][0][0],env,fr)
                return s.gep(op[2],base,[(t,s.val(o,t,env,fr)) for t,o in op[3][1:]],fr.mod)
            if op[1] in('bitcast',): return s.val(op[2][1],op[2][0],env,fr)
            if op[1]=='ptrtoint': return s.val(op[2][1],op[2][0],env,fr)
        raise Unsupported('operand %r'%(op,))
    def zero(s,ty,mod):
        t=resolve(ty,mod)
        if t[0]=='vec': return Vec([s.zero(t[2],mod)]*t[1])
        if t[0]=='arr': return Agg([s.zero(t[2],mod)]*t[1])
        if t[0]=='st': return Agg([s.zero(e,mod) for e in t[1]])
        if t[0]=='ptr': return NULL
        if t==('i',1): return False
        return ZERO
    def globptr(s,name,mod):
        gi=mod.globals.get(name)
        if gi is None:
            return FnPtr(name)
        key=name
        if gi[4]: key=(mod.source,name)
        o=s.globals.get(key)
        if o is None:
            o=s.mkglobal(name,gi,mod,key)
        return Ptr(o)
    def mkglobal(s,name,gi,mod,key):
        t,init,ext,const,internal,tl=gi
        size=None if t[0]=='opaque' else num(tsize(t,mod))
        o=Obj('@'+name,None,size,ext=True)
        o.const=const
        flat={}
        d=gi
        if ext or init is None:
            # look for the defining module
            for m2 in s.mods.values():
                g2=m2.globals.get(name)
                if g2 and not g2[2] and g2[1] is not None: d=g2; mod=m2; break
        if const or (internal and s.is_const_global(key)) :
            if d[1] is not None: s.flatten(d[1],t,0,flat,mod)
        elif d[1] is not None: o.tag={'init':(d[1],d[0],mod)}
        def init_(ex,st,idx,inner,ty,size):
            if flat is not None and not idx and inner in flat: return ex.coerce(flat[inner][1],ty)
            if idx:
                if idx[0].is_const():
                    S=st.ostate(o).stride; k=idx[0].const()*S+inner
                    if k in flat: return ex.coerce(flat[k][1],ty)
            return ex.atom_for('@'+name,idx,inner,ty,size)
        o.init=init_
        s.globals[key]=o
        return o
    def is_const_global(s,key): return False
    def atom_for(s,name,idx,inner,ty,size):
        """uninterpreted initial value"""
        if ty[0]=='ptr':
            k=('ptr',name,tuple(i.key() for i in idx),inner)
            o=s.globals.get(k)
            if o is None:
                nm='%s.%d'%(name,inner)
                o=Obj('*'+nm,None,None,ext=True)
                o.init=lambda ex,st,ix,inn,t,sz: ex.atom_for('*'+nm+''.join('[%s]'%show(i) for i in idx),ix,inn,t,sz)
                s.globals[k]=o
            return Ptr(o)
        sort='real' if ty[0] in('double','float') else 'int'
        return app('%s.%s'%(name,inner),idx,sort)
    def flatten(s,c,t,off,out,mod):
        t=resolve(t,mod)
        if c[0]=='zero':
            v=None
            if t[0] in('arr','vec'):
                for i in range(t[1]): s.flatten(('zero',),t[2],off+i*tsize(t[2],mod),out,mod)
            elif t[0]=='st':
                for i,e in enumerate(t[1]): s.flatten(('zero',),e,off+foffset(t,i,mod),out,mod)
            else: out[off]=(tsize(t,mod),s.zero(t,mod) if t!=('i',1) else ZERO)
            return
        if c[0]=='agg':
            for i,(et,e) in enumerate(c[1]):
                o=foffset(t,i,mod) if t[0]=='st' else i*tsize(t[2],mod)
                s.flatten(e,et,off+o,out,mod)
            return
        if c[0]=='str':
            for i,b in enumerate(c[1]): out[off+i]=(1,num(b))
            return
        class F: pass
        fr=F(); fr.mod=mod
        out[off]=(tsize(t,mod),s.val(c,t,{},fr))
    def gep(s,t,base,ops,mod):
        if base is UNDEF: return UNDEF
        if not isinstance(base,Ptr): raise Unsupported('gep on %r'%(base,))
        off=base.off
        first=True
        cur=t
        for ot,v in ops:
            if isinstance(v,(bool,tuple)): v=num(int(v)) if isinstance(v,bool) else ite(v,ONE,ZERO,'int')
            if v is UNDEF: return UNDEF
            if first:
                off=off+v*tsize(cur,mod); first=False; continue
            cur=resolve(cur,mod)
            if cur[0]=='st':
                i=v.const(); off=off+foffset(cur,i,mod); cur=cur[1][i]
            else:
                off=off+v*tsize(cur[2],mod); cur=cur[2]
        return Ptr(base.obj,base.idx,off)
    # ---------- running
    def call(s,f,args,st,depth=0):
        """returns list of (state, retval)"""
        if depth>60: raise Unsupported('recursion depth')
        fr=Frame(f)
        env={}
        for (t,n),a in zip(f.params,args): env[n if n is not None else str(f.params.index((t,n)))]=a
        # unnamed params get numbers
        for i,((t,n),a) in enumerate(zip(f.params,args)):
            if n is None: env[str(i)]=a
        fr.depth=depth
        outs=s.run(fr,env,st,f.entry,None,{})
        return [(st2,v) for st2,kind,v in outs if kind=='ret']
    def run(s,fr,env,st,blk,prev,lc,stop=None,body=None):
        """execute from blk until return / reaching `stop` (loop header) / leaving `body`.
        lc: per-loop iteration counters {header:(count, snapshot)}"""
        res=[]
        work=[(env,st,blk,prev,lc,0)]
        while work:
            env,st,blk,prev,lc,ip=work.pop()
            first=True
            while True:   # block loop
                over=None
                if s.deadline and time.time()>s.deadline: raise Unsupported('time limit')
                if ip==0:
                    if stop is not None and blk==stop and prev is not None and not (prev=='__start__'):
                        res.append((st,'iter',(prev,env))); break
                    if body is not None and blk not in body:
                        res.append((st,'exit',(blk,prev,env))); break
                    L=fr.f.loops.get(blk)
                    if L is not None and fr.f.name in s.cuts and not any(h!=blk and blk in l2['body'] for h,l2 in fr.f.loops.items()):
                        s.cut_prev=prev
                        cr=s.cuts[fr.f.name](s,st,fr,blk,env)
                        if cr is False: break
                        if isinstance(cr,dict): over=cr
                    if L is not None and prev!='__start__':
                        if prev in L['body']:
                            c,snap=lc.get(blk,(0,None))
                            lc=dict(lc); lc[blk]=(c+1,snap)
                            if c+1>s.maxiter: raise Unsupported('loop in %s exceeds %d iterations'%(fr.f.name,s.maxiter))
                        else:
                            lc=dict(lc); lc[blk]=(0,None if over is not None else (dict(env),st.clone(),prev))
                B=fr.f.blocks[blk]
                ins=B.instrs
                n=len(ins)
                if ip==0:
                    # phis in parallel
                    new=[]
                    while ip<n and ins[ip].op=='phi':
                        I=ins[ip]
                        if prev=='__start__': ip+=1; continue
                        if over and I.res in over: new.append((I.res,over[I.res])); ip+=1; continue
                        for v,b in I.args:
                            if b==prev: new.append((I.res,s.val(v,I.ty,env,fr))); break
                        else: raise Unsupported('phi')
                        ip+=1
                    if new:
                        for r,v in new: env[r]=v
                jumped=False
                while ip<n:
                    I=ins[ip]
                    s.stats.instr+=1
                    op=I.op
                    try:
                        if op=='br':
                            prev=blk if prev!='__start__' or True else prev; blk=I.args[0]; ip=0; jumped=True; break
                        if op=='cbr':
                            c=s.asbool(s.val(I.args[0],('i',1),env,fr))
                            if c is not True and c is not False:
                                hd=s.loop_trigger(fr,blk,lc)
                                if hd is not None:
                                    # symbolic trip count: loop rule
                                    outs=s.loop_rule(fr,hd,lc)
                                    for o_ in outs:
                                        if o_[0]=='ret' and len(o_)==3: res.append((o_[1],'ret',o_[2])); continue
                                        env2,st2,tgt,pv=o_
                                        lc2=dict(lc); lc2.pop(hd,None)
                                        work.append((env2,st2,tgt,pv,lc2,0))
                                    jumped=None; break
                                c=s.decide(st,c)
                            prev=blk; blk=I.extra[0] if c else I.extra[1]; ip=0; jumped=True; break
                        if op=='switch':
                            v=s.val(I.args[0],I.ty,env,fr)
                            tgt=I.extra[0]
                            for cv,lab in I.extra[1]:
                                cc=cv[1] if isinstance(cv,tuple) else cv
                                if s.decide(st,c_eq(v-cc)): tgt=lab; break
                            prev=blk; blk=tgt; ip=0; jumped=True; break
                        if op=='ret':
                            v=s.val(I.args[0],I.ty,env,fr) if I.args else None
                            res.append((st,'ret',v)); s.stats.paths+=1; jumped=None; break
                        if op=='unreachable': jumped=None; break
                        if op=='call':
                            outs=s.docall(fr,I,env,st)
                            if len(outs)==1:
                                st,rv=outs[0]
                                if I.res is not None: env[I.res]=rv
                            else:
                                for st2,rv in outs:
                                    e2=dict(env)
                                    if I.res is not None: e2[I.res]=rv
                                    work.append((e2,st2,blk,prev,lc,ip+1))
                                jumped=None; break
                        else:
                            r=s.step(fr,I,env,st)
                            if I.res is not None: env[I.res]=r
                        ip+=1
                    except NeedFork as e:
                        c=e.cond
                        sts=[]
                        a=st.clone(); a.pc=st.pc+(c,)
                        b=st.clone(); b.pc=st.pc+(c_not(c),)
                        if st.reads is not None: a.reads=st.reads; b.reads=st.reads
                        if s.feas and _smtable(c):
                            fa=not s.infeasible(a); fb=not s.infeasible(b)
                        else: fa=fb=True
                        if fb: work.append((dict(env),b,blk,prev,lc,ip if ip else 0))
                        if fa: work.append((dict(env),a,blk,prev,lc,ip))
                        if len(work)+len(res)>4000: raise Unsupported('too many paths in '+fr.f.name)
                        jumped=None; break
                    except (Violation,Unsupported) as e:
                        if not getattr(e,'where',None): e.where='%s:%s (%s)'%(getattr(fr.f,'src','?'),I.line,fr.f.name)
                        raise
                if jumped is None: break
                # jumped: continue with new block
            continue
        return res
    def known(s,st,c):
        """is c decided by the path condition?"""
        try: s.decide(st,c); return True
        except NeedFork: return False
    def loop_trigger(s,fr,blk,lc):
        """is blk an exiting header/latch of a loop in its first iteration?"""
        best=None
        for h,L in fr.f.loops.items():
            if blk not in L['body']: continue
            if h not in lc or lc[h][0]!=0 or lc[h][1] is None: continue
            term=fr.f.blocks[blk].instrs[-1]
            if all(x in L['body'] for x in term.extra): continue
            if blk==h or blk in L['latches'] or s.header_chain(fr.f,h,blk):
                if best is None or len(L['body'])<len(fr.f.loops[best]['body']): best=h
        return best
    def header_chain(s,f,h,blk):
        # header condition split over several blocks (short circuit &&): accept blocks without side effects directly following
        return False
    def asbool(s,v):
        if isinstance(v,(bool,tuple)): return v
        if v is UNDEF: raise Violation('branch on uninitialised value')
        if isinstance(v,Poly): return c_not(c_eq(v))
        raise Unsupported('bool %r'%(v,))
    def asint(s,v):
        if isinstance(v,bool): return num(int(v))
        if isinstance(v,tuple): return ite(v,ONE,ZERO,'int')
        if v is UNDEF: return fresh('undef','int')
        return v
    def asfp(s,v):
        if v is UNDEF: return fresh('undef','real')
        if isinstance(v,Bits): return v.v
        return v
    # ---------- instructions
    def step(s,fr,I,env,st):
        op=I.op; mod=fr.mod
        if op in BINOPS:
            t=I.ty
            a=s.val(I.args[0],t,env,fr); b=s.val(I.args[1],t,env,fr)
            if t[0]=='vec':
                a=a if isinstance(a,Vec) else Vec([a]*t[1]); b=b if isinstance(b,Vec) else Vec([b]*t[1])
                return Vec([s.binop(op,t[2],x,y,st,I) for x,y in zip(a,b)])
            return s.binop(op,t,a,b,st,I)
        if op=='load':
            p=s.val(I.args[0],('ptr',),env,fr)
            if p is UNDEF: raise Violation('load through uninitialised pointer')
            if not isinstance(p,Ptr): raise Unsupported('load via %r'%(p,))
            v=s.read(st,p,I.ty,mod)
            if I.ty==('i',1) and isinstance(v,Poly): v=s.asbool(v)
            return v
        if op=='store':
            v=s.val(I.args[0],I.ty,env,fr); p=s.val(I.args[1],('ptr',),env,fr)
            if p is UNDEF: raise Violation('store through uninitialised pointer')
            if not isinstance(p,Ptr): raise Unsupported('store via %r'%(p,))
            s.write(st,p,v,I.ty,mod); return None
        if op=='gep':
            base=s.val(I.args[0][1],I.args[0][0],env,fr)
            return s.gep(I.ty,base,[(t,s.val(o,t,env,fr)) for t,o in I.args[1:]],mod)
        if op=='alloca':
            n=num(1) if I.args[0] is None else s.asint(s.val(I.args[0][1],I.args[0][0],env,fr))
            o=Obj('%%%s.%s'%(fr.f.name,I.res),None,n*tsize(I.ty,mod))
            return Ptr(o)
        if op=='icmp':
            a=s.val(I.args[0],I.ty,env,fr); b=s.val(I.args[1],I.ty,env,fr)
            return s.icmp(I.extra,a,b,I.ty,st)
        if op=='fcmp':
            a=s.val(I.args[0],I.ty,env,fr); b=s.val(I.args[1],I.ty,env,fr)
            p=I.extra
            if p in('uno',): return False
            if p=='ord': return True
            a=s.asfp(a); b=s.asfp(b)
            d=a-b
            q=p[1:]
            if q=='eq': return c_eq(d)
            if q=='ne': return c_not(c_eq(d))
            if q=='lt': return c_lt(d)
            if q=='le': return c_le(d)
            if q=='gt': return c_lt(-d)
            if q=='ge': return c_le(-d)
            raise Unsupported('fcmp '+p)
        if op=='fneg':
            a=s.val(I.args[0],I.ty,env,fr)
            if isinstance(a,Vec): return Vec([-s.asfp(x) for x in a])
            return -s.asfp(a)
        if op in CASTS: return s.cast(op,s.val(I.args[0],I.extra,env,fr),I.extra,I.ty,st)
        if op=='select':
            c=s.asbool(s.val(I.args[0],('i',1),env,fr))
            a=s.val(I.args[1],I.ty,env,fr); b=s.val(I.args[2],I.ty,env,fr)
            if c is True: return a
            if c is False: return b
            if isinstance(a,Poly) and isinstance(b,Poly):
                try: return a if s.decide(st,c) else b
                except NeedFork:
                    if s.fork_select: raise
                    return ite(c,a,b)
            if isinstance(a,(bool,tuple)) and isinstance(b,(bool,tuple)): return c_or(c_and(c,a),c_and(c_not(c),b))
            return a if s.decide(st,c) else b
        if op=='extractelement':
            v=s.val(I.args[0],I.ty,env,fr); i=s.val(I.args[1],('i',64),env,fr).const()
            return v[i]
        if op=='insertelement':
            v=s.val(I.args[0],I.ty,env,fr); e=s.val(I.args[1],I.ty[2],env,fr); i=s.val(I.args[2],('i',64),env,fr).const()
            v=Vec(v); v[i]=e; return v
        if op=='shufflevector':
            a=s.val(I.args[0],I.ty,env,fr); b=s.val(I.args[1],I.ty,env,fr); mt,m=I.extra
            mk=s.val(m,mt,env,fr)
            if not isinstance(mk,(Vec,Agg)): mk=[ZERO]*mt[1]
            al=list(a)+list(b)
            return Vec([al[x.const()] if isinstance(x,Poly) else UNDEF for x in mk])
        if op=='extractvalue':
            v=s.val(I.args[0],I.ty,env,fr)
            for i in I.extra: v=v[i]
            return v
        if op=='insertvalue':
            v=s.val(I.args[0],I.ty,env,fr); ix,et=I.extra; e=s.val(I.args[1],et,env,fr)
            def ins(v,ix):
                w=Agg(v)
                w[ix[0]]=e if len(ix)==1 else ins(w[ix[0]],ix[1:])
                return w
            return ins(v,ix)
        if op=='freeze': return s.val(I.args[0],I.ty,env,fr)
        if op=='fence': return None
        raise Unsupported('instruction '+op)
    def binop(s,op,t,a,b,st,I=None):
        if op[0]=='f':
            a=s.asfp(a); b=s.asfp(b)
            if op=='fadd': return a+b
            if op=='fsub': return a-b
            if op=='fmul': return a*b
            if op=='fdiv': return T.div(a,b)
            raise Unsupported(op)
        if t==('i',1):
            a=s.asbool(a); b=s.asbool(b)
            if op=='and': return c_and(a,b)
            if op=='or': return c_or(a,b)
            if op=='xor':
                if b is True: return c_not(a)
                if a is True: return c_not(b)
                if b is False: return a
                if a is False: return b
                return c_or(c_and(a,c_not(b)),c_and(c_not(a),b))
        if isinstance(a,Bits) or isinstance(b,Bits):
            if isinstance(b,Bits) and not isinstance(a,Bits): a,b=b,a
            if isinstance(b,Poly) and b.is_const():
                m=b.const()&((1<<64)-1)
                if op=='xor' and m==1<<63: return Bits(-s.asfp(a.v))
                if op in('xor','or') and m==0: return a
                if op=='and' and m==(1<<63)-1: return Bits(s.fabs(a.v,st))
                if op=='and' and m==(1<<64)-1: return a
                if op=='and' and m==0: return ZERO
                if op=='xor' and isinstance(a.v,Poly): pass
            if isinstance(b,Bits) and isinstance(b.v,Poly) and b.v.is_const():
                pass
            raise Unsupported('bit op on double')
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj: return a.off-b.off
            raise Unsupported('pointer arithmetic')
        a=s.asint(a); b=s.asint(b)
        if op=='add': r=a+b
        elif op=='sub': r=a-b
        elif op=='mul': r=a*b
        elif op=='udiv': r=s.udiv(a,b,t,st)
        elif op=='urem': r=a-b*s.udiv(a,b,t,st)
        elif op in('sdiv','srem'):
            if a.is_const() and b.is_const():
                x,y=sgn(a.const(),t[1]),sgn(b.const(),t[1])
                if y==0: raise Violation('division by zero')
                q=abs(x)//abs(y)
                if (x<0)!=(y<0): q=-q
                r=num(q) if op=='sdiv' else num(x-q*y)
            else:
                # truncated division: needs sign knowledge
                if s.decide(st,c_le(-a)):
                    if b.is_const() and b.const()<0:
                        q=-idiv(a,-b)
                    else: q=idiv(a,b)
                else: 
                    q=-idiv(-a,b) if not (b.is_const() and b.const()<0) else idiv(-a,-b)
                r=q if op=='sdiv' else a-q*b
        elif op=='shl':
            if b.is_const(): r=a*(1<<b.const())
            elif a.is_const() and a.const()==1: r=app('pow2',(b,),'int')
            else: r=a*app('pow2',(b,),'int')
        elif op in('lshr','ashr'):
            if b.is_const():
                if a.is_const(): r=num((a.const()&((1<<t[1])-1))>>b.const()) if op=='lshr' else num(sgn(a.const(),t[1])>>b.const())
                else: r=idiv(a,num(1<<b.const()))
            else: r=app(op,(a,b),'int')
        elif op in('and','or','xor'):
            if a.is_const() and b.is_const():
                x,y=a.const(),b.const(); r=num({'and':x&y,'or':x|y,'xor':x^y}[op])
            elif op=='and' and b.is_const() and (b.const()+1)&b.const()==0 and b.const()>0: r=a-(b.const()+1)*idiv(a,num(b.const()+1))
            elif op=='and' and a.is_const() and (a.const()+1)&a.const()==0 and a.const()>0: r=b-(a.const()+1)*idiv(b,num(a.const()+1))
            elif op in('or','xor') and b.is_const() and b.const()==0: r=a
            elif op in('or','xor') and a.is_const() and a.const()==0: r=b
            elif op=='xor' and b.is_const() and sgn(b.const(),t[1])==-1: r=-a-1
            elif op=='and' and (same(a,ZERO) or same(b,ZERO)): r=ZERO
            elif op in('and','or') and same(a,b): r=a
            else:
                x,y=sorted((a,b),key=lambda p:str(p.key())); r=app('bit'+op,(x,y),'int')
        else: raise Unsupported(op)
        if r.is_const() and isinstance(r.const(),int):
            c=r.const(); w=t[1]
            if not -(1<<(w-1))<=c<(1<<w): r=num(c&((1<<w)-1))
        return r
    # ---- bounds by interval arithmetic over digits: atoms x with 0<=x<D, D a polynomial in atoms >=1
    def extremes(s,p):
        """(min,max) of p as polynomials in the positive atoms, or None"""
        lo=ZERO; hi=ZERO
        for m,c in p.d.items():
            if type(c) is complex: return None
            dg=[x for x in m if x in s.digits]
            if any(x not in s.digits and x not in s.pos for x in m) or len(set(dg))!=len(dg): return None
            rest=Poly({tuple(x for x in m if x not in s.digits):c}); top=rest
            for x in dg: top=top*(s.digits[x]-1)
            if not dg: lo=lo+rest; hi=hi+rest
            elif c>0: hi=hi+top
            else: lo=lo+top
        return lo,hi
    def geq0(s,p):
        """p>=0 whenever all positive atoms are >=1 (sufficient test)"""
        if p.is_const(): return p.const()>=0
        if any(x not in s.pos for x in p.atoms()): return False
        q=substm(p,{x:Poly({(x,):1})+1 for x in p.atoms()})
        return all(c>=0 for c in q.d.values())
    def nonneg(s,st,a):
        if a.is_const(): return a.const()>=0
        e=s.extremes(a)
        if e is not None: return s.geq0(e[0]) or s.prove(st,c_le(-a))
        ok=True
        for m,c in a.d.items():
            if type(c) is complex or c<0: ok=False; break
            for x in m:
                at=ATOMS[x]
                if not (x in s.digits or x in s.pos or at.name in('site','idiv') or at.name in s.nneg): ok=False
        if ok: return True
        return s.prove(st,c_le(-a))
    def udiv(s,a,b,t,st):
        if a.is_const() and a.const()<0: a=num(a.const()&((1<<t[1])-1))
        if b.is_const() and b.const()==0: raise Violation('division by zero')
        if s.digits and not b.is_const():
            # mixed radix: split off the part divisible by b
            q=ZERO; r=a
            if len(b.d)==1:
                (bm,bc),=b.d.items(); qd={}; rd={}
                for m,c in a.d.items():
                    mm=list(m); ok=c%bc==0
                    for x in bm:
                        if x in mm: mm.remove(x)
                        else: ok=False; break
                    if ok: qd[tuple(mm)]=c//bc
                    else: rd[m]=c
                q=Poly(qd); r=Poly(rd)
            e=s.extremes(r)
            if e is not None:
                lo,hi=e
                for j in (0,-1,1,-2,2):
                    if s.geq0(lo-b*j) and s.geq0(b*(j+1)-hi-1): return q+j
                if not a.is_const() and not s.nonneg(st,a):
                    return app('udiv_wrapped',(a,b),'int')
                for j in (-1,0,1):
                    # two-way split r in [jb,(j+2)b)
                    lo_ok=s.geq0(lo-b*j) or s.prove(st,c_le(b*j-r)); hi_ok=s.geq0(b*(j+2)-hi-1) or s.prove(st,c_lt(r-b*(j+2)))
                    if lo_ok and hi_ok: return q+j if s.decide(st,c_lt(r-b*(j+1))) else q+j+1
                return idiv(a,b)
        if s.peel and len(b.d)==1 and not b.is_const():
            q=ZERO; r=ZERO
            for m,c in a.d.items():
                x=Poly({m:c}); k=idiv(x,b)
                if same(k*b,x): q=q+k
                else: r=r+x
            if not r.d or s.prove(st,c_and(c_le(-r),c_lt(r-b))): return q
        if not s.nonneg(st,a): return app('udiv_wrapped',(a,b),'int')
        return idiv(a,b)
    def fabs(s,v,st):
        if v.is_const(): return num(abs(v.const()))
        try: return v if s.decide(st,c_le(-v)) else -v
        except NeedFork:
            k=v.key()
            return app('fabs',(T._even(v)[0],))
    def icmp(s,p,a,b,t,st):
        if isinstance(a,Undef) or isinstance(b,Undef):
            a=s.asint(a) if isinstance(a,Undef) and not isinstance(b,Ptr) else a
            b=s.asint(b) if isinstance(b,Undef) and not isinstance(a,Ptr) else b
        if isinstance(a,(Ptr,FnPtr)) or isinstance(b,(Ptr,FnPtr)):
            if isinstance(a,FnPtr) or isinstance(b,FnPtr):
                e=isinstance(a,FnPtr) and isinstance(b,FnPtr) and a.name==b.name
                return e if p=='eq' else not e
            if p in('eq','ne'):
                if a.obj is b.obj:
                    c=True
                    for x,y in zip(a.idx+(a.off,),b.idx+(b.off,)): c=c_and(c,c_eq(x-y))
                else:
                    c=False
                    # unknown external pointers may be NULL
                    o=b.obj if a.obj is NULLOBJ else a.obj if b.obj is NULLOBJ else None
                    if o is not None and isinstance(o.tag,dict) and o.tag.get('maybe_null'):
                        c=('b','isnull',o.name)
                return c if p=='eq' else c_not(c)
            if a.obj is b.obj and len(a.idx)==0==len(b.idx):
                return s.icmp(p,a.off,b.off,('i',64),st)
            raise Unsupported('pointer comparison')
        if isinstance(a,Bits) or isinstance(b,Bits): raise Unsupported('bits compare')
        if t==('i',1):
            a=s.asbool(a); b=s.asbool(b)
            if p=='eq': 
                if b is False: return c_not(a)
                if b is True: return a
            if p=='ne':
                if b is False: return a
                if b is True: return c_not(a)
        a=s.asint(a); b=s.asint(b)
        if a.is_const() and b.is_const():
            w=t[1]; x,y=a.const(),b.const()
            if p[0]=='u' or p in('eq','ne'): x&=(1<<w)-1; y&=(1<<w)-1
            else: x,y=sgn(x,w),sgn(y,w)
            return {'eq':x==y,'ne':x!=y,'ult':x<y,'ule':x<=y,'ugt':x>y,'uge':x>=y,'slt':x<y,'sle':x<=y,'sgt':x>y,'sge':x>=y}[p]
        if p[0]=='u':
            # unsigned comparison against a negative constant means a huge bound
            w=t[1]
            if b.is_const() and b.const()<0: b=num(b.const()+(1<<w))
            if a.is_const() and a.const()<0: a=num(a.const()+(1<<w))
        d=a-b
        q=p[-2:] if p not in('eq','ne') else p
        if p=='eq': return c_eq(d)
        if p=='ne': return c_not(c_eq(d))
        if q=='lt': return c_lt(d)
        if q=='le': return c_le(d)
        if q=='gt': return c_lt(-d)
        return c_le(-d)
    def cast(s,op,v,t0,t1,st):
        if t0[0]=='vec' and t1[0]=='vec' and t0[1]==t1[1]:
            return Vec([s.cast(op,x,t0[2],t1[2],st) for x in v])
        if op=='bitcast':
            if v is UNDEF: return v
            if t1[0]=='double': return v.v if isinstance(v,Bits) else (s.bits_to_fp(v))
            if t0[0]=='double': return Bits(v)
            if t0[0]=='vec' and t1[0]=='vec':
                # <4 x float> etc. only when all elements are zero / all-ones
                raise Unsupported('vector bitcast %r %r'%(t0,t1))
            return v
        if v is UNDEF: return UNDEF
        if op in('fpext','fptrunc'): return v
        if op in('uitofp','sitofp'):
            return s.asint(v)
        if op in('fptoui','fptosi'):
            if v.is_const(): return num(int(v.const()))
            if all(ATOMS[x].sort=='int' for x in v.atoms()) and all(type(c) is int for c in v.d.values()): return v
            return app('ftoi',(v,),'int')
        if op=='zext':
            if isinstance(v,(bool,tuple)): return s.asint(v)
            if isinstance(v,Poly) and v.is_const() and v.const()<0: return num(v.const()&((1<<t0[1])-1))
            return v
        if op=='sext':
            if isinstance(v,bool): return num(-int(v))
            if isinstance(v,tuple): return ite(v,num(-1),ZERO,'int')
            if v.is_const(): return num(sgn(v.const(),t0[1]))
            return v
        if op=='trunc':
            if t1==('i',1):
                if isinstance(v,(bool,tuple)): return v
                if v.is_const(): return bool(v.const()&1)
                a=app_single(v)
                if a is not None and a.kind=='ite' and a.args[1].is_const() and a.args[2].is_const():
                    x,y=a.args[1].const()&1,a.args[2].const()&1
                    if x==1 and y==0: return a.args[0]
                return c_not(c_eq(imod(v,num(2))))
            if isinstance(v,Poly) and v.is_const():
                m=v.const()&((1<<t1[1])-1)
                return num(m)
            return v
        if op in('ptrtoint','inttoptr'):
            return v
        raise Unsupported('cast '+op)
    def bits_to_fp(s,v):
        if isinstance(v,Poly) and v.is_const():
            import struct
            d=struct.unpack('>d',(v.const()&((1<<64)-1)).to_bytes(8,'big'))[0]
            return num(int(d) if d==int(d) else d)
        raise Unsupported('bitcast int->double')
    # ---------- calls
    def docall(s,fr,I,env,st):
        if I.extra[0]=='glob': name=I.extra[1]
        else:
            v=s.val(I.extra,('ptr',),env,fr)
            if isinstance(v,FnPtr): name=v.name
            elif isinstance(v,Ptr) and isinstance(v.obj.tag,dict) and 'fn' in v.obj.tag: name=v.obj.tag['fn']
            else: raise Unsupported('indirect call')
        if name.startswith(('llvm.minnum','llvm.maxnum')):
            a=[s.val(o,t,env,fr) for t,o in I.args]; nm='fmin' if 'min' in name else 'fmax'
            if nm in s.contracts: return s.invoke(nm,a,I,st,fr)
            x,y=s.asfp(a[0]),s.asfp(a[1]); lo=c_lt(x-y)
            return [(st,ite(lo,x,y) if nm=='fmin' else ite(lo,y,x))]
        if name.startswith('llvm.'): 
            return [(st,s.intrinsic(name,I,[s.val(o,t,env,fr) for t,o in I.args if t!=('metadata',)],st,fr))]
        args=[s.val(o,t,env,fr) for t,o in I.args]
        return s.invoke(name,args,I,st,fr)
    def invoke(s,name,args,I,st,fr):
        c=s.contracts.get(name)
        if c is not None:
            st2=st.clone(); st2.reads=st.reads
            outs=c(s,st2,args,I)
            if outs is not None:
                s.stats.contracts.add(name); return outs
        f=s.fn(name,fr.mod)
        if f is not None and name not in s.noinline:
            s.stats.inlined.add(name)
            st2=st.clone(); st2.reads=st.reads
            outs=s.call(f,args,st2,fr.depth+1)
            if len(outs)>s.merge_returns: outs=s.merge_outs(outs,len(st.pc))
            if s.on_return is not None: outs=[(a,s.on_return(a,v)) for a,v in outs]
            return outs
        lib=LIB.get(name)
        if lib is not None:
            s.stats.trusted.add(name)
            return lib(s,st,args,I,fr)
        raise Unsupported('call to unknown function '+name)
    def intrinsic(s,name,I,args,st,fr):
        if name.startswith(('llvm.dbg','llvm.lifetime','llvm.assume','llvm.va_')): return None
        if name.startswith('llvm.stacksave'): return NULL
        if name.startswith('llvm.stackrestore'): return None
        if name.startswith('llvm.fabs'):
            return s.fabs(s.asfp(args[0]),st)
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma.'): return args[0]*args[1]+args[2]
        if name.startswith('llvm.sqrt'): return Vec([T.sqrt(s.asfp(x)) for x in args[0]]) if isinstance(args[0],Vec) else T.sqrt(args[0])
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            s.memcpy(st,args[0],args[1],args[2],fr.mod); return None
        if name.startswith('llvm.memset'):
            s.memset(st,args[0],args[1],args[2]); return None
        if name.startswith(('llvm.cos','llvm.sin','llvm.exp','llvm.log','llvm.pow')):
            return LIB[name.split('.')[1]](s,st,args,I,fr)[0][1]
        if name.startswith('llvm.bswap'):
            a=args[0]
            if a.is_const():
                n=I.ty[1]//8; return num(int.from_bytes((a.const()&((1<<I.ty[1])-1)).to_bytes(n,'little'),'big'))
            b=app_single(a)
            if b is not None and b.name=='bswap%d'%I.ty[1]: return b.args[0]
            return app('bswap%d'%I.ty[1],(a,),'int')
        if name.startswith('llvm.ctpop') or name.startswith('llvm.trap'): raise Unsupported(name)
        if name.startswith('llvm.is.constant'): return False
        if name.startswith(('llvm.x86.sse2.ucomi','llvm.x86.sse2.comi')):
            d=s.asfp(args[0][0])-s.asfp(args[1][0]); k=name.split('comi')[1].split('.')[0]
            c={'lt':lambda: c_lt(d),'le':lambda: c_le(d),'gt':lambda: c_lt(-d),'ge':lambda: c_le(-d),'eq':lambda: c_eq(d),'neq':lambda: c_not(c_eq(d))}[k]()
            return s.asint(c)
        if name.startswith('llvm.abs'):
            a=s.asint(args[0]); return ite(c_lt(a),-a,a,'int')
        if name.startswith('llvm.umax') or name.startswith('llvm.smax'):
            return ite(c_lt(args[0]-args[1]),args[1],args[0],'int')
        if name.startswith('llvm.umin') or name.startswith('llvm.smin'):
            return ite(c_lt(args[0]-args[1]),args[0],args[1],'int')
        raise Unsupported('intrinsic '+name)
    def memset(s,st,p,v,n):
        if not v.is_const(): raise Unsupported('memset value')
        if not n.is_const():
            s.memset_sym(st,p,v,n); return
        if v.const()!=0:
            for i in range(n.const()): s.write_bytes(st,p.plus(i),1,num(v.const()&255))
            return
        n=n.const(); o=0
        while o+8<=n: s.write_bytes(st,p.plus(o),8,ZERO); o+=8
        while o<n: s.write_bytes(st,p.plus(o),1,ZERO); o+=1
    def memset_sym(s,st,p,v,n): raise Unsupported('symbolic memset')
    def write_bytes(s,st,p,size,v):
        obj,idx,inner=s.norm(st,p,size,True)
        s.write_cell(st,obj,idx,inner,size,v)
    def memcpy(s,st,d,sr,n,mod):
        if not n.is_const(): raise Unsupported('symbolic memcpy')
        n=n.const()
        if n==0: return
        # copy cell by cell: use cells present in source, else 8-byte doubles from the initialiser
        out=[]
        o=0
        while o<n:
            p=sr.plus(o)
            obj,idx,inner=s.norm(st,p,1)
            sz,v=s.find_cell(st,obj,idx,inner,n-o)
            out.append((o,sz,v)); o+=sz
        for o,sz,v in out: s.write_bytes(st,d.plus(o),sz,v)
    def find_cell(s,st,obj,idx,inner,maxn):
        os_=st.ostate(obj); key=tuple(i.key() for i in idx)
        for g in reversed(os_.groups):
            if g.q is None and g.key==key and inner in g.cells: return g.cells[inner][:2]
        if st.base is None and obj.init is None and not any(g.q is not None or g.key!=key for g in os_.groups):
            return (8 if maxn>=8 and inner%8==0 else 1),UNDEF
        flat=getattr(obj,'flat',None)
        for size,t in ((8,('double',)),(4,('i',32)),(1,('i',8))):
            if size<=maxn and inner%size==0:
                try: return size,s.read_cell(st,obj,idx,inner,t,size)
                except Unsupported: continue
        raise Unsupported('memcpy source')
    # ---------- merging
    def merge_outs(s,outs,npc):
        """merge return states into one with ite values"""
        conds=[]
        for o,_ in outs:
            c=True
            for x in o.pc[npc:]: c=c_and(c,x)
            conds.append(c)
        st=s.merge_states([o for o,_ in outs],conds,outs[0][0].pc[:npc])
        return [(st,merge_vals([v for _,v in outs],conds))]
    def merge_states(s,sts,conds,pc):
        base=sts[0]
        st=State(); st.pc=pc; st.events=base.events; st.reads=base.reads; st.flags=dict(base.flags); st.base=base.base
        for o in sts:
            if o.events!=base.events: raise Unsupported('merge of different event histories')
        ids={}
        for o in sts:
            for i in o.mem: ids[i]=1
        for i in ids:
            oss=[o.mem.get(i) for o in sts]
            if all(x is oss[0] for x in oss): st.mem[i]=oss[0]; continue
            st.mem[i]=s.merge_ostates(i,sts,conds)
        return st
    def merge_ostates(s,oid,sts,conds):
        obj=OBJS[oid]
        strides={o.ostate(obj).stride for o in sts}
        if len(strides)>1:
            import math
            g=0
            for x in strides: g=math.gcd(g,x or 0)
            for o in sts:
                if o.ostate(obj).stride!=g: s._restride(o,obj,g)
        oss=[o.ostate(obj) for o in sts]
        n=OState(); n.stride=oss[0].stride; n.freed=oss[0].freed
        k=0
        def geq(a,b): return a.key==b.key and (a.q is b.q or a.q==b.q) and a.cells.keys()==b.cells.keys() and all(a.cells[c] is b.cells[c] or (isinstance(a.cells[c],tuple) and a.cells[c][1] is b.cells[c][1]) for c in a.cells)
        while all(len(o.groups)>k for o in oss) and all(geq(o.groups[k],oss[0].groups[k]) for o in oss):
            n.groups.append(oss[0].groups[k]); k+=1
        keys=[]
        for o in oss:
            for g in o.groups[k:]:
                if g.q is not None: return s.merge_quant(n,k,oss,conds)
                if g.key not in [x[0] for x in keys]: keys.append((g.key,g.idx))
        # distinct symbolic index tuples must be provably different, otherwise the order of writes matters
        for a in range(len(keys)):
            for b in range(a):
                if s.same_idx(sts[0],keys[a][1],keys[b][1]) is not False:
                    raise Unsupported('merge: possibly aliasing writes to '+obj.name)
        for key,idx in keys:
            cs={}
            for o in oss:
                for g in o.groups[k:]:
                    if g.key==key:
                        for c in g.cells: cs[c]=max(cs.get(c,0),g.cells[c][0])
            cells={}
            for c,size in cs.items():
                vs=[]; t=None
                for o in oss:
                    v=None
                    for g in reversed(o.groups):
                        if g.q is None and g.key==key and c in g.cells: v=g.cells[c]; break
                    vs.append(v)
                smp=next(v for v in vs if v is not None)
                t=smp[2] if len(smp)>2 and smp[2] else guess_type(smp[1],size)
                out=[]
                for v,o in zip(vs,sts):
                    if v is not None: out.append(v[1]); continue
                    x=s.read_cell(o,obj,idx,c,t,size)
                    out.append(x)
                cells[c]=(size,merge_vals(out,conds),t)
            n.groups.append(Group(idx,cells))
        return n
    def merge_quant(s,n,k,oss,conds):
        # exactly one path wrote quantified groups and the others wrote nothing: guard the group
        raise Unsupported('merge quantified')
    # ---------- loop rule (in loops.py)
    def loop_rule(s,fr,hd,lc):
        import loops
        return loops.loop_rule(s,fr,hd,lc)

class Frame:
    __slots__=('f','mod','depth')
    def __init__(s,f): s.f=f; s.mod=f.mod; s.depth=0
BINOPS={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CASTS={'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast'}
def sgn(c,w):
    c&=(1<<w)-1
    return c-(1<<w) if c>>(w-1) else c
def app_single(p):
    if isinstance(p,Poly) and len(p.d)==1:
        (m,c),=p.d.items()
        if len(m)==1 and c==1: return ATOMS[m[0]]
    return None
class Lazy: pass
def adepends_p(p,v): return any(v in support(x) for x in p.atoms())
def merge_vals(vs,conds):
    if any(v is not vs[0] for v in vs): vs=[v.get() if type(v) is Lazy else v for v in vs]
    r=vs[-1]
    for v,c in zip(vs[-2::-1],conds[-2::-1]):
        if v is r: continue
        r=_ite_val(c,v,r)
    return r
def _ite_val(c,a,b):
    if a is b: return a
    if isinstance(a,Poly) and isinstance(b,Poly): return ite(c,a,b)
    if isinstance(a,(bool,tuple)) and isinstance(b,(bool,tuple)): return c_or(c_and(c,a),c_and(c_not(c),b))
    if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj and len(a.idx)==len(b.idx):
        return Ptr(a.obj,tuple(ite(c,x,y,'int') for x,y in zip(a.idx,b.idx)),ite(c,a.off,b.off,'int'))
    if a is UNDEF or b is UNDEF: return UNDEF
    if isinstance(a,Agg) and isinstance(b,Agg): return Agg([_ite_val(c,x,y) for x,y in zip(a,b)])
    if isinstance(a,Vec) and isinstance(b,Vec): return Vec([_ite_val(c,x,y) for x,y in zip(a,b)])
    raise Unsupported('merge of %r and %r'%(a,b))
def substv(v,mp):
    if type(v) is Lazy: return Lazy(lambda: substv(v.get(),mp))
    if isinstance(v,Bits): return Bits(substv(v.v,mp))
    if isinstance(v,Poly): return substm(v,mp)
    if isinstance(v,tuple): return simp_cond(csubst(v,mp))
    if isinstance(v,Ptr): return Ptr(v.obj,tuple(substm(i,mp) for i in v.idx),substm(v.off,mp))
    if isinstance(v,(Agg,Vec)): return type(v)([substv(x,mp) for x in v])
    return v
def solve_linear(w,j,free,rng,ex,st):
    """solve w(free vars)=j; returns {var: poly} or None.  Handles c*v+rest (c=+-1) and mixed radix a*M+b."""
    if len(free)==1:
        v=free[0]
        lin={}; rest=ZERO; co=ZERO
        for m,c in w.d.items():
            k=m.count(v)
            if k==0:
                if any(v in support(x) for x in m): return None
                rest=rest+Poly({m:c})
            elif k==1:
                mm=tuple(x for x in m if x!=v)
                if any(v in support(x) for x in mm): return None
                co=co+Poly({mm:c})
            else: return None
        d=j-rest
        if co.is_const() and co.const() in(1,-1): return {v:d.scale(co.const())}
        q=idiv(d,co)
        if same(q*co,d): return {v:q}
        return None
    if len(free)==2:
        for a,b in (free,free[::-1]):
            # w = M*a + b + rest with 0<=b<M
            co=ZERO; cb=ZERO; rest=ZERO; ok=True
            for m,c in w.d.items():
                ka,kb=m.count(a),m.count(b)
                if ka+kb>1: ok=False; break
                if ka: co=co+Poly({tuple(x for x in m if x!=a):c})
                elif kb: cb=cb+Poly({tuple(x for x in m if x!=b):c})
                else:
                    if any(a in support(x) or b in support(x) for x in m): ok=False; break
                    rest=rest+Poly({m:c})
            if not ok or not same(cb,ONE): continue
            lo,hi=rng[b]
            if not same(hi-lo,co) and not ex.prove(st,c_le(hi-lo-co)): continue
            d=j-rest-lo
            # syntactic match first
            qa=ZERO; rb=ZERO
            for m,c in d.d.items():
                t=Poly({m:c}); q=idiv(t,co)
                if same(q*co,t): qa=qa+q
                else: rb=rb+t
            if ex.prove(st,c_and(c_le(-rb),c_lt(rb-(hi-lo)))): return {a:qa,b:rb+lo}
            q=idiv(d,co); return {a:q,b:d-q*co+lo}
    return None

# ---------- z3 translation
class Z3Tr:
    def __init__(s,lin=False): s.c={}; s.cc={}; s.lin=lin   # lin: products of dimensions become unknowns of their own
    def atom(s,x):
        import z3
        v=s.c.get(x)
        if v is None:
            a=ATOMS[x]
            v=(z3.Int if a.sort=='int' else z3.Real)('a%d'%x); s.c[x]=v
        return v
    def poly(s,p):
        import z3
        if not p.d: return z3.IntVal(0)
        if any(ATOMS[x].sort=='cplx' for x in p.atoms()) or any(type(c) is complex for c in p.d.values()):
            k=p.key(); nk=(-p).key()
            if ('o',nk) in s.c: return -s.c[('o',nk)]
            v=s.c.get(('o',k))
            if v is None: v=z3.Real('o%d'%len(s.c)); s.c[('o',k)]=v
            return v
        isint=all(type(c) is int for c in p.d.values()) and all(ATOMS[x].sort=='int' for x in p.atoms())
        ts=[]
        for m,c in p.d.items():
            if isint: t=z3.IntVal(c) if (c!=1 or not m) else None
            else:
                from fractions import Fraction
                f=Fraction(c); t=z3.RealVal('%d/%d'%(f.numerator,f.denominator)) if (c!=1 or not m) else None
            if s.lin and len(m)>1:
                v=s.c.get(m)
                if v is None: v=s.c[m]=z3.Int('m'+'_'.join(map(str,m))); s.c[m]=v
                t=v if t is None else t*v
            else:
              for x in m:
                v=s.atom(x)
                t=v if t is None else t*v
            ts.append(t)
        return z3.Sum(ts) if len(ts)>1 else ts[0]
    def cond(s,c):
        import z3
        if c is True or c is False: return z3.BoolVal(c)
        k=c[0]
        if k=='eq': return s.poly(c[1])==0
        if k=='lt': return s.poly(c[1])<0
        if k=='le': return s.poly(c[1])<=0
        if k=='not': return z3.Not(s.cond(c[1]))
        if k=='and': return z3.And(s.cond(c[1]),s.cond(c[2]))
        if k=='or': return z3.Or(s.cond(c[1]),s.cond(c[2]))
        if k=='b':
            kk=ckey(c); v=s.c.get(kk)
            if v is None: v=z3.Bool('b%d'%len(s.c)); s.c[kk]=v
            return v
        raise Unsupported('cond %r'%(c,))
def _catoms(c):
    r=set()
    if isinstance(c,tuple):
        for x in c:
            if type(x) is Poly: r|=x.atoms()
            elif isinstance(x,tuple): r|=_catoms(x)
    return r
def _smtable(c):
    return True

# ---------- C library
LIB={}
def lib(*names):
    def d(f):
        for n in names: LIB[n]=f
        return f
    return d
def _fn1(f):
    return lambda ex,st,a,I,fr: [(st,f(ex.asfp(a[0])))]
LIB['sqrt']=_fn1(T.sqrt); LIB['cos']=_fn1(T.cos); LIB['sin']=_fn1(T.sin)
def _uf(n):
    def g(ex,st,a,I,fr):
        args=[ex.asfp(x) for x in a]
        return [(st,app(n,args))]
    return g
def _expv(p):
    if not p.d: return ONE
    return app('exp',(p,))
LIB['exp']=lambda ex,st,a,I,fr: [(st,_expv(ex.asfp(a[0])))]
for _n in ('log','acos','asin','atan','atan2','tan','log10','floor','ceil','sinh','cosh','tanh','round','fmod'): LIB[_n]=_uf(_n)
def _pow(ex,st,a,I,fr):
    x,y=ex.asfp(a[0]),ex.asfp(a[1])
    if y.is_const() and y.const()==int(y.const()) and 0<=y.const()<=64: return [(st,x**int(y.const()))]
    if y.is_const() and y.const()==0.5: return [(st,T.sqrt(x))]
    if x.is_const() and y.is_const(): return [(st,num(x.const()**y.const()))]
    return [(st,app('pow',(x,y)))]
LIB['pow']=_pow
LIB['fabs']=lambda ex,st,a,I,fr:[(st,ex.fabs(ex.asfp(a[0]),st))]
def cplx(re_,im_): return re_+im_.scale(1j)
def _agg(z): return Agg([re(z),im(z)])
def _cargs(ex,a):
    if len(a)==1 and isinstance(a[0],(Agg,Vec)): return cplx(ex.asfp(a[0][0]),ex.asfp(a[0][1]))
    return cplx(ex.asfp(a[0]),ex.asfp(a[1]))
@lib('cabs')
def _cabs(ex,st,a,I,fr):
    z=_cargs(ex,a); return [(st,T.sqrt(z*z.conj()))]
@lib('__muldc3')
def _muldc(ex,st,a,I,fr):
    z=cplx(ex.asfp(a[0]),ex.asfp(a[1]))*cplx(ex.asfp(a[2]),ex.asfp(a[3])); return [(st,_agg(z))]
@lib('__divdc3')
def _divdc(ex,st,a,I,fr):
    w=cplx(ex.asfp(a[2]),ex.asfp(a[3]))
    n=cplx(ex.asfp(a[0]),ex.asfp(a[1]))
    if not (w-w.conj()).d: return [(st,Agg([T.div(re(n),w),T.div(im(n),w)]))]
    z=n*w.conj(); m=w*w.conj()
    r=recip(m)
    return [(st,Agg([re(z)*r,im(z)*r]))]
@lib('conj')
def _conj(ex,st,a,I,fr): return [(st,Agg([a[0],-a[1]]))]
@lib('creal')
def _creal(ex,st,a,I,fr): return [(st,a[0])]
@lib('cimag')
def _cimag(ex,st,a,I,fr): return [(st,a[1])]
@lib('carg')
def _carg(ex,st,a,I,fr): return [(st,app('atan2',(ex.asfp(a[1]),ex.asfp(a[0]))))]
@lib('cexp')
def _cexp(ex,st,a,I,fr):
    x,y=ex.asfp(a[0]),ex.asfp(a[1]); e=_expv(x)
    return [(st,Agg([e*T.cos(y),e*T.sin(y)]))]
@lib('sincos')
def _sincos(ex,st,a,I,fr):
    x=ex.asfp(a[0]); ex.write(st,a[1],T.sin(x),('double',),fr.mod); ex.write(st,a[2],T.cos(x),('double',),fr.mod); return [(st,None)]
@lib('csqrt')
def _csqrt(ex,st,a,I,fr):
    x,y=ex.asfp(a[0]),ex.asfp(a[1])
    z=app('csqrt',(x,y),'cplx'); return [(st,_agg(z))]
@lib('clog')
def _clog(ex,st,a,I,fr):
    x,y=ex.asfp(a[0]),ex.asfp(a[1]); z=app('clog',(x,y),'cplx'); return [(st,_agg(z))]
@lib('cpow')
def _cpow(ex,st,a,I,fr):
    z=app('cpow',tuple(ex.asfp(x) for x in a),'cplx'); return [(st,_agg(z))]
@lib('free')
def _free(ex,st,a,I,fr):
    return [(st,None)]
@lib('malloc')
def _malloc(ex,st,a,I,fr):
    o=Obj('malloc@%s'%(I.line,),None,ex.asint(a[0])); return [(st,Ptr(o))]
@lib('calloc')
def _calloc(ex,st,a,I,fr):
    o=Obj('calloc@%s'%(I.line,),lambda ex,st,idx,inner,t,size: NULL if t[0]=='ptr' else ZERO,ex.asint(a[0])*ex.asint(a[1])); return [(st,Ptr(o))]
@lib('posix_memalign')
def _pma(ex,st,a,I,fr):
    o=Obj('memalign@%s'%(I.line,),None,ex.asint(a[2])); 
    ex.write(st,a[0],Ptr(o),('ptr',),fr.mod); return [(st,ZERO)]
@lib('printf','fprintf','puts','fputs','fputc','fflush','putchar','perror')
def _printf(ex,st,a,I,fr): return [(st,ZERO)]
@lib('exit','abort','__assert_fail')
def _exit(ex,st,a,I,fr): return []
@lib('omp_get_thread_num')
def _otn(ex,st,a,I,fr): return [(st,ZERO)]
@lib('omp_get_max_threads','omp_get_num_threads')
def _onm(ex,st,a,I,fr): return [(st,ONE)]
