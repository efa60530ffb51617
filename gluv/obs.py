"""Contracts for whole-lattice functions: run on a symbolic lattice, compare results with a specification term."""
from lattice import *
import nlat, numpy as np
def lat_world(cfg,srcs):
    ex=Exec(cfg); ex.load_all([s for s in build.sources() if any(s==p or (p.endswith('/') and s.startswith(p)) for p in srcs)])
    return ex,World(ex)
X=None
def vabs(p): return app('fabs',(T._even(p)[0],))
def cabs(z): return T.sqrt(z*z.conj())
def sumV(w,f):
    i=sym('i','int'); return SUM(i,ZERO,w.V,f(i))
def rep_session(ck,cfg,f,dims=None,nth=1,what='',extra=(),wrap='',tries=None):
    """build a replay closure: f(NL) returns None or a dict describing the failing input; runs on several lattices"""
    def rep():
        nd=build.NDOF[cfg]
        for D in (dims or ([4,3,2,5],[2,2,4,6],[3,5,2,2])):
            r=nlat.session(cfg,f,dims=D[:nd],nth=nth,extra=extra,wrap=wrap)
            if r is None: continue
            if isinstance(r,tuple): return dict(kind=str(r),function=what,config=cfg,dims=str(D[:nd]))
            if r:
                r.setdefault('config',cfg); r.setdefault('dims',str(D[:nd])); r.setdefault('seed',ck.seed)
                return r
        return None
    # one native run per closure, shared by all obligations that use it
    memo=[]
    def once():
        if not memo: memo.append(rep())
        return memo[0]
    return once
def close(a,b,tol=1e-9): return abs(a-b)<=tol*max(1.0,abs(b))
def lat_obs(ck,ex,w,fname,args,ret=None,outs=(),pre=(),replay=None,tag='',frame=(),eq=None,state=None):
    """args: list of values (Ptr/Poly) ; outs: [(label, Ptr, kind 'c'|'r', [wanted])] ; frame: field pointers that must not be written"""
    nm='%s[%s]%s'%(fname,ex.cfg,tag)
    eq=eq or (lambda st,a,b: same(a,b) or equal(a,b) is True)
    def go():
        f=ex.fn(fname)
        if f is None: raise Unsupported('function %s not found'%fname)
        st=state.clone() if state is not None else State(); st.pc=st.pc+tuple(pre)
        res=ex.call(f,args,st)
        if not res: raise Unsupported('no path')
        for i,(st2,rv) in enumerate(res):
            pn=nm+('' if len(res)==1 else '/path%d'%(i+1))
            if ret is not None:
                wv=ret(st2) if callable(ret) else ret
                if isinstance(rv,(Agg,Vec)): rv=cplx(ex.asfp(rv[0]),ex.asfp(rv[1]))
                ok=eq(st2,rv,wv)
                ck.ob(pn+'/result',ok,fname,'' if ok else 'returned %s expected %s'%(show(rv)[:300],show(wv)[:300]),replay=replay,backend='polynomial-identity')
                if i==0: ck.canary(nm,not eq(st2,rv,wv+sym('canary')))
            for lab,p,kind,want in outs:
                want=want(st2) if callable(want) else want
                for k,wv in enumerate(want):
                    if wv is None: continue
                    g=getc(ex,st2,p,k) if kind=='c' else getr(ex,st2,p,k)
                    ok=eq(st2,g,wv)
                    ck.ob(pn+'/%s%s'%(lab,'' if len(want)==1 else k),ok,fname,'' if ok else 'got %s expected %s'%(show(g)[:300],show(wv)[:300]),replay=replay,backend='polynomial-identity')
                    if i==0 and k==0: ck.canary(nm,not eq(st2,g,wv+sym('canary')))
            for p in frame:
                for o in (p.obj,)+tuple(x for x in (getattr(p.obj,'tag',None) or {}).values() if isinstance(x,Obj)):
                    wr=o.id in st2.mem and st2.mem[o.id].groups
                    if wr: ck.ob(pn+'/frame',False,fname,'modifies its input field',replay=replay)
    ck.guard(nm,go,fname,replay=replay); ck.use(ex)
