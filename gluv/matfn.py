"""Contracts for matrix-level functions: proof harness (all inputs) and native replay of failures."""
from spec import *
import numpy as np, ctypes, multiprocessing as mp

class Arg:
    """kind: 'c*' complex array, 'r*' real array, 'c','r','i','z' scalars.
    val: list of Polys / Poly / int ; post: list of expected Polys (None entry = unconstrained) or None (must be unchanged)"""
    def __init__(s,kind,name,val=None,n=None,post=None,gen=None,nullp=False):
        s.kind=kind; s.name=name; s.val=val; s.n=n if n is not None else (len(val) if isinstance(val,list) else None)
        s.post=post; s.gen=gen
def cin(name,val,gen=None): return Arg('c*',name,val,gen=gen)
def cout(name,post,n=None): return Arg('c*',name,[None]*(n or len(post)),post=post)
def cinout(name,val,post,gen=None): return Arg('c*',name,val,post=post,gen=gen)
def rin(name,val,gen=None): return Arg('r*',name,val,gen=gen)
def rout(name,post): return Arg('r*',name,[None]*len(post),post=post)
def cs(name,z=None): return Arg('c',name,z if z is not None else sym(name,'cplx'))
def rs(name,x=None): return Arg('r',name,x if x is not None else sym(name))
def iv(name,k): return Arg('i',name,P(k))
def zv(name,k): return Arg('z',name,P(k))

# numeric generators
def g_su(n):
    def g(rng):
        r=np.random.default_rng(rng.getrandbits(32))
        z=r.normal(size=(n,n))+1j*r.normal(size=(n,n)); q,_=np.linalg.qr(z); q=q/np.linalg.det(q)**(1.0/n)
        return list(q.flatten())
    return g

def prove(ck,ex,fname,args,ret=None,pre=(),tag='',canary=True,replay=True,cmp=None,loopmerge=True,maxpaths=2000,src=None,accept=None,post=None,numeric_only_paths=None,replay_fn=None,replay_valid=None):
    """ret: None (ignored) / Poly (complex or real) ; pre: list of conditions; accept(st,ret)->bool may reject paths (assumed infeasible by precondition)"""
    name='%s[%s]%s'%(fname,ex.cfg,tag)
    def rep():
        if replay_fn: return replay_fn()
        return native_replay(ck,ex.cfg,fname,args,ret,valid=replay_valid)
    def go():
        f=ex.fn(fname)
        if f is None: raise Unsupported('function %s not found in the current sources'%fname)
        st=State(); st.pc=tuple(c for c in pre)
        vals=[]; objs=[]
        for a in args:
            if a.kind=='c*': o=cobj(a.name,a.val); objs.append(o); vals.append(Ptr(o))
            elif a.kind=='r*': o=robj(a.name,a.val); objs.append(o); vals.append(Ptr(o))
            else:
                objs.append(None)
                if a.kind=='c': vals.append(T.re(P(a.val))); vals.append(T.im(P(a.val)))
                else: vals.append(P(a.val))
        outs=ex.call(f,vals,st)
        if not outs: raise Unsupported('no path returns')
        n=0; allok=True
        for st2,rv in outs:
            if accept is not None and not accept(st2,rv): continue
            n+=1
            pn=name+('' if len(outs)==1 else '/path%d'%n)
            ok=True; det=''
            for a,o in zip(args,objs):
                if o is None: continue
                want=a.post
                got=[]
                if a.post is None:
                    # frame: unchanged
                    if o.id not in st2.mem or not st2.mem[o.id].groups: continue
                    want=a.val
                wl=want(st2,rv) if callable(want) else want
                for k,w in enumerate(wl):
                    if w is None: continue
                    g=getc(ex,st2,o,k) if a.kind=='c*' else getr(ex,st2,o,k)
                    e=(cmp or eq_on_path)(ex,st2,g,w)
                    if not e:
                        ok=False; det+=' %s[%d]: got %s want %s;'%(a.name,k,show(g)[:300],show(w)[:300]); break
            if ret is not None:
                g=rv
                if isinstance(g,(Agg,Vec)): g=ex.asfp(g[0])+ex.asfp(g[1]).scale(1j)
                w=ret(st2,rv) if callable(ret) else ret
                if not (cmp or eq_on_path)(ex,st2,g,w): ok=False; det+=' return: got %s want %s'%(show(g)[:300],show(w)[:300])
            if post is not None:
                r=post(ex,st2,rv,objs)
                if r is not True: ok=False; det+=' post: %s'%(r,)
            ck.ob(pn,ok,fname,det+(' on path '+cshow(st2.pc[len(pre):])[:300] if not ok else ''),replay=rep if replay else None,backend='polynomial-identity')
            allok=allok and ok
            # vacuity guard: a perturbed postcondition must be rejected
            if canary and ok and n==1:
                done=False
                for a,o in zip(args,objs):
                    if o is None or a.post is None: continue
                    wl=a.post(st2,rv) if callable(a.post) else a.post
                    for k,w in enumerate(wl):
                        if w is None: continue
                        g=getc(ex,st2,o,k) if a.kind=='c*' else getr(ex,st2,o,k)
                        ck.canary(name,not (cmp or eq_on_path)(ex,st2,g,w+sym('canary'))); done=True; break
                    if done: break
                if not done and ret is not None:
                    w=ret(st2,rv) if callable(ret) else ret
                    g=rv
                    if isinstance(g,(Agg,Vec)): g=ex.asfp(g[0])+ex.asfp(g[1]).scale(1j)
                    ck.canary(name,not (cmp or eq_on_path)(ex,st2,g,w+sym('canary')))
        if n==0: raise Unsupported('precondition excludes every path')
        return allok
    r=ck.guard(name,go,fname,replay=rep if replay else None)
    ck.use(ex)
    return r

CT={'c*':'double _Complex *','r*':'double *','c':'double _Complex','r':'double','i':'int','z':'unsigned long'}
def wrapper_src(fname,kinds,retk):
    rt={'v':'void','c':'double _Complex','r':'double','i':'int'}[retk]
    pro='extern %s %s(%s);'%(rt,fname,','.join(CT[k] for k in kinds) or 'void')
    call='%s(%s)'%(fname,','.join('(%s)p[%d]'%(CT[k],i) if k.endswith('*') else '*(%s*)p[%d]'%(CT[k],i) for i,k in enumerate(kinds)))
    body=call+';' if retk=='v' else {'c':'*(double _Complex*)r=%s;','r':'*(double*)r=%s;','i':'*(int*)r=%s;'}[retk]%call
    return '%s\nvoid gluv_%s(void *r, void **p){ %s }\n'%(pro,fname,body)
def call_native(cfg,fname,kinds,retk,argvals,timeout=60,init=None):
    """run in a forked child; returns (ret, [array contents])"""
    w=wrapper_src(fname,kinds,retk)
    so=native.build_lib(cfg,wrapper=w)
    q=mp.get_context('fork').SimpleQueue()
    def child(q):
        L=ctypes.CDLL(so)
        if init: init(L)
        bufs=[]
        for k,v in zip(kinds,argvals):
            if k=='c*': b=np.array(v,dtype=np.complex128)
            elif k=='r*': b=np.array(v,dtype=np.float64)
            elif k=='c': b=np.array([v],dtype=np.complex128)
            elif k=='r': b=np.array([v],dtype=np.float64)
            elif k=='i': b=np.array([v],dtype=np.int32)
            elif k=='z': b=np.array([v],dtype=np.uint64)
            # 16-byte alignment
            raw=np.zeros(b.nbytes+64,dtype=np.uint8); off=(-raw.ctypes.data)%32
            al=raw[off:off+b.nbytes].view(b.dtype); al[:]=b
            bufs.append((raw,al))
        ptrs=(ctypes.c_void_p*max(1,len(bufs)))(*[b[1].ctypes.data for b in bufs])
        r=np.zeros(2)
        getattr(L,'gluv_'+fname)(ctypes.c_void_p(r.ctypes.data),ptrs)
        if retk=='c': rv=complex(r[0],r[1])
        elif retk=='r': rv=float(r[0])
        elif retk=='i': rv=int(r[:1].view(np.int32)[0])
        else: rv=None
        q.put((rv,[list(b[1]) for b in bufs]))
    p=mp.get_context('fork').Process(target=child,args=(q,)); p.start(); 
    import select
    p.join(timeout)
    if p.is_alive(): p.kill(); return None
    if p.exitcode!=0: return ('crash',p.exitcode)
    return q.get()
def native_replay(ck,cfg,fname,args,ret,tries=12,tol=1e-7,valid=None,init=None):
    if callable(ret): return None
    for _ in range(tries):
        env={}; nums=[]
        rng=ck.rng
        for a in args:
            if a.val is not None and isinstance(a.val,list):
                if a.gen:
                    v=a.gen(rng)
                    for pz,x in zip(a.val,v): _assign(pz,x,env)
                else:
                    v=[]
                    for pz in a.val:
                        if pz is None: v.append(complex(rng.uniform(-1,1),rng.uniform(-1,1)) if a.kind=='c*' else rng.uniform(-1,1))
                        else: v.append(evaluate(pz,env,lambda at: _rnd(at,env,rng)))
                nums.append(v)
            else:
                x=evaluate(P(a.val),env,lambda at: _rnd(at,env,rng)); nums.append(x)
        if valid and not valid(nums,env): continue
        nums=[[complex(x).real for x in v] if a.kind=='r*' else ([complex(x) for x in v] if a.kind=='c*' else (complex(v) if a.kind=='c' else complex(v).real if a.kind=='r' else int(complex(v).real))) for a,v in zip(args,nums)]
        retk='v'
        if ret is not None: retk='c' if not (isinstance(ret,Poly) and ret.is_const() and type(ret.const()) is int and False) else 'i'
        if ret is not None and getattr(ck,'_retk',{}).get(fname): retk=ck._retk[fname]
        out=call_native(cfg,fname,[a.kind for a in args],retk,nums,init=init)
        if out is None: return dict(kind='hang',function=fname,config=cfg,inputs=str(nums))
        if out[0]=='crash': return dict(kind='crash',function=fname,config=cfg,exit=out[1],inputs=str(nums))
        rv,bufs=out
        memo={}
        ev=lambda w: complex(evaluate(w,env,lambda at:_rnd(at,env,rng),memo))
        for a,b in zip(args,bufs):
            if not isinstance(a.val,list): continue
            want=a.post if a.post is not None else a.val
            if callable(want): continue
            for k,w in enumerate(want):
                if w is None: continue
                x=ev(w)
                if not abs(x-b[k])<=tol*max(1,abs(x)):
                    return dict(function=fname,config=cfg,inputs={c.name:str(v) for c,v in zip(args,nums)},output='%s[%d]'%(a.name,k),got=str(b[k]),expected=str(x))
        if ret is not None:
            x=ev(ret)
            if not abs(x-rv)<=tol*max(1,abs(x)):
                return dict(function=fname,config=cfg,inputs={c.name:str(v) for c,v in zip(args,nums)},output='return',got=str(rv),expected=str(x))
    return None
def _assign(pz,x,env):
    if pz is None: return
    if len(pz.d)==1:
        (m,c),=pz.d.items()
        if len(m)==1 and c==1:
            env[m[0]]=x
            if ATOMS[m[0]].conj!=m[0]: env[ATOMS[m[0]].conj]=complex(x).conjugate()
def _rnd(at,env,rng):
    if at.sort=='cplx': v=complex(rng.uniform(-1,1),rng.uniform(-1,1))
    elif at.sort=='int': v=rng.randint(0,3)
    else: v=rng.uniform(-1,1)
    env[at.id]=v
    if at.conj!=at.id: env[at.conj]=complex(v).conjugate()
    return v
