"""Products of SU(N) matrices as words: associativity, inverses and daggers are normalised, entries stay opaque."""
from smear import *
import re as _re
_sk={}
def skel(z):
    """ordering key of an argument that does not depend on the name of the site variable"""
    z=P(z); k=z.key(); r=_sk.get(k)
    if r is None:
        s=show(z); m=_re.match(r'site\(.*,(\([-\d ]+\))\)$',s)
        r=_sk[k]=m.group(1) if m else s if z.is_const() else '(0)'
    return r
class Words:
    def __init__(s,n): s.n=n; s.reg={}
    def base(s,m):
        a0=app_single(m[0])
        if not is_su(m) or tuple(x.key() for x in m) in SUREG: return None
        return a0.name[:-2],tuple(a0.args)
    def word(s,m):
        k=tuple(x.key() for x in m); w=s.reg.get(k)
        if w is not None: return w
        b=s.base(m); f=0
        if b is None: b=s.base(dag(m)); f=1
        if b is None:
            if all(same(x,ONE if i%(s.n+1)==0 else ZERO) for i,x in enumerate(m)): return ()
            return None
        return ((b[0],b[1],f),)
    def mat(s,w):
        n=s.n; r=[]
        for x in w:
            if r and r[-1][0]==x[0] and r[-1][2]!=x[2] and all(same(p,q) for p,q in zip(r[-1][1],x[1])): r.pop()
            else: r.append(x)
        w=tuple(r)
        if not w: return [ONE if i%(n+1)==0 else ZERO for i in range(n*n)]
        inv=lambda w: tuple((a,b,1-f) for a,b,f in reversed(w))
        key=lambda w: tuple((a,f)+tuple(skel(z) for z in b) for a,b,f in w)
        flip=repr(key(inv(w)))<repr(key(w)) if len(w)>1 else w[0][2]==1
        c=inv(w) if flip else w
        if len(c)==1: m=plain_su(c[0][0],n)(*c[0][1])
        else: m=plain_su('W:'+'.'.join('%s%s%d'%(a,'+-'[f],len(b)) for a,b,f in c),n)(*[z for _,b,_ in c for z in b])
        d=dag(m)
        s.reg[tuple(x.key() for x in m)]=c; s.reg[tuple(x.key() for x in d)]=inv(c)
        return d if flip else m
    def prod(s,*ms):
        w=()
        for m in ms:
            x=s.word(m)
            if x is None: return mms(*ms)
            w+=x
        return s.mat(w)
    def contracts(s,ex):
        """matrix products by contract; the routines for SU(N) matrices require SU(N) arguments"""
        n=s.n
        def mk(fx,fy,su):
            def g(ex_,st,a,I):
                x,y=getm(ex_,st,a[1],n*n),getm(ex_,st,a[2],n*n)
                b=s.word(x) is not None and s.word(y) is not None
                if su and not b: raise Unsupported('product routine for SU(N) matrices called with a matrix not known to be SU(N)')
                x=dag(x) if fx else x; y=dag(y) if fy else y
                setm(ex_,st,a[0],s.prod(x,y) if b else mm(x,y)); return [(st,None)]
            return g
        for nm,fx,fy in (('multab',0,0),('multabdag',1,0),('multab_dag',0,1),('multab_dagdag',1,1)):
            ex.contracts[nm]=mk(fx,fy,False); ex.contracts[nm+'_suNC']=mk(fx,fy,True)
    def path(s,U,i,steps,nbr):
        """ordered product along a lattice path; steps: (direction, +-1)"""
        ms=[]
        for mu,sg in steps:
            if sg>0: ms.append(U(i,mu)); i=nbr(mu,i)
            else: i=nbr(mu,i,-1); ms.append(dag(U(i,mu)))
        return s.prod(*ms)
    def word_known(s,m): return s.word(m) is not None
