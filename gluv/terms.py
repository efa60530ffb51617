"""Term language: multivariate polynomials over hash-consed atoms.

Poly = sum of coef * monomial, monomial = sorted tuple of atom ids.  Coefficients are Python numbers
(exact ints for integer terms; int/float/complex for real terms, compared with relative tolerance TOL,
i.e. the arithmetic of the C doubles is treated as real arithmetic and literals are compared to TOL).
Complex data is represented by pairs of conjugate atoms z, zbar: re=(z+zbar)/2, im=(z-zbar)/2i.
Interpreted atoms: sqrt (s*s=P), reciprocal (d*P=1), cos/sin (c*c=1-s*s), unit-modulus atoms (u*ubar=1),
integer div/mod, ite, SUM/FOLD over a bound variable.  Everything else is uninterpreted (congruence only)."""
import math, cmath
TOL=1e-11

class Atom:
    __slots__=('id','kind','name','args','sort','conj','rule')
    def __repr__(s): return 'Atom(%s)'%show_atom(s.id)
ATOMS=[]
_tab={}
SPECIAL=set()      # ids of atoms with a rewrite rule
def _new(kind,name,args,sort):
    a=Atom(); a.id=len(ATOMS); a.kind=kind; a.name=name; a.args=args; a.sort=sort; a.conj=a.id; a.rule=None
    ATOMS.append(a); return a

def rc(c):
    """rounded coefficient for keys"""
    if type(c) is int: return c
    if type(c) is complex:
        r,i=c.real,c.imag
        s=abs(r)+abs(i)
        if abs(i)<=1e-13*s: return rc(r)
        return (rc(r if abs(r)>1e-13*s else 0.0),rc(i))
    if c==int(c) and abs(c)<1e15: return int(c)
    return float('%.11e'%c)

class Poly:
    __slots__=('d','_k','sp')
    def __init__(s,d,sp=None):
        s.d=d; s._k=None
        if sp is None:
            sp=False
            if SPECIAL:
                for m in d:
                    if not SPECIAL.isdisjoint(m): sp=True; break
        s.sp=sp
    # --- construction
    def key(s):
        if s._k is None:
            if len(s.d)==1:
                (m,c),=s.d.items(); s._k=((m,rc(c)),)
            else:
                mx=max((abs(c) for c in s.d.values()),default=0)
                s._k=tuple(sorted(((m,rc(c)) for m,c in s.d.items() if type(c) is int or abs(c)>1e-13*mx),key=_kk))
        return s._k
    def is_const(s):
        return not s.d or (len(s.d)==1 and () in s.d)
    def const(s): return s.d.get((),0)
    def is_zero(s): return not s.d
    def atoms(s):
        r=set()
        for m in s.d: r.update(m)
        return r
    def __add__(a,b):
        if type(b) is not Poly: b=num(b)
        if not a.d: return b
        if not b.d: return a
        if len(a.d)<len(b.d): a,b=b,a
        d=dict(a.d)
        for m,c in b.d.items():
            o=d.get(m)
            if o is None: d[m]=c
            else:
                n=o+c
                if n==0 or (type(n) is not int and abs(n)<=4e-16*abs(c)*8): del d[m]
                else: d[m]=n
        return Poly(d,a.sp or b.sp)
    __radd__=__add__
    def __neg__(a): return Poly({m:-c for m,c in a.d.items()},a.sp)
    def __sub__(a,b):
        if type(b) is not Poly: b=num(b)
        return a+(-b)
    def __rsub__(a,b): return num(b)+(-a)
    def scale(a,c):
        if c==0: return ZERO
        if c==1: return a
        return Poly({m:v*c for m,v in a.d.items()},a.sp)
    def __mul__(a,b):
        if type(b) is not Poly:
            return a.scale(b)
        if not a.d or not b.d: return ZERO
        if len(b.d)==1 and () in b.d: return a.scale(b.d[()])
        if len(a.d)==1 and () in a.d: return b.scale(a.d[()])
        sp=a.sp and b.sp
        sp=a.sp or b.sp
        d={}
        big=None
        for m1,c1 in a.d.items():
            for m2,c2 in b.d.items():
                m=tuple(sorted(m1+m2)) if m1 and m2 else (m1 or m2)
                c=c1*c2
                o=d.get(m)
                d[m]=c if o is None else o+c
        for m in [m for m,c in d.items() if c==0]: del d[m]
        p=Poly(d,sp)
        if sp: p=_reduce(p)
        return p._clean()
    __rmul__=__mul__
    def _clean(s):
        mx=0
        small=False
        for c in s.d.values():
            if type(c) is int: continue
            a=abs(c)
            if a>mx: mx=a
            if a<1e-13: small=True
        if not small: return s
        return Poly({m:c for m,c in s.d.items() if type(c) is int or abs(c)>1e-14*mx},s.sp)
    def __pow__(a,n):
        assert isinstance(n,int) and n>=0
        r=ONE
        b=a
        while n:
            if n&1: r=r*b
            n>>=1
            if n: b=b*b
        return r
    def conj(a):
        d={}
        for m,c in a.d.items():
            m2=tuple(sorted([ATOMS[x].conj for x in m])) if m else m
            c2=c.conjugate() if type(c) is complex else c
            d[m2]=d.get(m2,0)+c2
        return Poly(d,a.sp)
    def __eq__(a,b): raise TypeError('use same()/equal()')
    __hash__=None
    def __repr__(s): return show(s)

def _kk(t):
    c=t[1]
    return (t[0],(c,0.0) if not isinstance(c,tuple) else c)
ZERO=Poly({},False)
ONE=Poly({():1},False)
HALF=Poly({():0.5},False)
I_=Poly({():1j},False)
def num(c):
    if c==0: return ZERO
    return Poly({():c},False)
def P(x): return x if type(x) is Poly else num(x)

def atom_poly(a): return Poly({(a.id,):1},a.id in SPECIAL)
def sym(name,sort='real'):
    k=('sym',name,sort)
    a=_tab.get(k)
    if a is None:
        a=_new('sym',name,(),sort); _tab[k]=a
        if sort=='cplx':
            b=_new('symc',name,(),sort); a.conj=b.id; b.conj=a.id
    return atom_poly(a)
_fresh=[0]
def fresh(name,sort='real'):
    _fresh[0]+=1
    return sym('%s~%d'%(name,_fresh[0]),sort)
def akey(x):
    if type(x) is Poly: return x.key()
    return x
def app(name,args,sort='real',kind='app'):
    """uninterpreted application; args: Polys or hashables"""
    args=tuple(args)
    k=(kind,name,tuple(akey(x) for x in args),sort)
    a=_tab.get(k)
    if a is None:
        a=_new(kind,name,args,sort); _tab[k]=a
        if sort=='cplx':
            b=_new(kind+'c',name,args,sort); a.conj=b.id; b.conj=a.id
        h=HOOK.get(name)
        if h is not None: h(args)
    return atom_poly(a)
HOOK={}            # application name -> function(args), called when a new instance is created (installs rewrite rules)
def app_atom(p):
    (m,c),=p.d.items(); return ATOMS[m[0]]

# ---------- rewriting
PAIR={}            # (x,y) with x<=y  ->  Poly  (the product x*y is replaced)
def add_rule(x,y,p):
    k=(x,y) if x<=y else (y,x)
    PAIR[k]=p; SPECIAL.add(x); SPECIAL.add(y)
def _find(m):
    sp=[x for x in m if x in SPECIAL]
    n=len(sp)
    for i in range(n-1):
        x=sp[i]
        for j in range(i+1,n):
            r=PAIR.get((x,sp[j]))
            if r is not None: return x,sp[j],r
    return None
def _reduce(p):
    """rewrite products of special atoms until none applies"""
    done={}
    todo=dict(p.d)
    n=0
    while todo:
        nxt={}
        for m,c in todo.items():
            if c==0: continue
            h=_find(m) if len(m)>1 else None
            if h is None:
                o=done.get(m)
                done[m]=c if o is None else o+c
                continue
            x,y,q=h
            rest=list(m); rest.remove(x); rest.remove(y)
            for m2,c2 in q.d.items():
                mm=tuple(sorted(rest+list(m2))); nxt[mm]=nxt.get(mm,0)+c*c2
        todo=nxt; n+=1
        if n>300: raise RuntimeError('reduce did not terminate')
    mx=max([abs(c) for c in done.values()],default=0)
    return Poly({m:c for m,c in done.items() if c!=0 and (type(c) is int or abs(c)>1e-14*mx)},True)

def is_real(p):
    return same(p,p.conj())
def unit_atom(name,args=()):
    """complex atom of modulus one"""
    p=app(name,args,'cplx','unit')
    a=app_atom(p)
    if a.rule is None:
        a.rule=('inv',a.conj); ATOMS[a.conj].rule=('inv',a.id); add_rule(a.id,a.conj,ONE)
    return atom_poly(a)
def sqrt(p):
    p=P(p)
    if p.is_const():
        c=p.const()
        if type(c) is not complex and c>=0:
            r=math.sqrt(c); return num(int(r) if r==int(r) else r)
    # pull out positive numeric content
    lead=_content(p)
    q=p.scale(1.0/lead) if lead!=1 else p
    a=app('sqrt',(q,))
    at=app_atom(a)
    if at.rule is None:
        at.rule=('sq',q); add_rule(at.id,at.id,q)
    r=atom_poly(at)
    return r.scale(math.sqrt(lead)) if lead!=1 else r
def _content(p):
    k=p.key()
    if not k: return 1
    m=max((mm for mm,_ in k),key=lambda t:(len(t),t))
    c=abs(p.d[m]) if m in p.d else abs(complex(*k[0][1]) if isinstance(k[0][1],tuple) else k[0][1])
    return c
def recip(p):
    p=P(p)
    if p.is_const():
        c=p.const()
        if c==0: raise ZeroDivisionError
        if c in (1,-1): return num(int(c.real) if type(c) is complex else int(c))
        return num(1.0/c)
    if len(p.d)==1:
        (m,c),=p.d.items()
        r=num(1.0/c if c!=1 else 1)
        for x in m: r=r*_inv_atom(x)
        return r
    k=p.key()
    m=max((mm for mm,_ in k),key=lambda t:(len(t),t)); lead=p.d[m]
    q=p.scale(1.0/lead) if lead!=1 else p
    a=app('den',(q,),'real' if is_real(q) else 'cplx','den')
    at=app_atom(a)
    if at.sort=='cplx' and at.rule is None:
        # conj(den(q)) = den(conj q): keep partner but with conjugated argument
        ATOMS[at.conj].args=(q.conj(),)
    r=atom_poly(at)
    return r.scale(1.0/lead) if lead!=1 else r
def _inv_atom(x):
    a=ATOMS[x]
    if a.rule and a.rule[0]=='inv': return atom_poly(ATOMS[a.rule[1]])
    if a.kind=='den': return a.args[0]
    k=('invof',x)
    b=_tab.get(k)
    if b is None:
        b=_new('den',"den",(atom_poly(a),),a.sort); _tab[k]=b
        if a.conj!=a.id:
            c=_new('den',"den",(atom_poly(ATOMS[a.conj]),),a.sort); _tab[('invof',a.conj)]=c
            b.conj=c.id; c.conj=b.id
            c.rule=('inv',a.conj); add_rule(c.id,a.conj,ONE)
        b.rule=('inv',x); add_rule(b.id,x,ONE)
    return atom_poly(b)
def div(a,b):
    a=P(a); b=P(b)
    if b.is_const(): 
        c=b.const()
        if c==1: return a
        return a.scale(1.0/c) if c!=0 else a*app('inf',())
    return a*recip(b)
def cos(p):
    p=P(p)
    if p.is_const(): return num(math.cos(p.const()))
    p,sg=_even(p)
    c=app('cos',(p,)); s=app('sin',(p,)); at=app_atom(c)
    if at.rule is None:
        at.rule=('sq',ONE-s*s); add_rule(at.id,at.id,ONE-s*s)
    return atom_poly(at)
def sin(p):
    p=P(p)
    if p.is_const(): return num(math.sin(p.const()))
    p,sg=_even(p)
    cos(p)
    return app('sin',(p,)).scale(sg)
def _even(p):
    """choose sign representative so that cos(-x)=cos x, sin(-x)=-sin x"""
    k=p.key(); c=k[0][1]
    if isinstance(c,tuple): c=c[0] if c[0]!=0 else c[1]
    return (-p,-1) if c<0 else (p,1)
def re(z): return (z+z.conj()).scale(0.5)
def im(z): return (z-z.conj()).scale(-0.5j)

# ---------- equality
def near0(c,scale):
    if type(c) is int: return c==0
    return abs(c)<=TOL*scale
def same(a,b):
    """identical after normal form (numeric tolerance on coefficients)"""
    d=a-b
    if not d.d: return True
    sc=max([abs(c) for c in a.d.values()]+[abs(c) for c in b.d.values()]+[1e-300])
    return all(near0(c,sc) for c in d.d.values())
class Budget(Exception): pass
def clear_dens(p,limit=400000):
    """multiply by the denominators occurring in p until none is left"""
    for _ in range(60):
        ds=[x for x in p.atoms() if ATOMS[x].kind=='den']
        if not ds: return p
        # a den atom not occurring inside other dens' arguments first: highest id
        x=max(ds); q=ATOMS[x].args[0]
        K=max(m.count(x) for m in p.d)
        parts={}
        for m,c in p.d.items():
            k=m.count(x); rest=tuple(y for y in m if y!=x)
            parts.setdefault(k,{})[rest]=c
        pw=[ONE]
        for i in range(K): pw.append(pw[-1]*q)
        r=ZERO
        for k,dd in parts.items():
            if len(dd)*len(pw[K-k].d)>limit: raise Budget()
            r=r+Poly(dd)*pw[K-k]
        p=_reduce(r) if r.sp else r
    raise Budget()
def maxc(p): return max([abs(c) for c in p.d.values()]+[0])
def equal(a,b,assume=()):
    """a==b as real-algebraic functions.  assume: list of (atom_poly, value_poly) substitutions."""
    a=P(a); b=P(b)
    if same(a,b): return True
    if assume:
        for x,v in assume:
            a=subst(a,x,v); b=subst(b,x,v)
        if same(a,b): return True
    d=a-b
    try:
        if any(ATOMS[x].kind=='den' for x in d.atoms()):
            sc=max(maxc(a),maxc(b))
            e=clear_dens(d)
            # scale: re-run on a alone would be costly; use magnitude of cleared parts
            if not e.d: return True
            m=maxc(e)
            if m<=1e-9*max(1.0,sc): return True
            d=e
    except Budget: return None
    # unify applications with semantically equal arguments
    apps={}
    for x in d.atoms():
        at=ATOMS[x]
        if at.kind in('app','appc','sum','sumc') and any(type(g) is Poly for g in at.args): apps.setdefault((at.kind,at.name,at.sort),[]).append(x)
    if sum(len(xs)**2 for xs in apps.values())>4000: return False
    for k,xs in apps.items():
        for i in range(len(xs)):
            for j in range(i):
                A,B=ATOMS[xs[j]],ATOMS[xs[i]]
                if len(A.args)==len(B.args) and all((type(u) is Poly and type(v) is Poly and equal(u,v)) or (type(u) is not Poly and u==v) for u,v in zip(A.args,B.args)):
                    d2=rename(d,{xs[i]:xs[j]})
                    r=equal(d2,ZERO)
                    if r: return True
                    d=d2
    return False
def rename(p,mp):
    d={}
    for m,c in p.d.items():
        m2=tuple(sorted(mp.get(x,x) for x in m)); d[m2]=d.get(m2,0)+c
        if d[m2]==0: del d[m2]
    q=Poly(d)
    return _reduce(q) if q.sp else q

# ---------- substitution
def depends(p,ids,_memo=None):
    for m in p.d:
        for x in m:
            if adepends(x,ids): return True
    return False
_depcache={}
def adepends(x,ids):
    if x in ids: return True
    return not ids.isdisjoint(support(x))
_sup={}
def support(x):
    r=_sup.get(x)
    if r is None:
        r=set([x])
        for g in ATOMS[x].args:
            if type(g) is Poly:
                for y in g.atoms(): r|=support(y)
            elif isinstance(g,tuple): r|=csupport(g)
        r=frozenset(r); _sup[x]=r
    return r
def csupport(c):
    r=set()
    for t in c:
        if type(t) is Poly:
            for y in t.atoms(): r|=support(y)
        elif isinstance(t,tuple): r|=csupport(t)
    return r
def rebuild(at,args):
    """re-create an atom with new args (through the smart constructors)"""
    k=at.kind; n=at.name
    if k=='app':
        f=SMART.get(n)
        if f: return f(*args)
        return app(n,args,at.sort)
    if k=='appc': return app(n,args,at.sort).conj()
    if k=='den':
        return recip(args[0])
    if k=='denc': return recip(args[0])
    if k=='unit': return unit_atom(n,args)
    if k=='unitc': return unit_atom(n,args).conj()
    if k in SMARTKIND: return SMARTKIND[k](n,args,at)
    if k.endswith('c') and k[:-1] in SMARTKIND: return SMARTKIND[k[:-1]](n,args,at).conj()
    raise RuntimeError('rebuild '+k)
SMART={'sqrt':sqrt,'cos':cos,'sin':sin}
SMARTKIND={}
_memos={}
def _memo(mp):
    """memo table shared by all substitutions with the same mapping"""
    if len(mp)>12: return {}
    k=tuple(sorted((x,v.key()) for x,v in mp.items()))
    r=_memos.get(k)
    if r is None:
        if len(_memos)>400: _memos.clear()
        r=_memos[k]={}
    return r
def substm(p,mp,memo=None):
    """mp: {atom id: Poly}.  Substitutes inside application arguments too."""
    if not p.d: return p
    if memo is None: memo=_memo(mp)
    ids=memo.get('ids')
    if ids is None: ids=memo['ids']=frozenset(mp)
    ats=set()
    for m in p.d: ats.update(m)
    im={}; ren=True
    for x in ats:
        if adepends(x,ids):
            q=im[x]=_suba(x,mp,memo,ids)
            if ren:
                if len(q.d)!=1: ren=False
                else:
                    (mm,c),=q.d.items()
                    if len(mm)!=1 or not(type(c) is int and c==1): ren=False
    return mapped(p,im,ren)
def mapatoms(p,f):
    """replace every atom of p by its image f(atom id)"""
    ats=set()
    for m in p.d: ats.update(m)
    im={}; ren=True
    for x in ats:
        q=f(x)
        if len(q.d)==1:
            (mm,c),=q.d.items()
            if len(mm)==1 and type(c) is int and c==1:
                if mm[0]!=x: im[x]=q
                continue
        ren=False; im[x]=q
    return mapped(p,im,ren)
def mapped(p,im,ren):
    if not im: return p
    if ren:
        one={x:next(iter(q.d))[0] for x,q in im.items()}
        d={}
        for m,c in p.d.items():
            if any(x in one for x in m):
                m=tuple(sorted([one.get(x,x) for x in m]))
            o=d.get(m); d[m]=c if o is None else o+c
        for m in [m for m,c in d.items() if c==0]: del d[m]
        sp=p.sp or any(q.sp for q in im.values()); q=Poly(d,sp)
        if sp: q=_reduce(q)
        return q._clean()
    r=None
    out={}
    for m,c in p.d.items():
        if any(x in im for x in m):
            t=num(c)
            for x in m:
                q=im.get(x)
                t=t*(Poly({(x,):1},x in SPECIAL) if q is None else q)
            r=t if r is None else r+t
        else: out[m]=c
    return r+Poly(out)
def _suba(x,mp,memo,ids):
    if x in mp: return mp[x]
    if not adepends(x,ids): return Poly({(x,):1},x in SPECIAL)
    q=memo.get(x)
    if q is None:
        at=ATOMS[x]; args=memo.get(('a',id(at.args)))
        if args is None:
            args=[]
            for g in at.args:
                if type(g) is Poly:
                    y=memo.get(('p',id(g)))
                    if y is None: y=memo[('p',id(g))]=substm(g,mp,memo)
                    args.append(y)
                else: args.append(csubst(g,mp,memo) if isinstance(g,tuple) else g)
            args=memo[('a',id(at.args))]=tuple(args)
        q=rebuild(at,args); memo[x]=q
    return q
def csubst(c,mp,memo=None):
    if memo is None: memo={}
    out=[]
    for t in c:
        if type(t) is Poly: out.append(substm(t,mp,memo))
        elif isinstance(t,tuple): out.append(csubst(t,mp,memo))
        else: out.append(t)
    return tuple(out)
def subst(p,x,v):
    (m,c),=x.d.items(); assert c==1 and len(m)==1
    return substm(p,{m[0]:P(v)})
def aid(p):
    (m,c),=p.d.items(); assert c==1 and len(m)==1; return m[0]

# ---------- integer division
def idiv(a,b):
    """floor division of non-negative integers (udiv, or sdiv of non-negative operands)"""
    a=P(a); b=P(b)
    if b.is_const() and b.const()==1: return a
    if a.is_const() and b.is_const() and b.const()!=0: return num(a.const()//b.const())
    if not a.d: return ZERO
    # exact: every term divisible
    if not b.is_const() and len(b.d)==1:
        (bm,bc),=b.d.items()
        q={}
        rest={}
        for m,c in a.d.items():
            mm=list(m); ok=True
            for x in bm:
                if x in mm: mm.remove(x)
                else: ok=False; break
            if ok and c%bc==0: q[tuple(mm)]=c//bc
            else: rest[m]=c
        if not rest: return Poly(q)
    elif b.is_const():
        bc=b.const()
        if all(c%bc==0 for c in a.d.values()): return Poly({m:c//bc for m,c in a.d.items()})
    return app('idiv',(a,b),'int')
def imod(a,b): return a-b*idiv(a,b)
SMART['idiv']=idiv

# ---------- booleans: True/False or tuples
# ('eq',p) p==0 ; ('le',p) p<=0 (reals: p<=0) ; ('lt',p) p<0 ; ('not',c) ('and',a,b) ('or',a,b) ('b',atomname,args)
def ckey(c):
    if isinstance(c,tuple): return tuple(ckey(x) for x in c)
    if type(c) is Poly: return c.key()
    return c
def c_not(c):
    if c is True: return False
    if c is False: return True
    if c[0]=='not': return c[1]
    if c[0]=='lt': return ('le',-c[1])
    if c[0]=='le': return ('lt',-c[1])
    return ('not',c)
def c_and(a,b):
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    if ckey(a)==ckey(b): return a
    return ('and',a,b)
def c_or(a,b):
    return c_not(c_and(c_not(a),c_not(b)))
def c_eq(p):
    if p.is_const(): return abs(p.const())==0
    if len(p.d)<=2:
        ms=[m for m in p.d if m]
        if len(ms)==1 and len(ms[0])==1 and ATOMS[ms[0][0]].kind=='ite' and p.d[ms[0]].__class__ is int:
            c,a,b=ATOMS[ms[0][0]].args
            if a.is_const() and b.is_const():
                k0=p.d.get((),0); k=p.d[ms[0]]
                ta=k*a.const()+k0==0; tb=k*b.const()+k0==0
                return c if ta and not tb else c_not(c) if tb and not ta else ta
    k=p.key(); c=k[0][1]
    if not isinstance(c,tuple) and c<0: p=-p
    return ('eq',p)
def c_lt(p):
    if p.is_const(): return p.const()<0
    return ('lt',p)
def c_le(p):
    if p.is_const(): return p.const()<=0
    return ('le',p)
def ite(c,a,b,sort=None):
    if c is True: return a
    if c is False: return b
    a=P(a); b=P(b)
    if same(a,b): return a
    if sort is None: sort='int' if all(ATOMS[x].sort=='int' for x in a.atoms()|b.atoms()) and all(type(v) is int for v in list(a.d.values())+list(b.d.values())) else 'real'
    neg=False
    if c[0]=='not': c=c[1]; a,b=b,a
    if sort=='real' and not (is_real(a) and is_real(b)): sort='cplx'
    k=('ite',ckey(c),a.key(),b.key())
    at=_tab.get(k)
    if at is None:
        at=_new('ite','ite',(c,a,b),sort); _tab[k]=at
        if sort=='cplx':
            at2=_new('ite','ite',(c,a.conj(),b.conj()),sort); at.conj=at2.id; at2.conj=at.id
            _tab[('ite',ckey(c),a.conj().key(),b.conj().key())]=at2
    return atom_poly(at)
def _reb_ite(n,args,at):
    c=simp_cond(args[0])
    return ite(c,args[1],args[2],at.sort)
SMARTKIND['ite']=_reb_ite
def simp_cond(c):
    if c is True or c is False: return c
    if c[0]=='eq': return c_eq(c[1])
    if c[0]=='lt': return c_lt(c[1])
    if c[0]=='le': return c_le(c[1])
    if c[0]=='not': return c_not(simp_cond(c[1]))
    if c[0]=='and': return c_and(simp_cond(c[1]),simp_cond(c[2]))
    if c[0]=='or': return c_or(simp_cond(c[1]),simp_cond(c[2]))
    return c

# ---------- sums over a bound variable
def bv(n): return sym('§%d'%n,'int')
def _bvdepth(p):
    r=0
    for x in p.atoms():
        for y in support(x):
            a=ATOMS[y]
            if a.kind=='sum' : r=max(r,a.args[0]+1)
    return r
def SUM(var,lo,hi,body):
    """sum_{var=lo}^{hi-1} body ; var is an atom poly of sort int"""
    lo=P(lo); hi=P(hi); body=P(body)
    v=aid(var)
    ids=frozenset([v])
    r=ZERO
    n=hi-lo
    if n.is_const() and isinstance(n.const(),int) and n.const()<=16:
        for k in range(n.const()): r=r+subst(body,var,lo+k)
        return r
    if lo.d: body=subst(body,var,var+lo); hi=n; lo=ZERO
    for m,c in body.d.items():
        out=tuple(x for x in m if not adepends(x,ids)); inn=tuple(x for x in m if adepends(x,ids))
        o=Poly({out:c})
        if not inn: r=r+o*n; continue
        b=Poly({inn:1})
        dep=_bvdepth(b)
        bb=substm(b,{v:bv(dep)})
        if len(bb.d)==1:
            (bm,bc),=bb.d.items(); r=r+o*num(bc)*_sumatom(dep,lo,hi,Poly({bm:1},bb.sp))
        else: r=r+o*_sumatom(dep,lo,hi,bb)
    return r
def _sumatom(dep,lo,hi,b):
    sort='int' if all(ATOMS[x].sort=='int' for x in b.atoms()) else ('real' if all(ATOMS[x].conj==x for x in b.atoms()) else 'cplx')
    k=('sum',dep,lo.key(),hi.key(),b.key())
    a=_tab.get(k)
    if a is None:
        a=_new('sum','SUM',(dep,lo,hi,b),sort); _tab[k]=a
        if sort=='cplx':
            bc=b.conj()
            if same(bc,b): pass
            else:
                a2=_new('sum','SUM',(dep,lo,hi,bc),sort); _tab[('sum',dep,lo.key(),hi.key(),bc.key())]=a2
                a.conj=a2.id; a2.conj=a.id
    return atom_poly(a)
def _reb_sum(n,args,at):
    return SUM(bv(args[0]),args[1],args[2],args[3])
SMARTKIND['sum']=_reb_sum

# ---------- recurrences: x_i <- body_i(k, x), t iterations from k=0
def _foldbv(dep,i,sort): return sym('§F%d.%s'%(dep,i),sort)
def FOLD(k,t,sys):
    """sys: list of (state symbol, init, next value); returns the list of values after t iterations"""
    t=P(t)
    if t.is_const() and t.const()==0: return [P(v0) for _,v0,_ in sys]
    dep=0
    for _,v0,b in sys:
        for p in (b,):
            for x in p.atoms():
                for y in support(x):
                    if ATOMS[y].kind=='fold': dep=max(dep,ATOMS[y].args[0]+1)
    mp={aid(k):_foldbv(dep,'k','int')}
    for i,(z,v0,b) in enumerate(sys):
        at=ATOMS[aid(z)]; w=_foldbv(dep,i,at.sort); mp[aid(z)]=w
        if at.conj!=at.id: mp[at.conj]=w.conj()
    bodies=tuple(substm(P(b),mp) for _,_,b in sys); inits=tuple(P(v0) for _,v0,_ in sys)
    sorts=tuple(ATOMS[aid(z)].sort for z,_,_ in sys)
    return [_foldatom(dep,i,t,inits,bodies,sorts) for i in range(len(sys))]
def _foldatom(dep,i,t,inits,bodies,sorts):
    k=('fold',dep,i,t.key(),tuple(p.key() for p in inits),tuple(p.key() for p in bodies))
    a=_tab.get(k)
    if a is None:
        a=_new('fold','FOLD',(dep,i,t,inits,bodies,sorts),sorts[i]); _tab[k]=a
        if sorts[i]=='cplx':
            a2=_new('foldc','FOLD',(dep,i,t,inits,bodies,sorts),'cplx'); a.conj=a2.id; a2.conj=a.id
    return atom_poly(a)
def _reb_fold(n,args,at):
    dep,i,t,inits,bodies,sorts=args
    if t.is_const() and t.const()==0: return inits[i]
    return _foldatom(dep,i,t,tuple(inits),tuple(bodies),sorts)
SMARTKIND['fold']=_reb_fold

# ---------- printing
def show_atom(i,depth=0):
    a=ATOMS[i]
    if a.kind=='sym': return a.name
    if a.kind=='symc': return a.name+"'"
    _bud[0]-=1
    if depth>4 or _bud[0]<0: return '..'
    s=','.join(show(x,depth+1) if type(x) is Poly else (cshow(x,depth+1) if isinstance(x,tuple) else str(x)) for x in a.args)
    t=a.name+('' if not s else '(%s)'%s)
    if a.kind.endswith('c') and a.kind!='c' : t+="'"
    return t
def cshow(c,depth=0):
    if depth==0: depth=1; _bud[0]=400
    if isinstance(c,tuple): return '('+' '.join(cshow(x,depth) for x in c)+')'
    if type(c) is Poly: return show(c,depth)
    return str(c)
_bud=[0]
def show(p,depth=0,lim=12):
    if depth==0: _bud[0]=400
    if not p.d: return '0'
    out=[]
    for m,c in list(p.d.items())[:lim]:
        s='*'.join(show_atom(x,depth) for x in m)
        if not m: s='%s'%(c,)
        elif c!=1: s='%s*%s'%(c,s)
        out.append(s)
    if len(p.d)>lim: out.append('...[%d terms]'%len(p.d))
    return ' + '.join(out)

# ---------- numeric evaluation (for replay / refutation by sampling)
def evaluate(p,env,rnd,memo=None):
    """numeric value; env: atom id -> number for leaves; rnd(atom) supplies values for unknown leaves/apps"""
    if memo is None: memo={}
    r=0
    for m,c in p.d.items():
        t=c
        for x in m: t*=_eva(x,env,rnd,memo)
        r+=t
    return r
def _eva(x,env,rnd,memo):
    v=env.get(x)
    if v is not None: return v
    v=memo.get(x)
    if v is not None: return v
    a=ATOMS[x]
    if a.kind in('den','denc'):
        v=1/evaluate(a.args[0],env,rnd,memo)
    elif a.kind=='app' and a.name in NUM:
        v=NUM[a.name](*[evaluate(g,env,rnd,memo) for g in a.args])
    elif a.kind=='ite':
        v=evaluate(a.args[1] if ceval(a.args[0],env,rnd,memo) else a.args[2],env,rnd,memo)
    else:
        if a.conj!=x and a.conj in memo: v=memo[a.conj].conjugate()
        elif a.conj!=x and a.conj in env: v=env[a.conj].conjugate()
        else: v=rnd(a)
    memo[x]=v
    return v
def ceval(c,env,rnd,memo):
    if c is True or c is False: return c
    if c[0]=='eq': return abs(evaluate(c[1],env,rnd,memo))<1e-13
    if c[0]=='lt': return complex(evaluate(c[1],env,rnd,memo)).real<0
    if c[0]=='le': return complex(evaluate(c[1],env,rnd,memo)).real<=0
    if c[0]=='not': return not ceval(c[1],env,rnd,memo)
    if c[0]=='and': return ceval(c[1],env,rnd,memo) and ceval(c[2],env,rnd,memo)
    if c[0]=='or': return ceval(c[1],env,rnd,memo) or ceval(c[2],env,rnd,memo)
    return rnd(c)
NUM={'sqrt':cmath.sqrt,'cos':cmath.cos,'sin':cmath.sin,'exp':cmath.exp,'log':cmath.log,'fabs':abs,
     'acos':cmath.acos,'idiv':lambda a,b:int(a.real if isinstance(a,complex) else a)//int(b.real if isinstance(b,complex) else b)}
