"""Demonstration helper: compiles the sources under /repo/src for one configuration and calls them through ctypes."""
import ctypes as C, numpy as np, os, re, subprocess, tempfile, shutil, atexit, sys
from concurrent.futures import ThreadPoolExecutor
R=os.getcwd() if os.path.exists('src/Headers/GLU_types.h') else '/repo'
WRAP=open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'wrap.c')).read()
def lib(cfg='nc3',generic=False,extra=(),wrap='',omp=True):
    tmp=tempfile.mkdtemp(prefix='gldemo'); atexit.register(shutil.rmtree,tmp,True)
    h=open(R+'/_build/%s/config.h'%cfg).read()
    if generic: h=h.replace('#define HAVE_IMMINTRIN_H 1','/* generic code paths */')
    open(tmp+'/config.h','w').write(h)
    t=open(R+'/src/Makefile.am').read(); srcs=[]
    for m in re.findall(r'([A-Za-z0-9_+/.-]+\.c)\b',t):
        m=m.lstrip('./')
        if m not in srcs and os.path.exists(R+'/src/'+m): srcs.append(m)
    open(tmp+'/wrap.c','w').write(WRAP+wrap)
    fl=['-O1','-w','-std=gnu17','-msse2','-fPIC','-ffp-contract=off','-DHAVE_CONFIG_H','-I',tmp,'-I',R+'/src/Headers']+(['-fopenmp'] if omp else [])+list(extra)
    if 'gsl' in cfg: fl+=['-I',R+'/_build/gsl/include']
    jobs=[(R+'/src/'+s,tmp+'/'+s.replace('/','_')+'.o') for s in srcs]+[(tmp+'/wrap.c',tmp+'/wrap.o')]
    def cc(j): return subprocess.run(['gcc']+fl+['-c',j[0],'-o',j[1]],capture_output=True,text=True)
    with ThreadPoolExecutor(8) as p:
        for r in p.map(cc,jobs):
            if r.returncode: print(r.stderr[:2000]); sys.exit(99)
    so=tmp+'/l.so'
    r=subprocess.run(['gcc','-shared','-fopenmp','-o',so]+[j[1] for j in jobs]+(['-lgsl','-lgslcblas'] if 'gsl' in cfg else [])+[x for x in extra if x.startswith('-Wl,')]+['-lfftw3','-lm'],capture_output=True,text=True)
    if r.returncode: print(r.stderr[:2000]); sys.exit(99)
    return C.CDLL(so)
class NL:
    def __init__(s,L,dims,nth=1):
        s.L=L; s.dims=tuple(dims); s.nd=L.gl_nd(); s.n=L.gl_nc()
        for f in ('gl_lat','gl_mats','gl_aligned'): getattr(L,f).restype=C.c_void_p
        L.gl_mats.argtypes=[C.c_size_t,C.c_size_t]; L.gl_aligned.argtypes=[C.c_size_t]
        L.gl_init((C.c_size_t*s.nd)(*dims),nth)
        s.V=int(np.prod(dims)); s.strides=[int(np.prod(dims[:i])) for i in range(s.nd)]
    def lat(s,u=None):
        p=C.c_void_p(s.L.gl_lat())
        if u is not None: s.set(p,u)
        return p
    def set(s,p,u):
        a=np.ascontiguousarray(u,dtype=np.complex128); s.L.gl_set(p,C.c_void_p(a.ctypes.data))
    def get(s,p):
        a=np.zeros((s.V,s.nd,s.n,s.n),dtype=np.complex128); s.L.gl_get(p,C.c_void_p(a.ctypes.data)); return a
    def mats(s,m,cnt=None,ln=None):
        if m is not None:
            a=np.ascontiguousarray(m,dtype=np.complex128); cnt=a.shape[0]; ln=a.size//cnt
        p=C.c_void_p(s.L.gl_mats(cnt,ln))
        if m is not None: s.L.gl_mset(p,C.c_size_t(cnt),C.c_size_t(ln),C.c_void_p(a.ctypes.data))
        return p
    def mget(s,p,cnt,ln):
        a=np.zeros((cnt,ln),dtype=np.complex128); s.L.gl_mget(p,C.c_size_t(cnt),C.c_size_t(ln),C.c_void_p(a.ctypes.data)); return a
    def arr(s,a):
        a=np.ascontiguousarray(a)
        p=s.L.gl_aligned(max(64,a.nbytes)); v=np.ctypeslib.as_array(C.cast(p,C.POINTER(C.c_uint8)),(a.nbytes,)).view(a.dtype).reshape(a.shape); v[...]=a
        return C.c_void_p(p),v
    def d(s,name,*args,ret=C.c_double):
        f=getattr(s.L,name); f.restype=ret; return f(*args)
    def site(s,x): return sum((c%d)*st for c,d,st in zip(x,s.dims,s.strides))
    def shift(s,mu,k=1):
        i=np.arange(s.V); c=(i//s.strides[mu])%s.dims[mu]
        return i+(((c+k)%s.dims[mu])-c)*s.strides[mu]
def rand_su(rng,shape,n,eps=None):
    z=rng.normal(size=shape+(n,n))+1j*rng.normal(size=shape+(n,n))
    if eps is not None: z=np.eye(n)+eps*z
    q,r=np.linalg.qr(z)
    ph=np.einsum('...ii->...i',r); q=q*(ph/abs(ph))[...,None,:]
    return q/(np.linalg.det(q)**(1.0/n))[...,None,None]
def dg(a): return np.conj(np.swapaxes(a,-1,-2))
def rnd(rng,*sh): return rng.normal(size=sh)+1j*rng.normal(size=sh)
def al(a):
    """16-byte aligned copy"""
    a=np.ascontiguousarray(a,dtype=np.complex128); raw=np.zeros(a.nbytes+64,np.uint8); o=(-raw.ctypes.data)%64
    v=raw[o:o+a.nbytes].view(np.complex128).reshape(a.shape); v[...]=a; return v
def ptr(a): return C.c_void_p(a.ctypes.data)
def done(ok,msg=''):
    print('OK' if ok else 'BROKEN '+str(msg)); sys.stdout.flush(); os._exit(0 if ok else 1)
