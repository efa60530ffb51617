"""Native lattice sessions: the current sources compiled with gcc, driven through ctypes with a real gauge field.

Used only to turn a failed obligation into a concrete failing input (and never to decide a property)."""
import ctypes as C, numpy as np, os, multiprocessing as mp, random, pickle, tempfile, resource
import build, native
WRAP=r'''
#include "Mainfile.h"
#include "geometry.h"
#include "init.h"
#include "SU2_rotate.h"
#include "expMat.h"
#include "GLU_malloc.h"
int gl_nd(void){ return ND; } int gl_nc(void){ return NC; } size_t gl_volume(void){ return LVOLUME; }
void gl_init(const size_t *d,int nth){
  int i; for(i=0;i<ND;i++) Latt.dims[i]=d[i];
#ifdef _OPENMP
  omp_set_dynamic(0); omp_set_num_threads(nth);
#endif
  Latt.Seed[0]=1234; Latt.gf_alpha=0.08;
  for(i=0;i<ND-1;i++) Latt.sm_alpha[i]=0.3+0.1*i;
  init_latt(); Latt.Nthreads=nth;
#if NC>3 && !( defined HAVE_LAPACKE_H || defined HAVE_GSL )
  init_factorial();
#endif
}
void gl_alpha(const double *a){ int i; for(i=0;i<ND-1;i++) Latt.sm_alpha[i]=a[i]; }
void gl_head(int h){ Latt.head=h; }
struct site *gl_lat(void){ return allocate_lat(); }
void gl_set(struct site *l,const double complex *u){ size_t i,m,k; for(i=0;i<LVOLUME;i++)for(m=0;m<ND;m++)for(k=0;k<NCNC;k++) l[i].O[m][k]=u[(i*ND+m)*NCNC+k]; }
void gl_get(struct site *l,double complex *u){ size_t i,m,k; for(i=0;i<LVOLUME;i++)for(m=0;m<ND;m++)for(k=0;k<NCNC;k++) u[(i*ND+m)*NCNC+k]=l[i].O[m][k]; }
double complex **gl_mats(size_t n,size_t len){ double complex **g=malloc(n*sizeof(void*)); size_t i; for(i=0;i<n;i++){ void *p=0; posix_memalign(&p,64,len*sizeof(double complex)); memset(p,0,len*sizeof(double complex)); g[i]=p; } return g; }
void gl_mset(double complex **g,size_t n,size_t len,const double complex *u){ size_t i,k; for(i=0;i<n;i++)for(k=0;k<len;k++) g[i][k]=u[i*len+k]; }
void gl_mget(double complex **g,size_t n,size_t len,double complex *u){ size_t i,k; for(i=0;i<n;i++)for(k=0;k<len;k++) u[i*len+k]=g[i][k]; }
void gl_table(struct site *l,size_t i,size_t *o){ int m; for(m=0;m<ND;m++){ o[m]=l[i].neighbor[m]; o[ND+m]=l[i].back[m]; } }
double complex poly(const struct site *,size_t); void gl_poly(struct site *l,size_t d,double *r){ double complex z=poly(l,d); r[0]=creal(z); r[1]=cimag(z); }
void *gl_aligned(size_t b){ void *p=0; posix_memalign(&p,64,b); memset(p,0,b); return p; }
'''
class NL:
    """one session"""
    def __init__(s,L,dims,nth=1,quiet=True):
        s.L=L; s.dims=tuple(dims); s.nd=L.gl_nd(); s.n=L.gl_nc()
        for f,r in (('gl_lat',C.c_void_p),('gl_mats',C.c_void_p),('gl_aligned',C.c_void_p),('gl_volume',C.c_size_t)): getattr(L,f).restype=r
        if quiet:
            fd=os.open('/dev/null',os.O_WRONLY); os.dup2(fd,1); os.dup2(fd,2)
        L.gl_init((C.c_size_t*s.nd)(*dims),nth)
        s.V=int(np.prod(dims)); s.strides=[int(np.prod(dims[:i])) for i in range(s.nd)]
    def lat(s,u=None):
        p=C.c_void_p(s.L.gl_lat())
        if u is not None: s.set(p,u)
        return p
    def set(s,p,u):
        a=np.ascontiguousarray(u,dtype=np.complex128); s.L.gl_set(p,C.c_void_p(a.ctypes.data))
    def get(s,p):
        a=np.zeros((s.V,s.nd,s.n,s.n),dtype=np.complex128); s.L.gl_get(p,C.c_void_p(a.ctypes.data)); return a
    def table(s,lat,i):
        o=(C.c_size_t*(2*s.nd))(); s.L.gl_table(lat,C.c_size_t(i),o); return list(o)
    def mats(s,m,cnt=None,ln=None):
        if m is not None:
            a=np.ascontiguousarray(m,dtype=np.complex128); cnt=a.shape[0]; ln=a.size//cnt
        s.L.gl_mats.argtypes=[C.c_size_t,C.c_size_t]
        p=C.c_void_p(s.L.gl_mats(cnt,ln))
        if m is not None: s.L.gl_mset(p,C.c_size_t(cnt),C.c_size_t(ln),C.c_void_p(a.ctypes.data))
        return p
    def mget(s,p,cnt,ln):
        a=np.zeros((cnt,ln),dtype=np.complex128); s.L.gl_mget(p,C.c_size_t(cnt),C.c_size_t(ln),C.c_void_p(a.ctypes.data)); return a
    def arr(s,a):
        """aligned copy of a numpy array; returns (pointer, view)"""
        a=np.ascontiguousarray(a); s.L.gl_aligned.argtypes=[C.c_size_t]
        p=s.L.gl_aligned(max(64,a.nbytes)); v=np.ctypeslib.as_array(C.cast(p,C.POINTER(C.c_uint8)),(a.nbytes,)).view(a.dtype).reshape(a.shape); v[...]=a
        return C.c_void_p(p),v
    def d(s,name,*args,ret=C.c_double):
        f=getattr(s.L,name); f.restype=ret; return f(*args)
    # ---- geometry oracle
    def coords(s,i): return [(i//st)%d for st,d in zip(s.strides,s.dims)]
    def site(s,x): return sum((c%d)*st for c,d,st in zip(x,s.dims,s.strides))
    def shift(s,mu,k=1):
        """array of site indices i+k*mu"""
        i=np.arange(s.V); c=(i//s.strides[mu])%s.dims[mu]
        return i+(((c+k)%s.dims[mu])-c)*s.strides[mu]
def rand_su(rng,shape,n,eps=None):
    z=rng.normal(size=shape+(n,n))+1j*rng.normal(size=shape+(n,n))
    if eps is not None: z=np.eye(n)+eps*z
    q,r=np.linalg.qr(z)
    ph=np.einsum('...ii->...i',r); q=q*(ph/abs(ph))[...,None,:]
    dt=np.linalg.det(q)
    return q/(dt**(1.0/n))[...,None,None]
def dg(a): return np.conj(np.swapaxes(a,-1,-2))
def session(cfg,fn,dims=None,nth=1,timeout=120,extra=(),wrap='',quiet=True,args=()):
    """run fn(NL,*args) in a child process; returns its (picklable) value, or ('crash',code)/None for a hang"""
    so=native.build_lib(cfg,extra=extra,wrapper=WRAP+wrap)
    nd=build.NDOF[cfg]
    dims=dims or ([4,4,4,4][:nd])
    tf=tempfile.mktemp(prefix='gluvs')
    pid=os.fork()
    if pid==0:
        code=3
        try:
            resource.setrlimit(resource.RLIMIT_CORE,(0,0))
            L=C.CDLL(so); s=NL(L,dims,nth,quiet)
            v=fn(s,*args)
            with open(tf,'wb') as f: pickle.dump(v,f)
            code=0
        except BaseException as e:
            with open(tf,'wb') as f: pickle.dump(('exception',repr(e)),f)
            code=4
        finally: os._exit(code)
    import time
    t=time.time()
    while True:
        p,stt=os.waitpid(pid,os.WNOHANG)
        if p: break
        if time.time()-t>timeout:
            os.kill(pid,9); os.waitpid(pid,0)
            if os.path.exists(tf): os.unlink(tf)
            return None
        time.sleep(0.01)
    try:
        with open(tf,'rb') as f: v=pickle.load(f)
        os.unlink(tf)
    except Exception: v=None
    if stt!=0 and not (isinstance(v,tuple) and v and v[0]=='exception'): return ('crash',stt)
    return v
