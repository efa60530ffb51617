"""Replay of counterexamples against the real code: builds /repo's current sources with gcc and calls them through ctypes."""
import os, subprocess, hashlib, ctypes, glob, tempfile, shutil, atexit
import build
from build import REPO, VERIF, CACHE, cfgdir
_libs={}
GCCFLAGS=['-O2','-g','-std=gnu17','-msse2','-fopenmp','-fPIC','-ffp-contract=off','-DHAVE_CONFIG_H','-w']
def _cc(a):
    src,obj,cfg,extra=a
    r=subprocess.run(['gcc']+GCCFLAGS+extra+['-I',cfgdir(cfg),'-I',REPO+'/src/Headers','-c',src,'-o',obj],capture_output=True,text=True)
    return r.stderr if r.returncode else None
def build_lib(cfg,extra=(),wrapper=None):
    """returns path of a shared library of the current tree"""
    h=hashlib.sha256((build.hdrhash()+cfg+' '.join(extra)+(wrapper or '')).encode())
    srcs=build.sources()
    for s in srcs: h.update(open(REPO+'/src/'+s,'rb').read())
    key=h.hexdigest()[:24]
    os.makedirs(CACHE,exist_ok=True)
    so=os.path.join(CACHE,'lib_%s_%s.so'%(cfg,key))
    if os.path.exists(so): return so
    tmp=tempfile.mkdtemp(prefix='gluvn')
    try:
        jobs=[]
        for s in srcs:
            if s.endswith('Mainfile.c') and 'Run' in s: pass
            jobs.append((REPO+'/src/'+s,os.path.join(tmp,s.replace('/','_')[:-2]+'.o'),cfg,list(extra)))
        if wrapper:
            w=os.path.join(tmp,'wrap.c'); open(w,'w').write(wrapper); jobs.append((w,os.path.join(tmp,'wrap.o'),cfg,list(extra)))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex: errs=[e for e in ex.map(_cc,jobs) if e]
        if errs: raise build.FrontEndError('gcc: '+errs[0][:1500])
        libs=['-lfftw3','-lm']
        if 'gsl' in cfg: libs=['-lgsl','-lgslcblas']+libs
        objs=[j[1] for j in jobs]
        r=subprocess.run(['gcc','-shared','-fopenmp','-o',so+'.tmp%d'%os.getpid()]+objs+[x for x in extra if x.startswith('-Wl,')]+libs,capture_output=True,text=True)
        if r.returncode: raise build.FrontEndError('link: '+r.stderr[:1500])
        os.replace(so+'.tmp%d'%os.getpid(),so)
    finally: shutil.rmtree(tmp,ignore_errors=True)
    return so
def lib(cfg,**k):
    kk=(cfg,str(k))
    if kk not in _libs: _libs[kk]=ctypes.CDLL(build_lib(cfg,**k))
    return _libs[kk]
