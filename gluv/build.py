"""Mechanical front end: compile /repo's current sources to LLVM IR per configuration."""
import os, subprocess, hashlib, sys, pickle, glob, shutil
REPO=os.environ.get('GLUV_REPO','/repo')
HERE=os.path.dirname(os.path.abspath(__file__))
VERIF=os.path.dirname(HERE)
CACHE=os.environ.get('GLUV_CACHE', os.path.join(VERIF,'.cache'))
CLANG='/usr/bin/clang-18'; OPT='/usr/bin/opt-18'
CONFIGS={ # name -> extra defines (mirrors /opt/vp/build.sh; config headers are in /verif/cfg)
 'nc3':[], 'nc2':[], 'nc4':[], 'nc5nd3':[], 'nc4gsl':[],
 # same sources, generic (non-SSE) code paths selected by the code's own switch HAVE_IMMINTRIN_H
 'nc3s':[], 'nc2s':[], 'nc4s':[],
 # the same sources with the improved clover definition (--enable-CLOVER_IMPROVE)
 'nc3ci':[], 'nc2ci':[],
}
NCOF={'nc3':3,'nc2':2,'nc4':4,'nc5nd3':5,'nc4gsl':4,'nc3s':3,'nc2s':2,'nc4s':4,'nc3ci':3,'nc2ci':2}
NDOF={k:(3 if 'nd3' in k else 4) for k in CONFIGS}
PASSES='always-inline,function(sroa,early-cse,simplifycfg)'
class FrontEndError(Exception): pass
def cfgdir(cfg): return os.path.join(VERIF,'cfg',cfg)
_hdr=None
def hdrhash():
    global _hdr
    if _hdr is None:
        h=hashlib.sha256()
        for f in sorted(glob.glob(REPO+'/src/Headers/*.h')):
            h.update(f.encode()); h.update(open(f,'rb').read())
        for f in sorted(glob.glob(VERIF+'/cfg/*/config.h')): h.update(open(f,'rb').read())
        h.update(open(os.path.join(HERE,'llir.py'),'rb').read()); h.update(open(__file__,'rb').read())
        _hdr=h.hexdigest()
    return _hdr
def flags(cfg, omp=False):
    f=['-std=gnu17','-O0','-Xclang','-disable-O0-optnone','-msse2','-ffp-contract=off','-fno-math-errno','-gline-tables-only','-DHAVE_CONFIG_H',
       '-I',cfgdir(cfg),'-I',REPO+'/src/Headers','-w']
    if omp: f+=['-fopenmp','-I',os.path.join(VERIF,'cfg','omp')]
    return f
def module(src, cfg, omp=False, passes=PASSES):
    """src: path relative to /repo/src, e.g. 'Matrix_Ops/U_Nops.c'."""
    from llir import parse_module
    path=os.path.join(REPO,'src',src)
    if not os.path.exists(path): raise FrontEndError('missing source '+src)
    key=hashlib.sha256((hdrhash()+cfg+str(omp)+passes+src).encode()+open(path,'rb').read()).hexdigest()[:32]
    os.makedirs(CACHE,exist_ok=True)
    pk=os.path.join(CACHE,key+'.pkl')
    if os.path.exists(pk):
        try: return pickle.load(open(pk,'rb'))
        except Exception: pass
    r=subprocess.run([CLANG]+flags(cfg,omp)+['-S','-emit-llvm','-o','-',path],capture_output=True,text=True)
    if r.returncode: raise FrontEndError('clang failed on %s [%s]: %s'%(src,cfg,r.stderr[-2000:]))
    r2=subprocess.run([OPT,'-S','-passes='+passes,'-o','-'],input=r.stdout,capture_output=True,text=True)
    if r2.returncode: raise FrontEndError('opt failed: '+r2.stderr[-2000:])
    m=parse_module(r2.stdout,src)
    tmp=pk+'.%d'%os.getpid()
    with open(tmp,'wb') as f: pickle.dump(m,f,protocol=4)
    os.replace(tmp,pk)
    return m

def sources():
    """library sources of the current tree, from its own build description"""
    t=open(REPO+'/src/Makefile.am').read()
    import re
    out=[]
    for m in re.findall(r'([A-Za-z0-9_+/.-]+\.c)\b',t):
        m=m.lstrip('./')
        if m not in out and os.path.exists(REPO+'/src/'+m): out.append(m)
    return out
def _one(a):
    try: module(*a); return None
    except Exception as e: return (a[0],a[1],str(e))
def compile_all(jobs):
    """jobs: list of (src,cfg,omp)"""
    import multiprocessing as mp
    hdrhash()
    with mp.get_context('fork').Pool(min(8,max(1,len(jobs)))) as p:
        return [e for e in p.map(_one,jobs,chunksize=1) if e]
