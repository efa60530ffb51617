"""Binary data and checksums of gauge configuration files."""
from smear import *
import zlib, struct
from lattice import INJ
INJ.add('hsite')
from exec import Exec as _Exec, Group, Bits, UNDEF, csubst
CFGS=['nc3','nc2','nc4','nc5nd3']
def enums(name):
    t=open(build.REPO+'/src/Headers/GLU_enum.h').read()
    t=_re_.sub(r'/\*.*?\*/','',t,flags=_re_.S); t=_re_.sub(r'//[^\n]*','',t)
    b=_re_.search(r'\{([^{}]*)\}\s*%s\s*;'%name,t).group(1); r={}; v=-1
    for x in b.split(','):
        x=x.strip()
        if not x: continue
        k,_,e=x.partition('='); v=int(e,0) if e.strip() else v+1; r[k.strip()]=v
    return r
import re as _re_
# ---- words: 32-bit quantities.  Integer sums are taken modulo 2^32; exclusive-ors are sums of 'xw' terms
def w32(v,hi): return app('word32',(P(v),num(hi)),'int') if P(v).d else ZERO
def rotl(x,r): return app('rotl',(x,r),'int')
def mod(a,m):
    a=Poly({k:c%m for k,c in P(a).d.items() if c%m}); 
    return num(a.const()) if a.is_const() else app('mod',(a,num(m)),'int')
def xw(a):
    a=P(a)
    if not a.d: return a
    return app('xw',(a,),'int')
def bsw(n,v):
    b=app_single(P(v))
    if b is not None and b.name=='bsw%d'%n: return b.args[0]
    return app('bsw%d'%n,(P(v),),'real')
class Half:
    def __init__(s,v,hi): s.v=v; s.hi=hi
class IOExec(_Exec):
    """adds machine words to the executor: halves of a double, rotations, exclusive-or accumulators and counters modulo a constant"""
    def setup(s):
        s.bounds['mod']=lambda a,m: [c_le(-app('mod',(a,m),'int')),c_lt(app('mod',(a,m),'int')-m)]
        s.xacc=set(); s.iacc=set()
    def isx(s,p):
        """a sum of xor terms"""
        for m in p.d:
            if len(m)!=1: return False
            a=ATOMS[m[0]]
            if a.kind=='sum': 
                if not s.isx(a.args[3]): return False
            elif not(a.name=='xw' or (a.id in s.xacc)): return False
        return bool(p.d)
    def accs(s,p): return [ATOMS[x] for x in p.atoms() if ATOMS[x].kind=='sym' and ATOMS[x].name[:2] in('s.','m.')]
    def binop(s,op,t,a,b,st,I=None):
        if t[0]=='i' and t[1]>1:
            if isinstance(a,Bits) and op=='lshr' and isinstance(b,Poly) and b.is_const() and b.const()==32: return Half(a.v,4)
            if isinstance(a,Poly) and isinstance(b,Poly):
                if op=='urem' and b.is_const() and b.const() in(29,31) and not a.is_const(): return mod(a,b.const())
                if t[1]==32:
                    if op=='xor':
                        def tox(p):
                            if not p.d or s.isx(p): return p
                            q=s.accs(p)
                            if q and len(p.d)==1 and same(p,Poly({(q[0].id,):1})):
                                if q[0].id in s.iacc: raise Unsupported('accumulator used both as sum and as exclusive or')
                                s.xacc.add(q[0].id); return p
                            if any(ATOMS[x].name=='xw' or x in s.xacc for x in p.atoms()): raise Unsupported('mixed exclusive or')
                            return xw(p)
                        return tox(a)+tox(b)
                    if op in('shl','lshr') and not a.is_const() and not s.isx(a): return app(op+'32',(a,b),'int')
                    if op=='or':
                        x,y=app_single(a),app_single(b)
                        if x is not None and y is not None:
                            if x.name=='lshr32': x,y=y,x
                            if x.name=='shl32' and y.name=='lshr32' and same(x.args[0],y.args[0]) and same(x.args[1]+y.args[1],num(32)): return rotl(*x.args)
                    if op not in('xor',):
                        for p in (a,b):
                            if s.isx(p): raise Unsupported('arithmetic on an exclusive or')
                            for q in s.accs(p): s.iacc.add(q.id)
        elif False: pass
        return super().binop(op,t,a,b,st,I)
    def step(s,fr,I,env,st):
        if I.op=='select' and I.ty[0]=='i':
            c=s.asbool(s.val(I.args[0],('i',1),env,fr)); a=s.val(I.args[1],I.ty,env,fr); b=s.val(I.args[2],I.ty,env,fr)
            if isinstance(c,tuple) and isinstance(a,Poly) and isinstance(b,Poly):
                at=set(T.csupport(c))|set(a.atoms())|set(b.atoms()); ms=[x for x in at if ATOMS[x].name=='mod']
                tops={x for q in (a,b) for x in q.atoms()}|{x for x in catoms(c)}
                if len(tops)==1 and len(ms)==1 and tops==set(ms):
                    m=ATOMS[ms[0]]; X_,M_=m.args; M_=M_.const(); tab=[]
                    for v in range(M_):
                        mp={m.id:num(v)}; cc=X.simp_cond(csubst(c,mp))
                        if cc not in(True,False): tab=None; break
                        r=substm(a if cc else b,mp); tab.append(r.const())
                    if tab:
                        for k in range(M_):
                            if all(tab[v]==(v+k)%M_ for v in range(M_)): return mod(X_+k,M_)
        return super().step(fr,I,env,st)
    def cast(s,op,v,t0,t1,st):
        if isinstance(v,(Bits,Half)) and op=='trunc' and t1==('i',32): return w32(v.v,v.hi if isinstance(v,Half) else 0)
        if isinstance(v,(Half,)): return v
        if op=='bitcast' and t0[0]=='float' and t1==('i',32): return w32(v,0)
        return super().cast(op,v,t0,t1,st)
    def reinterp(s,st,obj,idx,inner,v,t,size,shift=0):
        if t==('i',32) and v[0] in(4,8) and isinstance(v[1],Poly) and v[2] is not None and v[2][0] in('double','float') and shift in(0,4): return w32(v[1],shift)
        return super().reinterp(st,obj,idx,inner,v,t,size,shift)
    def coercecell(s,v,t): pass
    def read_cell(s,st,obj,idx,inner,t,size,pst=None):
        if t==('i',32) and obj.real:
            # a 32-bit word of a real number
            n=obj.real; base=inner-inner%n
            v=super().read_cell(st,obj,idx,base,('double',) if n==8 else ('float',),n,pst)
            if v is UNDEF: raise Violation('checksum of uninitialised data')
            return w32(v,inner%n)
        return super().read_cell(st,obj,idx,inner,t,size,pst)
def catoms(c):
    r=set()
    if isinstance(c,tuple):
        for x in c[1:]:
            if isinstance(x,tuple): r|=catoms(x)
            elif isinstance(x,Poly): r|=set(x.atoms())
    return r
def world(cfg):
    ex=IOExec(cfg); ex.load_all([s for s in build.sources() if s in('IO/writers.c','IO/readers.c','IO/HIREP.c')]); ex.setup(); return ex,World(ex)
def block(ex,st,p,B,n=8):
    """the B reals of n bytes at p"""
    ty=('double',) if n==8 else ('float',)
    r=[ex.read(st,p.plus(num(n*j)),ty,None) for j in range(B)]
    if any(v is UNDEF for v in r): raise Violation('uninitialised data')
    return [force(v) for v in r]
def force(v): return v.get() if type(v).__name__=='Lazy' else v
class IO:
    """contracts of the library calls around the readers and writers"""
    short=False
    def __init__(s,ex,w,B,big=True):
        s.ex=ex; s.w=w; s.B=B
        s.file=Obj('file',None,None,ext=True); s.FILE=Obj('FILE',None,None,ext=True); s.FILE.init=lambda ex_,st,idx,inner,t,size: ZERO
        c=ex.contracts
        c['malloc']=s.malloc; c['free']=lambda e,st,a,I: [(st,None)]
        c['fread']=s.fread; c['fwrite']=s.fwrite; c['bswap_64']=s.bswap(8); c['bswap_32']=s.bswap(4)
        c['crc32']=s.crc
        for f in ('start_timer','print_time'): c[f]=lambda e,st,a,I: [(st,ZERO)]
        c['latt_reunitU']=s.reunit
    def reunit(s,ex,st,a,I):
        if 'reunit' in st.flags: raise Unsupported('field reunitarised twice')
        st.flags=dict(st.flags); st.flags['reunit']=a[0]; return [(st,None)]
    def malloc(s,ex,st,a,I):
        o=Obj('buffer@%s'%I.line,None,ex.asint(a[0])); st.flags=dict(st.flags); return [(st,Ptr(o))]
    def rng(s,st,cnt,esz):
        """a block index below cnt/B elements: (index, state, blocks)"""
        B=s.B; d={m:c for m,c in cnt.d.items()}
        if any(c%B for c in d.values()): raise Unsupported('transfer of %s elements is not a whole number of sites'%show(cnt))
        n=Poly({m:c//B for m,c in d.items()}); u=fresh('blk','int'); t=st.clone(); t.pc=st.pc+(c_le(-u),c_lt(u-n)); return u,t,n
    def fill(s,st,p,esz,u,n,vals):
        """write vals (functions of u) to block u for all 0<=u<n at p"""
        ex=s.ex; B=s.B; ty=('double',) if esz==8 else ('float',)
        t=st.clone(); pos=p.plus(u*(esz*B)); obj=None
        cells={}; idx0=None
        for j,v in enumerate(vals):
            obj,idx,inner=ex.norm(st,pos.plus(num(esz*j)),esz,True)
            if idx0 is None: idx0=idx
            if not all(same(x,y) for x,y in zip(idx,idx0)): raise Unsupported('blocks are not aligned with the buffer')
            cells[inner]=(esz,v,ty)
        obj.real=esz
        if obj.size is not None and not ex.prove(st,c_le(p.off+n*(esz*B)-obj.size)): raise Violation('access beyond the end of %s: %s of %s bytes'%(obj.name,show(p.off+n*(esz*B)),show(obj.size)))
        if n.is_const() and n.const()==1:
            for inner,(sz,v,ty_) in cells.items(): ex.write_cell(st,obj,tuple(substm(x,{aid(u):ZERO}) for x in idx0),inner,sz,X.substv(v,{aid(u):ZERO}),ty_)
            return
        st.wstate(obj).groups.append(Group(idx0,cells,([aid(u)],[(ZERO,n)])))
    def fread(s,ex,st,a,I):
        p,esz,cnt=a[0],ex.asint(a[1]).const(),ex.asint(a[2]); pos=ex.asint(ex.read(st,Ptr(s.FILE),('i',64),None))
        u,t,n=s.rng(st,cnt,esz); B=s.B; st0=st.clone() if s.short else None
        s.fill(st,p,esz,u,n,[app('F%d'%(8*esz),(pos+u,num(j)),'real') for j in range(B)])
        bad=None
        if s.short:
            bad=st0; r=fresh('count','int'); bad.flags=dict(bad.flags); bad.flags['short']=True; bad.pc=bad.pc+(c_le(-r),c_lt(r-cnt))
        ex.write(st,Ptr(s.FILE),pos+n,('i',64),None)
        return [(st,cnt)]+([(bad,r)] if bad else [])
    def fwrite(s,ex,st,a,I):
        p,esz,cnt=a[0],ex.asint(a[1]).const(),ex.asint(a[2])*ex.asint(a[1]); pos=ex.asint(ex.read(st,Ptr(s.FILE),('i',64),None))
        if any(c%8 for c in cnt.d.values()): raise Unsupported('fwrite of %s bytes'%show(cnt))
        cnt=Poly({m:c//8 for m,c in cnt.d.items()})
        u,t,n=s.rng(st,cnt,8); B=s.B
        if p.obj.size is not None and not ex.prove(st,c_le(p.off+cnt*8-p.obj.size)): raise Violation('writes more data than the buffer holds')
        out=forks(ex,t,lambda q: block(ex,q,p.plus(u*(8*B)),B))
        if len(out)!=1: raise Unsupported('contents of the buffer depend on the position')
        s.fill(st,Ptr(s.file).plus(pos*(8*B)),8,u,n,out[0][1])
        ex.write(st,Ptr(s.FILE),pos+n,('i',64),None)
        return [(st,cnt)]
    def bswap(s,esz):
        def f(ex,st,a,I):
            cnt,p=ex.asint(a[0]),a[1]
            if cnt.is_const() and cnt.const()<s.B*1 :
                ty=('double',) if esz==8 else ('float',)
                for j in range(cnt.const()): ex.write(st,p.plus(num(esz*j)),bsw(8*esz,force(ex.read(st,p.plus(num(esz*j)),ty,None))),ty,None)
                return [(st,None)]
            u,t,n=s.rng(st,cnt,esz); B=s.B
            out=forks(ex,t,lambda q: block(ex,q,p.plus(u*(esz*B)),B,esz))
            if len(out)!=1: raise Unsupported('contents of the buffer depend on the position')
            s.fill(st,p,esz,u,n,[bsw(8*esz,v) for v in out[0][1]])
            return [(st,None)]
        return f
    def crc(s,ex,st,a,I):
        init,p,n=ex.asint(a[0]),a[1],ex.asint(a[2]); esz=8 if n.const()==8*s.B else 4
        if not same(init,ZERO) or n.const()!=esz*s.B: raise Violation('cyclic redundancy check of %s bytes for a site of %d numbers'%(show(n),s.B))
        return [(st,app('crc32',tuple(block(ex,st,p,s.B,esz)),'int'))]
import exec as X
# ---- the data of a site
def comps(ex,st,U,typ):
    """reals stored for one link"""
    n=ex.NC
    if typ=='SMALL': return [app('short_%d'%k,tuple(U),'real') for k in range(n*n-1)]
    m=n*n if typ=='NCxNC' else n*(n-1)
    return [q for z in U[:m] for q in (T.re(z),T.im(z))]
def nvals(n,typ): return {'SMALL':n*n-1,'GAUGE':2*n*(n-1),'NCxNC':2*n*n}[typ]
def sums(w,B,vals):
    """the three kinds of checksum of data vals(i) (numbers as used in memory) and crc(i)"""
    i=sym('i','int'); v=vals(i)[0]; cr=vals(i)[1]; wd=vals(i)[2]
    k=sum((q for q in wd),ZERO)
    nersc=SUM(i,ZERO,w.V,k)
    milc=[SUM(i,ZERO,w.V,sum((xw(rotl(q,mod(i*B+j,m))) for j,q in enumerate(wd)),ZERO)) for m in (29,31)]
    scidac=[SUM(i,ZERO,w.V,xw(rotl(cr,mod(i,m)))) for m in (29,31)]
    return nersc,milc,scidac
def jobs():
    r=[]
    for c in CFGS:
        n=build.NCOF[c]
        for t in ('GAUGE','NCxNC','MILC','SCIDAC','ILDG')+(('SMALL',) if n<4 else ()):
            for fast in (1,0): r.append((c,'write',t,fast))
        for t in ('GAUGE','NCxNC')+(('SMALL',) if n<4 else ()):
            for fast in (1,0):
                for prec in ('DOUBLE_PREC','FLOAT_PREC'): r.append((c,'read',t,(fast,prec)))
        r+=[(c,'hirep','write',0),(c,'hirep','read',0)]
    return r
def run(ck): ck.par(jobs(),one)
def one(ck,job):
    cfg,kind,t,opt=job
    if kind=='hirep':
        rep=rep_session(ck,cfg,lambda s: native_hirep(s,ck.seed),what='HiRep configuration files',dims=([4,3,2,5],[2,3,2,4]),wrap=WRAPC,extra=EXTRA); fn='write_gauge_field' if t=='write' else 'read_gauge_field'
        ck.guard('%s[%s]'%(fn,cfg),lambda: hirep(ck,cfg,t,fn,rep),fn,replay=rep); return
    rep=rep_session(ck,cfg,lambda s: native(s,ck.seed),what='configuration files',dims=([4,3,2,5],[2,3,2,4]),wrap=WRAPC,extra=EXTRA)
    nm='%s[%s]%s,%s'%('write_lat' if kind=='write' else 'lattice_reader_suNC'+('' if opt[0] else '_cheaper'),cfg,t,opt if kind=='write' else opt[1])
    ck.guard(nm,lambda: (writer if kind=='write' else reader)(ck,cfg,t,opt,rep,nm),nm.split('[')[0],replay=rep)
OUT={'SMALL':'SMALL','GAUGE':'GAUGE','NCxNC':'NCxNC','MILC':'NCxNC','SCIDAC':'NCxNC','ILDG':'NCxNC'}
def writer(ck,cfg,t,fast,rep,nm):
    ex,w=world(cfg); n,nd=w.n,w.nd; typ=OUT[t]; lv=nvals(n,typ); B=nd*lv; io=IO(ex,w,B); E=enums('GLU_output')
    lat=w.lat(); U=w.U()
    def shorten(e,st,a,I):
        for k,v in enumerate(comps(e,st,getm(e,st,a[1],n*n),'SMALL')): e.write(st,a[0].plus(num(8*k)),v,('double',),None)
        return [(st,None)]
    ex.contracts['shorten']=shorten
    ex.contracts['links']=lambda e,st,a,I: [(st,sym('links'))]; ex.contracts['av_plaquette']=lambda e,st,a,I: [(st,sym('plaq'))]
    ex.contracts['have_memory_readers_writers']=lambda e,st,a,I: [(st,num(FAST if fast else FAST+1))]
    written=lambda st: io.file.id in st.mem and bool(st.mem[io.file.id].groups)
    def hdr(name):
        def f(e,st,a,I):
            st.flags=dict(st.flags)
            if name!='trailer':
                if written(st): raise Violation('header written after the data')
                if 'header' in st.flags: raise Violation('two headers')
                st.flags['header']=(name,a)
            else:
                if not written(st): raise Violation('checksums written before the data')
                st.flags['trailer']=a
            return [(st,None)]
        return f
    for x in ('NERSC','MILC','SCIDAC','ILDG'): ex.contracts['write_header_'+x]=hdr(x)
    ex.contracts['write_trailing_header_SCIDAC']=hdr('trailer')
    f=ex.fn('write_lat')
    if f is None: raise Unsupported('function write_lat not found')
    det=Ptr(Obj('details',None,None))
    outs=ex.call(f,[lat,Ptr(io.FILE),num(E['OUTPUT_'+t]),det],State())
    if not outs: raise Unsupported('no path')
    def vals(i):
        c=[q for m in range(nd) for q in comps(ex,None,U(i,num(m)),typ)]
        return c,app('crc32',tuple(bsw(64,q) for q in c),'int'),[w32(q,0)+w32(q,4) for q in c]
    nersc,milc,sci=sums(w,B,vals)
    T_,b=sym('t','int'),sym('b','int'); x=w.Lcu*T_+b
    for q,(st,rv) in enumerate(outs):
        pn=nm+('' if not q else '/path%d'%q)
        ck.ob(pn+'/status',same(rv,ZERO),'write_lat','returned %s'%show(rv),replay=rep)
        ck.ob(pn+'/reunitarised',st.flags.get('reunit') is not None and st.flags['reunit'].obj is lat.obj,'write_lat','field is not reunitarised first',replay=rep)
        h=st.flags.get('header'); want={'NERSC':[nersc],'MILC':milc,'SCIDAC':[],'ILDG':[]}
        hn=t if t in want else 'NERSC'; ok=h is not None and h[0]==hn; ck.ob(pn+'/header-kind',ok,'write_lat','header is %s'%(h and h[0]),replay=rep)
        if ok:
            a=h[1]
            if hn=='NERSC':
                got=[ex.asint(a[3])]; ok2=same(a[1],sym('links')) and same(a[2],sym('plaq')) and same(ex.asint(a[5]),num(E['OUTPUT_'+typ]))
                ck.ob(pn+'/header-fields',ok2,'write_lat','link trace, plaquette or storage type in the header is wrong',replay=rep)
            else: got=[ex.asint(v) for v in a[1:1+len(want[hn])]]
            for k,(g,v) in enumerate(zip(got,want[hn])):
                ck.ob(pn+'/checksum%d'%k,same(g,v),'write_lat','checksum is %s'%show(g)[:400],replay=rep,backend='normal-form'); ck.canary(pn,not same(g,v+xw(sym('canary'))))
        tr=st.flags.get('trailer')
        if hn in('SCIDAC','ILDG'):
            ok=tr is not None and same(ex.asint(tr[1]),sci[0]) and same(ex.asint(tr[2]),sci[1]); ck.ob(pn+'/trailer',ok,'write_lat','checksums after the data: %s'%(tr and show(tr[1])[:300]),replay=rep)
        else: ck.ob(pn+'/no-trailer',tr is None,'write_lat','unexpected trailer',replay=rep)
        ck.ob(pn+'/length',same(ex.asint(ex.read(st,Ptr(io.FILE),('i',64),None)),w.V),'write_lat','%s sites are written'%show(ex.asint(ex.read(st,Ptr(io.FILE),('i',64),None))),replay=rep)
        s1=st.clone(); s1.pc=st.pc+(c_le(-T_),c_lt(T_-w.L[-1]),c_le(-b),c_lt(b-w.Lcu))
        for s2,got in forks(ex,s1,lambda z: block(ex,z,Ptr(io.file).plus(x*(8*B)),B)):
            exp=[bsw(64,v) for v in vals(x)[0]]; bad=[k for k in range(B) if not same(got[k],exp[k])]
            ck.ob(pn+'/data',not bad,'write_lat','' if not bad else 'number %d of a site is %s expected %s'%(bad[0],show(got[bad[0]])[:200],show(exp[bad[0]])[:200]),replay=rep)
            ck.canary(pn,not same(got[0],exp[1]))
        wr=lat.obj.tag['data']; ck.ob(pn+'/frame',not(wr.id in st.mem and st.mem[wr.id].groups),'write_lat','the field is modified',replay=rep)
    ck.use(ex)
FAST=0
HEADS=('NERSC_HEADER','MILC_HEADER','SCIDAC_HEADER','ILDG_SCIDAC_HEADER','ILDG_BQCD_HEADER','LIME_HEADER','JLQCD_HEADER')
def reader(ck,cfg,t,opt,rep,nm):
    fast,prec=opt; esz=8 if prec=='DOUBLE_PREC' else 4
    for hd in HEADS:
        for endian in (0,1):
            if endian and hd not in('NERSC_HEADER','SCIDAC_HEADER'): continue
            ck.guard('%s,%s,%d'%(nm,hd,endian),lambda: reader1(ck,cfg,t,fast,prec,esz,hd,endian,rep,'%s,%s,%s'%(nm,hd,'LB'[endian])),nm.split('[')[0],replay=rep)
def reader1(ck,cfg,t,fast,prec,esz,hd,endian,rep,nm):
    fname='lattice_reader_suNC'+('' if fast else '_cheaper')
    ex,w=world(cfg); n,nd=w.n,w.nd; lv=nvals(n,t); B=nd*lv; io=IO(ex,w,B); H=enums('header_mode'); c=ex.contracts; io.short=True
    w.vals['head']=num(H[hd]); lat=w.lat(); data=lat.obj.tag['data']
    hf,hs=field_offsets(ex,'head_data'); hv={'endianess':endian,'config_type':enums('GLU_output')['OUTPUT_'+t],'precision':enums('file_prec')[prec]}
    ho=Obj('HEAD_DATA',None,num(hs),ext=True)
    def hinit(ex_,st,idx,inner,ty,size):
        for k,(off,_) in hf.items():
            if off==inner: return num(hv[k]) if k in hv else ex_.atom_for('HEAD_DATA.'+k,(),0,ty,size)
        raise Unsupported('header offset %d'%inner)
    ho.init=hinit
    rebf=lambda q: [app('rebuilt_%d'%k,tuple(q),'cplx') for k in range(n*n)]
    grf=lambda q: [app('gram_%d'%k,tuple(q),'cplx') for k in range(n*n)]
    def creb(e,st,a,I):
        setm(e,st,a[0],rebf([force(e.read(st,a[1].plus(num(8*k)),('double',),None)) for k in range(lv)])); return [(st,None)]
    def cgr(e,st,a,I): setm(e,st,a[0],grf(getm(e,st,a[0],n*n))); return [(st,None)]
    def clu(e,st,a,I):
        N=a[0].const(); d=mdet(getm(e,st,a[1],N*N)); return [(st,Agg([T.re(d),T.im(d)]) if I is None or I.ty[0]!='vec' else Vec([T.re(d),T.im(d)]))]
    c.update(rebuild=creb,gram_reunit=cgr,LU_det_overwrite=clu)
    crc=Obj('crc state',None,None,ext=True); crc.init=lambda e,st,idx,inner,ty,size: sym('crc0','int')
    def cadd(e,st,a,I):
        q=block(e,st,a[0],B,esz)
        if not same(e.asint(a[1]),num(esz*B)): raise Violation('running checksum over %s bytes for a site of %d numbers'%(show(e.asint(a[1])),B))
        e.write(st,Ptr(crc),app('crcadd',(e.asint(e.read(st,Ptr(crc),('i',32),None)),)+tuple(q),'int'),('i',32),None); return [(st,None)]
    def cget(e,st,a,I):
        e.write(st,a[0],app('crcget',(e.asint(e.read(st,Ptr(crc),('i',32),None)),),'int'),('i',32),None); e.write(st,a[1],fresh('nbytes','int'),('i',32),None); return [(st,None)]
    c.update(CKSUM_ADD=cadd,CKSUM_GET=cget)
    f=ex.fn(fname)
    if f is None: raise Unsupported('function %s not found'%fname)
    outs=ex.call(f,[lat,Ptr(io.FILE),Ptr(ho)],State())
    i=sym('i','int'); F=lambda i: [app('F%d'%(8*esz),(i,num(j)),'real') for j in range(B)]
    # native numbers are little-endian (WORDS_BIGENDIAN=0)
    sw=(lambda v: bsw(8*esz,v)) if endian else (lambda v: v)
    def vals(i):
        q=[sw(v) for v in F(i)]; return q,app('crc32',tuple(F(i)),'int'),[w32(v,0)+(w32(v,4) if esz==8 else ZERO) for v in q]
    nersc,milc,sci=sums(w,B,vals)
    z=sym('z','int'); bq=app('crcget',(T.FOLD(i,w.V,[(z,sym('crc0','int'),app('crcadd',(z,)+tuple(F(i)),'int'))])[0],),'int')
    want={'NERSC_HEADER':nersc,'MILC_HEADER':milc[0],'SCIDAC_HEADER':sci[0],'ILDG_SCIDAC_HEADER':sci[0],'ILDG_BQCD_HEADER':bq}.get(hd,ZERO)
    good=[o for o in outs if not o[0].flags.get('short')]; bad=[o for o in outs if o[0].flags.get('short')]
    if not good: raise Unsupported('no path')
    for q,(st,rv) in enumerate(bad):
        ck.ob(nm+'/short%d'%q,rv is not None and ex.asint(rv).is_const() and ex.asint(rv).const()%2**32==2**32-1,fname,'a truncated file is accepted',replay=rep)
    ck.ob(nm+'/truncation',bool(bad),fname,'a short read is not noticed',replay=rep)
    x=sym('x','int')
    for q,(st,rv) in enumerate(good):
        pn=nm+('' if not q else '/path%d'%q); rv=ex.asint(rv)
        ck.ob(pn+'/checksum',same(rv,want),fname,'checksum is %s expected %s'%(show(rv)[:400],show(want)[:400]),replay=rep,backend='normal-form'); ck.canary(pn,not same(rv,want+sym('canary')))
        ck.ob(pn+'/length',same(ex.asint(ex.read(st,Ptr(io.FILE),('i',64),None)),w.V),fname,'%s sites are read'%show(ex.asint(ex.read(st,Ptr(io.FILE),('i',64),None))),replay=rep)
        ru=st.flags.get('reunit')
        ck.ob(pn+'/reunitarised',(ru is not None and ru.obj is lat.obj) if esz==4 else ru is None,fname,'single-precision links must be reunitarised, double-precision ones kept',replay=rep)
        s1=st.clone(); s1.pc=st.pc+(c_le(-x),c_lt(x-w.V)); bd=[]
        for mu in range(nd):
            for s2,got in forks(ex,s1,lambda z: getm(ex,z,Ptr(data,(x,num(mu))),n*n)):
                v=vals(x)[0][lv*mu:lv*(mu+1)]
                if t=='SMALL': exp=grf(rebf(v))
                else:
                    exp=[v[2*k]+v[2*k+1].scale(1j) for k in range(lv//2)]
                    if t=='GAUGE': exp+=lastrow(exp,n)
                bd+=[(mu,k,got[k],exp[k]) for k in range(n*n) if not(same(got[k],exp[k]) or equal(got[k],exp[k]) is True)]
                ck.canary(pn,not same(got[0],exp[1]))
        ck.ob(pn+'/links',not bd,fname,'' if not bd else 'entry %d of link %d is %s expected %s'%(bd[0][1],bd[0][0],show(bd[0][2])[:200],show(bd[0][3])[:200]),replay=rep)
    ck.use(ex)
def lastrow(U,n):
    """the last row of a special unitary matrix from the others"""
    return [mdet([U[r*n+c] for r in range(n-1) for c in range(n) if c!=j]).scale((-1)**(n-1+j)).conj() for j in range(n)]
def hirep(ck,cfg,t,fname,rep):
    """the i-th site of the file is the site of the i-th HiRep momentum-style coordinates (whose digits are proved in G01); time link first"""
    nm='%s[%s]'%(fname,cfg); ex,w=world(cfg); n,nd=w.n,w.nd; lv=4 if n==2 else 2*n*n; B=nd*lv; io=IO(ex,w,B); io.short=t=='read'; c=ex.contracts
    ex.bounds['hsite']=lambda i: [c_le(-app('hsite',(i,),'int')),c_lt(app('hsite',(i,),'int')-w.V)]
    def hx(e,st,a,I):
        for m in range(nd): e.write(st,a[0].plus(num(4*m)),app('hx',(num(m),e.asint(a[1])),'int'),('i',32),None)
        return [(st,None)]
    def gs(e,st,a,I):
        v=[app_single(e.asint(e.read(st,a[0].plus(num(4*m)),('i',32),None))) for m in range(nd)]
        if any(q is None or q.name!='hx' or q.args[0].const()!=m or not same(q.args[1],v[0].args[1]) for m,q in enumerate(v)): raise Violation('site of something else than the coordinates of the file position')
        return [(st,app('hsite',(v[0].args[1],),'int'))]
    c.update(get_mom_2piBZ_hirep2=hx,gen_site=gs,av_plaquette=lambda e,st,a,I: [(st,sym('plaq'))])
    b32=lambda e,st,a,I: ([e.write(st,a[1].plus(num(4*j)),app('bsw32',(e.asint(e.read(st,a[1].plus(num(4*j)),('i',32),None)),),'int'),('i',32),None) for j in range(e.asint(a[0]).const())],[(st,None)])[1]
    c['bswap_32']=b32; fw=c['fwrite']
    def fwrite(e,st,a,I):
        by=e.asint(a[1])*e.asint(a[2])
        if by.is_const() and by.const()<8*B:
            if not same(e.asint(e.read(st,Ptr(io.FILE),('i',64),None)),ZERO): raise Violation('header inside the data')
            v=[force(e.read(st,a[0].plus(num(4*j)),('i',32),None)) for j in range(by.const()//4)] if by.const()!=8 else [force(e.read(st,a[0],('double',),None))]
            st.flags=dict(st.flags); st.flags['head']=st.flags.get('head',())+tuple(v); return [(st,e.asint(a[2]))]
        return fw(e,st,a,I)
    c['fwrite']=fwrite
    def eqh(st,x,y):
        a,b=app_single(P(x)),app_single(P(y))
        if a is not None and b is not None and a.name==b.name=='hsite': return c_eq(a.args[0]-b.args[0])
        return None
    ex.eqhook=eqh
    lat=w.lat(); U=w.U(); data=lat.obj.tag['data']; f=ex.fn(fname)
    if f is None: raise Unsupported('function %s not found'%fname)
    order=[nd-1]+list(range(nd-1)); i=sym('i','int'); pc=(c_le(-i),c_lt(i-w.V)); h=lambda i: app('hsite',(i,),'int')
    if t=='write':
        outs=ex.call(f,[lat,Ptr(io.FILE)],State())
        for q,(st,rv) in enumerate(outs):
            pn=nm+('' if not q else '/path%d'%q)
            want=[app('bsw32',(v,),'int') for v in [num(n),w.L[-1]]+w.L[:-1]]+[bsw(64,sym('plaq'))]; got=st.flags.get('head',())
            ck.ob(pn+'/header',len(got)==len(want) and all(same(a,b) for a,b in zip(got,want)),fname,'header is %s'%[show(x) for x in got],replay=rep)
            ck.ob(pn+'/length',same(ex.asint(ex.read(st,Ptr(io.FILE),('i',64),None)),w.V),fname,'wrong number of sites',replay=rep)
            exp=[]
            for m in order:
                u=U(h(i),num(m)); exp+=[T.re(u[0]),T.im(u[1]),-T.re(u[1]),T.im(u[0])] if n==2 else [r for z in u for r in (T.re(z),T.im(z))]
            s1=st.clone(); s1.pc=st.pc+pc
            for s2,g in forks(ex,s1,lambda z: block(ex,z,Ptr(io.file).plus(i*(8*B)),B)):
                bd=[k for k in range(B) if not same(g[k],bsw(64,exp[k]))]
                ck.ob(pn+'/data',not bd,fname,'' if not bd else 'number %d of a site is %s expected %s'%(bd[0],show(g[bd[0]])[:200],show(bsw(64,exp[bd[0]]))[:200]),replay=rep); ck.canary(pn,not same(g[0],bsw(64,exp[1])))
            ck.ob(pn+'/frame',not(data.id in st.mem and st.mem[data.id].groups),fname,'the field is modified',replay=rep)
    else:
        oc=Obj('chksum',None,num(4),ext=True); outs=ex.call(f,[lat,Ptr(io.FILE),Ptr(oc)],State())
        good=[o for o in outs if not o[0].flags.get('short')]; bad=[o for o in outs if o[0].flags.get('short')]
        ck.ob(nm+'/truncation',bool(bad) and all(ex.asint(v).is_const() and ex.asint(v).const()%2**32==2**32-1 for _,v in bad),fname,'a truncated file is accepted',replay=rep)
        if not good: raise Unsupported('no path')
        for q,(st,rv) in enumerate(good):
            pn=nm+('' if not q else '/path%d'%q); ru=st.flags.get('reunit')
            ck.ob(pn+'/status',same(ex.asint(rv),ZERO),fname,'returned %s'%show(ex.asint(rv)),replay=rep)
            ck.ob(pn+'/reunitarised',ru is not None and ru.obj is lat.obj,fname,'field is not reunitarised',replay=rep)
            s1=st.clone(); s1.pc=st.pc+pc; bd=[]; v=[bsw(64,app('F64',(i,num(j)),'real')) for j in range(B)]
            for k,m in enumerate(order):
                u=v[lv*k:lv*k+lv]
                if n==2: a,b=u[0]+u[3].scale(1j),-u[2]+u[1].scale(1j); exp=[a,b,-b.conj(),a.conj()]
                else: exp=[u[2*z]+u[2*z+1].scale(1j) for z in range(n*n)]
                for s2,g in forks(ex,s1,lambda z: getm(ex,z,Ptr(data,(h(i),num(m))),n*n)):
                    bd+=[(m,z,g[z],exp[z]) for z in range(n*n) if not same(g[z],exp[z])]; ck.canary(pn,not same(g[0],exp[1]))
            ck.ob(pn+'/links',not bd,fname,'' if not bd else 'entry %d of link %d is %s expected %s'%(bd[0][1],bd[0][0],show(bd[0][2])[:200],show(bd[0][3])[:200]),replay=rep)
    ck.use(ex)
def native_hirep(s,seed):
    import tempfile,os
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; L=s.L; path=tempfile.mktemp(prefix='gluio'); bp=path.encode()
    try:
        U=nlat.rand_su(rng,(V,nd),n); lat=s.lat(U); order=[nd-1]+list(range(nd-1)); D=s.dims
        # file order: the last spatial coordinate runs fastest, time slowest
        pos=[]
        for t in range(D[-1]):
            for x in np.ndindex(*D[:-1]): pos.append(s.site(list(x)+[t]))
        def pack(u): return np.array([u[0,0].real,u[0,1].imag,-u[0,1].real,u[0,0].imag]) if n==2 else u.reshape(-1).view(np.float64)
        ref=np.array([np.concatenate([pack(np.ascontiguousarray(U[p,m])) for m in order]) for p in pos]); L.gl_hwrite(lat,bp); raw=open(path,'rb').read(); h=4*(nd+1)+8
        want=struct.pack('>%di'%(nd+1),n,D[-1],*D[:-1])+struct.pack('>d',s.d('av_plaquette',lat))
        if raw[:h]!=want: return dict(function='write_gauge_field',output='header',got=raw[:h].hex(),expected=want.hex())
        if len(raw)!=h+8*ref.size: return dict(function='write_gauge_field',output='length',got=len(raw),expected=h+8*ref.size)
        g=np.frombuffer(raw[h:],'>f8').reshape(ref.shape); q=np.argwhere(g!=ref)
        if len(q): i,j=map(int,q[0]); return dict(function='write_gauge_field',output='number %d of block %d'%(j,i),got=float(g[i,j]),expected=float(ref[i,j]))
        open(path,'wb').write(want+ref.astype('>f8').tobytes()); s.set(lat,U*0); r=L.gl_hread(lat,bp); g=s.get(lat)
        if r!=0 or not abs(g-U).max()<1e-12: return dict(function='read_gauge_field',output='links',status=r,got=str(g[0,0]),expected=str(U[0,0]),largest_difference=float(abs(g-U).max()))
        open(path,'wb').write((want+ref.astype('>f8').tobytes())[:-8]); r=L.gl_hread(lat,bp)
        if r==0: return dict(function='read_gauge_field',output='status for a truncated file',got=r,expected='failure')
    finally:
        if os.path.exists(path): os.unlink(path)
HDRF=('have_memory_readers_writers','write_header_NERSC','write_header_MILC','write_header_SCIDAC','write_header_ILDG','write_trailing_header_SCIDAC')
EXTRA=tuple('-Wl,--wrap='+f for f in HDRF)
WRAPC=r"""
#include <stdio.h>
#include <stdint.h>
#include "readers.h"
#include "writers.h"
#include "HIREP.h"
void gl_hwrite(struct site *l,const char *path){ FILE *f=fopen(path,"wb"); write_gauge_field(l,f); fclose(f); }
int gl_hread(struct site *l,const char *path){ FILE *f=fopen(path,"rb"); uint32_t c; int r; fseek(f,(ND+1)*4+8,SEEK_SET); r=read_gauge_field(l,f,&c); fclose(f); return r; }
static int gl_speed=0; static uint32_t gl_sum[4]; static int gl_kind,gl_after; static double gl_obs[2]; static long gl_pos;
GLU_speed __wrap_have_memory_readers_writers(const GLU_output t){ return gl_speed; }
void __wrap_write_header_NERSC(FILE *o,const double tr,const double pl,const uint32_t c,const char *d,const GLU_output t){ gl_kind=1; gl_sum[0]=c; gl_obs[0]=tr; gl_obs[1]=pl; gl_pos=ftell(o); gl_sum[3]=t; }
void __wrap_write_header_MILC(FILE *o,const uint32_t a,const uint32_t b){ gl_kind=2; gl_sum[0]=a; gl_sum[1]=b; gl_pos=ftell(o); }
void __wrap_write_header_SCIDAC(FILE *o){ gl_kind=3; gl_pos=ftell(o); }
void __wrap_write_header_ILDG(FILE *o){ gl_kind=4; gl_pos=ftell(o); }
void __wrap_write_trailing_header_SCIDAC(FILE *o,const uint32_t a,const uint32_t b){ gl_after=ftell(o); gl_sum[0]=a; gl_sum[1]=b; }
int gl_write(struct site *l,const char *path,int type,int speed,uint32_t *out,double *obs){
  FILE *f=fopen(path,"wb"); int r; gl_speed=speed; gl_kind=0; gl_after=-1; gl_sum[0]=gl_sum[1]=gl_sum[3]=0; gl_pos=-1;
  r=write_lat(l,f,type,"x"); fclose(f); out[0]=gl_sum[0]; out[1]=gl_sum[1]; out[2]=gl_kind; out[3]=gl_after; out[4]=gl_pos; out[5]=gl_sum[3]; obs[0]=gl_obs[0]; obs[1]=gl_obs[1]; return r; }
uint32_t gl_read(struct site *l,const char *path,int fast,int type,int prec,int endian,int head){
  FILE *f=fopen(path,"rb"); struct head_data H; uint32_t r; memset(&H,0,sizeof H); H.endianess=endian; H.config_type=type; H.precision=prec; Latt.head=head;
  r=fast?lattice_reader_suNC(l,f,H):lattice_reader_suNC_cheaper(l,f,H); fclose(f); return r; }
"""
def np_rot(w,r): return ((w<<r)|np.where(r>0,w>>(32-np.maximum(r,1)),0)).astype(np.uint64)&0xffffffff
def np_sums(words,crcs):
    """(sum of words, MILC pair, SCIDAC pair); words[site,number]"""
    V,B=words.shape; w=words.astype(np.uint64); p=np.arange(V*B,dtype=np.uint64).reshape(V,B); c=np.array(crcs,dtype=np.uint64); i=np.arange(V,dtype=np.uint64); x=lambda a: int(np.bitwise_xor.reduce(a.ravel()))
    return int(w.sum())%2**32,[x(np_rot(w,p%m)) for m in (29,31)],[x(np_rot(c,i%m)) for m in (29,31)]
_ct=None
def cksum(c,data):
    global _ct
    if _ct is None:
        _ct=[]
        for i in range(256):
            v=i<<24
            for _ in range(8): v=((v<<1)^0x04C11DB7 if v&0x80000000 else v<<1)&0xffffffff
            _ct.append(v)
    for b in data: c=((c<<8)&0xffffffff)^_ct[((c>>24)^b)&255]
    return c
def native(s,seed,only=None):
    import tempfile,os
    rng=np.random.default_rng(seed); n,nd,V=s.n,s.nd,s.V; C=nlat.C; L=s.L; O=enums('GLU_output'); H=enums('header_mode'); dims=s.dims
    L.gl_read.restype=C.c_uint32; path=tempfile.mktemp(prefix='gluio'); bp=path.encode(); lat=s.lat(); crc=[0,0]
    def bad(fn,what,got,want,**k): return dict(function=fn,output=what,got=str(got),expected=str(want),**k)
    try:
        U0=nlat.rand_su(rng,(V,nd),n)
        for t in ('GAUGE','NCxNC','MILC','SCIDAC','ILDG')+(('SMALL',) if n<4 else ()):
            typ=OUT[t]; lv=nvals(n,typ); B=nd*lv
            for speed in (FAST,FAST+1):
                s.set(lat,U0*(1+1e-3)); out=(C.c_uint32*6)(); ob=(C.c_double*2)(); r=L.gl_write(lat,bp,O['OUTPUT_'+t],speed,out,ob); k=dict(type=t,memory='plentiful' if speed==FAST else 'scarce')
                u=s.get(lat)
                if abs(u-U0).max()>1e-6: return bad('write_lat','field after writing',abs(u-U0).max(),'reunitarised',**k)
                if typ=='SMALL':
                    ref=np.zeros((V,nd,lv)); pt,tv=s.arr(np.zeros(lv)); pu,uv=s.arr(np.zeros((n,n),complex))
                    for i in range(V):
                        for m in range(nd): uv[...]=u[i,m]; s.d('shorten',pt,pu,ret=None); ref[i,m]=tv
                    ref=ref.reshape(V,B)
                else: ref=np.ascontiguousarray(u.reshape(V,nd,n*n)[:,:,:lv//2]).view(np.float64).reshape(V,B)
                raw=open(path,'rb').read(); want=ref.astype('>f8').tobytes()
                if r!=0: return bad('write_lat','status',r,0,**k)
                if len(raw)!=len(want): return bad('write_lat','bytes of data',len(raw),len(want),**k)
                g=np.frombuffer(raw,'>f8').reshape(V,B); q=np.argwhere(g.view('>u8')!=ref.astype('>f8').view('>u8'))
                if len(q): i,j=q[0]; return bad('write_lat','number %d of site %d'%(j,i),g[i,j],ref[i,j],differing=len(q),**k)
                w=ref.view('<u4').reshape(V,B,2).astype(np.uint64).sum(-1)&0xffffffff
                ns,mi,sc=np_sums(w,[zlib.crc32(want[8*B*i:8*B*i+8*B]) for i in range(V)])
                kind,we={'MILC':(2,mi),'SCIDAC':(3,sc),'ILDG':(4,sc)}.get(t,(1,[ns,0]))
                if out[2]!=kind: return bad('write_lat','header kind',out[2],kind,**k)
                if list(out[:2])!=we: return bad('write_lat','checksums',[hex(x) for x in out[:2]],[hex(x) for x in we],**k)
                if out[4]!=0 or (out[3]!=len(want) if kind>2 else out[3]!=0xffffffff): return bad('write_lat','position of the header and trailer',(out[4],out[3]),(0,len(want)),**k)
                if kind==1:
                    wo=[s.d('links',lat),s.d('av_plaquette',lat)]
                    if not np.allclose(list(ob),wo) or out[5]!=O['OUTPUT_'+typ]: return bad('write_lat','link trace, plaquette, storage type',(list(ob),out[5]),(wo,O['OUTPUT_'+typ]),**k)
        for t in ('GAUGE','NCxNC')+(('SMALL',) if n<4 else ()):
            lv=nvals(n,t); B=nd*lv
            if t=='SMALL':
                ref=np.zeros((V,nd,lv)); pt,tv=s.arr(np.zeros(lv)); pu,uv=s.arr(np.zeros((n,n),complex))
                for i in range(V):
                    for m in range(nd): uv[...]=U0[i,m]; s.d('shorten',pt,pu,ret=None); ref[i,m]=tv
                ref=ref.reshape(V,B)
            else: ref=np.ascontiguousarray(U0.reshape(V,nd,n*n)[:,:,:lv//2]).view(np.float64).reshape(V,B)
            for fast in (1,0):
                fn='lattice_reader_suNC'+('' if fast else '_cheaper')
                for prec,esz in (('DOUBLE_PREC',8),('FLOAT_PREC',4)):
                    for hd in HEADS:
                        for e in (0,1):
                            k=dict(type=t,precision=prec,header=hd,endianess='LB'[e]); dat=ref.astype('<>'[e]+'f%d'%esz); raw=dat.tobytes(); open(path,'wb').write(raw)
                            s.set(lat,np.zeros_like(U0)); L.gl_head(0); got=L.gl_read(lat,bp,fast,O['OUTPUT_'+t],enums('file_prec')[prec],e,H[hd])
                            if hd=='ILDG_BQCD_HEADER' or not fast: crc[0]=cksum(crc[0],raw); crc[1]=(crc[1]+len(raw))&0xffffffff
                            le=dat.astype('<f%d'%esz); w=le.view('<u4').reshape(V,B,esz//4).astype(np.uint64).sum(-1)&0xffffffff
                            ns,mi,sc=np_sums(w,[zlib.crc32(raw[esz*B*i:esz*B*i+esz*B]) for i in range(V)])
                            c=crc[0]; m=crc[1]
                            while m>0: c=cksum(c,bytes([m&255])); m>>=8
                            want={'NERSC_HEADER':ns,'MILC_HEADER':mi[0],'SCIDAC_HEADER':sc[0],'ILDG_SCIDAC_HEADER':sc[0],'ILDG_BQCD_HEADER':c^0xffffffff}.get(hd,0)
                            if got!=want: return bad(fn,'checksum',hex(got),hex(want),**k)
                            g=s.get(lat); tol=1e-12 if esz==8 else 2e-6
                            if t=='SMALL': tol=max(tol,1e-7)
                            if not abs(g-U0).max()<tol: i=np.unravel_index(np.nanargmax(np.where(np.isfinite(g),abs(g-U0),1e9)),g.shape); return bad(fn,'link %d of site %d'%(i[1],i[0]),g[i[0],i[1]],U0[i[0],i[1]],**k)
                            if esz==4 and abs(np.einsum('...ij,...kj->...ik',g,g.conj())-np.eye(n)).max()>1e-10: return bad(fn,'unitarity of the links',abs(np.einsum('...ij,...kj->...ik',g,g.conj())-np.eye(n)).max(),0,**k)
                            if esz==8 and t=='NCxNC' and not (g==U0).all(): return bad(fn,'links',g,'exactly the stored numbers',**k)
                            open(path,'wb').write(raw[:-esz])
                            if hd=='NERSC_HEADER' and fast:
                                got=L.gl_read(lat,bp,fast,O['OUTPUT_'+t],enums('file_prec')[prec],e,H[hd])
                                if got!=0xffffffff: return bad(fn,'result for a truncated file',hex(got),'failure',**k)
        if n>=2:
            # truncated files, byte-wise reader (advances the running checksum: last)
            open(path,'wb').write(raw[:-esz]); got=L.gl_read(lat,bp,0,O['OUTPUT_'+t],enums('file_prec')[prec],e,H['NERSC_HEADER'])
            if got!=0xffffffff: return bad('lattice_reader_suNC_cheaper','result for a truncated file',hex(got),'failure')
    finally:
        if os.path.exists(path): os.unlink(path)
