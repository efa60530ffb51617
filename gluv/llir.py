"""Parser for the subset of textual LLVM IR (LLVM 18) that clang emits for C.

Types   : ('i',w) ('double',) ('float',) ('x86_fp80',) ('ptr',) ('void',)
          ('vec',n,T) ('arr',n,T) ('st',(T..)) ('label',) ('metadata',) ('fn',)
Operands: ('loc',name) ('glob',name) ('ci',int) ('cf',Fraction|'nan'|'inf'..)
          ('null',) ('undef',) ('zero',) ('agg',[(T,op)..]) ('str',bytes)
          ('ce',opname,...)   constant expression
"""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<md>!(?:[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#[0-9]+)
 | (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<id>\$?[a-zA-Z_.][-a-zA-Z$._0-9]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
''', re.X)

class ParseError(Exception): pass

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m: raise ParseError('tok at %r' % s[i:i+60])
        k = m.lastgroup
        if k: out.append((k, m.group(k)))
        i = m.end()
    return out

FLAGS = {'nsw','nuw','exact','inbounds','nnan','ninf','nsz','arcp','contract','afn','reassoc','fast','volatile',
         'disjoint','nneg','samesign','tail','musttail','notail','nusw'}
PARAM_ATTRS = {'noundef','zeroext','signext','nocapture','readonly','readnone','writeonly','noalias','nonnull','returned',
         'immarg','inreg','noalias','dso_local','local_unnamed_addr','unnamed_addr','nofree','swiftself','allocptr','allocalign',
         'nest','inalloca','byref','preallocated','sret','byval','elementtype','align','dereferenceable','dereferenceable_or_null',
         'fastcc','ccc','coldcc','memory','captures','noundef','range','nofpclass','writable','dead_on_unwind','initializes'}

class Instr:
    __slots__ = ('op','res','ty','args','extra','flags','line','idx')
    def __init__(s, op, res, ty, args, extra=None, flags=()):
        s.op=op; s.res=res; s.ty=ty; s.args=args; s.extra=extra; s.flags=flags; s.line=None
    def __repr__(s): return '%s = %s %r %r %r' % (s.res, s.op, s.ty, s.args, s.extra)

class Block:
    __slots__ = ('name','instrs','preds','succs')
    def __init__(s,n): s.name=n; s.instrs=[]; s.preds=[]; s.succs=[]

class Function:
    def __init__(s): s.name=None; s.ret=None; s.params=[]; s.blocks={}; s.order=[]; s.entry=None; s.vararg=False; s.internal=False; s.file=None; s.line=None

class Module:
    def __init__(s): s.types={}; s.globals={}; s.funcs={}; s.decls={}; s.source=None; s.dbg={}

class P:
    def __init__(s, toks, mod): s.t=toks; s.i=0; s.m=mod
    def pk(s, o=0):
        j=s.i+o
        return s.t[j][1] if j < len(s.t) else None
    def kind(s, o=0):
        j=s.i+o
        return s.t[j][0] if j < len(s.t) else None
    def nx(s):
        v=s.t[s.i]; s.i+=1; return v[1]
    def eat(s, v):
        if s.pk()==v: s.i+=1; return True
        return False
    def ex(s, v):
        if s.pk()!=v: raise ParseError('expected %r got %r near %r' % (v, s.pk(), [x[1] for x in s.t[max(0,s.i-8):s.i+8]]))
        s.i+=1
    def type(s):
        k,v = s.t[s.i]
        if k=='id':
            s.i+=1
            if re.fullmatch(r'i\d+', v): t=('i',int(v[1:]))
            elif v in ('double','float','ptr','void','label','metadata','x86_fp80','opaque'): t=(v,)
            else: raise ParseError('type '+v)
        elif k=='loc':
            s.i+=1; t=('named',v[1:])
        elif v=='<':
            s.i+=1
            if s.pk()=='{':
                t=s.type(); s.ex('>')
            else:
                n=int(s.nx()); s.ex('x'); e=s.type(); s.ex('>'); t=('vec',n,e)
        elif v=='[':
            s.i+=1; n=int(s.nx()); s.ex('x'); e=s.type(); s.ex(']'); t=('arr',n,e)
        elif v=='{':
            s.i+=1; es=[]
            if s.pk()!='}':
                es.append(s.type())
                while s.eat(','): es.append(s.type())
            s.ex('}'); t=('st',tuple(es))
        else: raise ParseError('type at %r' % v)
        # function type  T (args)
        if s.pk()=='(' :
            d=0
            while True:
                x=s.nx()
                if x=='(' : d+=1
                if x==')' :
                    d-=1
                    if d==0: break
            t=('fnty',t)
        return t
    def skip_attrs(s):
        while True:
            k=s.kind(); v=s.pk()
            if k=='attr': s.i+=1
            elif v in PARAM_ATTRS:
                s.i+=1
                if v=='align' and s.kind()=='num': s.i+=1
                elif s.pk()=='(':
                    d=0
                    while True:
                        x=s.nx()
                        if x=='(' : d+=1
                        if x==')' :
                            d-=1
                            if d==0: break
            elif k=='str' and v[0]!='c':
                s.i+=1
                if s.eat('='): s.i+=1
            else: return
    def typed(s):
        t=s.type(); s.skip_attrs(); return t, s.value(t)
    def value(s, ty):
        k,v = s.t[s.i]
        if k=='loc': s.i+=1; return ('loc', v[1:])
        if k=='glob': s.i+=1; return ('glob', v[1:].strip('"'))
        if k=='num':
            s.i+=1
            if ty[0] in ('double','float','x86_fp80'): return ('cf', Fraction(v))
            return ('ci', int(v))
        if k=='hex':
            s.i+=1
            if v[2] in 'KLMHR': return ('cf80', v)
            d=struct.unpack('>d', bytes.fromhex(v[2:].rjust(16,'0')))[0]
            if d!=d: return ('cf','nan')
            if d in (float('inf'),float('-inf')): return ('cf','inf' if d>0 else '-inf')
            return ('cf', Fraction(d))
        if k=='str':
            s.i+=1
            raw=v[2:-1]; out=bytearray(); j=0
            while j<len(raw):
                if raw[j]=='\\' and raw[j+1]=='\\': out.append(92); j+=2
                elif raw[j]=='\\': out.append(int(raw[j+1:j+3],16)); j+=3
                else: out.append(ord(raw[j])); j+=1
            return ('str', bytes(out))
        if v in ('true','false'): s.i+=1; return ('ci', 1 if v=='true' else 0)
        if v=='null': s.i+=1; return ('null',)
        if v in ('undef','poison'): s.i+=1; return ('undef',)
        if v=='zeroinitializer': s.i+=1; return ('zero',)
        if v in ('<','[','{'):
            s.i+=1; close={'<':'>','[':']','{':'}'}[v]
            if v=='<' and s.pk()=='{':
                r=s.value(ty); s.ex('>'); return r
            el=[]
            if s.pk()!=close:
                el.append(s.typed())
                while s.eat(','): el.append(s.typed())
            s.ex(close); return ('agg', el)
        if v=='getelementptr':
            s.i+=1
            while s.pk() in FLAGS or s.pk()=='inrange':
                s.i+=1
                if s.pk()=='(' and s.t[s.i-1][1]=='inrange':
                    while s.nx()!=')': pass
            s.ex('('); t=s.type(); ops=[]
            while s.eat(','):
                s.eat('inrange'); ops.append(s.typed())
            s.ex(')'); return ('ce','gep',t,ops)
        if v in ('ptrtoint','inttoptr','bitcast','trunc','zext','sext'):
            s.i+=1; s.ex('('); a=s.typed(); s.ex('to'); t=s.type(); s.ex(')'); return ('ce',v,a,t)
        if v in ('add','sub','mul'):
            s.i+=1
            while s.pk() in FLAGS: s.i+=1
            s.ex('('); a=s.typed(); s.ex(','); b=s.typed(); s.ex(')'); return ('ce',v,a,b)
        if k=='md' or v=='asm': raise ParseError('md/asm operand')
        raise ParseError('value at %r' % v)

BIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
CAST={'trunc','zext','sext','fptrunc','fpext','fptoui','fptosi','uitofp','sitofp','ptrtoint','inttoptr','bitcast','addrspacecast'}

def parse_instr(line, mod):
    dbg=None
    mm=re.search(r', !dbg !(\d+)', line)
    if mm: dbg=int(mm.group(1))
    line=re.sub(r',\s*![a-zA-Z_.]+ !\d+', '', line)
    p=P(tokenize(line), mod)
    res=None
    if p.kind()=='loc' and p.pk(1)=='=':
        res=p.nx()[1:]; p.ex('=')
    op=p.nx()
    flags=set()
    while p.pk() in FLAGS: flags.add(p.nx())
    if op in ('tail','musttail','notail'):
        op=p.nx()
        while p.pk() in FLAGS: flags.add(p.nx())
    I=None
    if op in BIN:
        t=p.type(); a=p.value(t); p.ex(','); b=p.value(t); I=Instr(op,res,t,[a,b])
    elif op=='fneg':
        t=p.type(); a=p.value(t); I=Instr(op,res,t,[a])
    elif op in CAST:
        while p.pk() in FLAGS: flags.add(p.nx())
        t,a=p.typed(); p.ex('to'); t2=p.type(); I=Instr(op,res,t2,[a],t)
    elif op in ('icmp','fcmp'):
        while p.pk() in FLAGS: flags.add(p.nx())
        pred=p.nx(); t=p.type(); a=p.value(t); p.ex(','); b=p.value(t); I=Instr(op,res,t,[a,b],pred)
    elif op=='load':
        if p.pk()=='atomic': p.nx()
        if p.pk()=='volatile': p.nx()
        t=p.type(); p.ex(','); _,a=p.typed(); I=Instr(op,res,t,[a])
    elif op=='store':
        if p.pk()=='atomic': p.nx()
        if p.pk()=='volatile': p.nx()
        t,v=p.typed(); p.ex(','); _,a=p.typed(); I=Instr(op,None,t,[v,a])
    elif op=='getelementptr':
        t=p.type(); ops=[]
        while p.eat(','):
            ops.append(p.typed())
        I=Instr('gep',res,t,ops)
    elif op=='alloca':
        p.eat('inalloca'); t=p.type(); n=None
        if p.eat(','):
            if p.pk()!='align': n=p.typed()
        I=Instr(op,res,t,[n])
    elif op=='phi':
        t=p.type(); inc=[]
        while True:
            p.ex('['); v=p.value(t); p.ex(','); b=p.nx()[1:]; p.ex(']'); inc.append((v,b))
            if not p.eat(','): break
        I=Instr(op,res,t,inc)
    elif op=='br':
        if p.pk()=='label':
            p.nx(); I=Instr('br',None,None,[p.nx()[1:]])
        else:
            p.ex('i1'); c=p.value(('i',1)); p.ex(','); p.ex('label'); a=p.nx()[1:]; p.ex(','); p.ex('label'); b=p.nx()[1:]
            I=Instr('cbr',None,None,[c],(a,b))
    elif op=='switch':
        t,v=p.typed(); p.ex(','); p.ex('label'); d=p.nx()[1:]; p.ex('['); cs=[]
        while not p.eat(']'):
            _,c=p.typed(); p.ex(','); p.ex('label'); cs.append((c[1],p.nx()[1:]))
        I=Instr('switch',None,t,[v],(d,cs))
    elif op=='ret':
        if p.pk()=='void': I=Instr('ret',None,None,[])
        else:
            t,v=p.typed(); I=Instr('ret',None,t,[v])
    elif op=='unreachable': I=Instr(op,None,None,[])
    elif op=='select':
        _,c=p.typed(); p.ex(','); t,a=p.typed(); p.ex(','); _,b=p.typed(); I=Instr(op,res,t,[c,a,b])
    elif op=='call':
        p.skip_attrs()
        while p.pk() in FLAGS: flags.add(p.nx())
        p.skip_attrs()
        t=p.type()
        if t[0]=='fnty': t=t[1]
        k=p.kind()
        if p.pk()=='asm':
            return Instr('asm',res,t,[])
        callee=('loc',p.nx()[1:]) if k=='loc' else ('glob',p.nx()[1:].strip('"'))
        p.ex('('); args=[]
        while not p.eat(')'):
            at=p.type() if p.pk()!='metadata' else None
            if at is None:
                # metadata argument: skip to , or )
                d=0
                while True:
                    x=p.pk()
                    if d==0 and x in (',',')'): break
                    if x=='(' : d+=1
                    if x==')' : d-=1
                    p.i+=1
                args.append((('metadata',),('undef',)))
            else:
                p.skip_attrs()
                args.append((at,p.value(at)))
            p.eat(',')
        I=Instr('call',res,t,args,callee)
    elif op=='extractelement':
        t,v=p.typed(); p.ex(','); _,i=p.typed(); I=Instr(op,res,t,[v,i])
    elif op=='insertelement':
        t,v=p.typed(); p.ex(','); _,e=p.typed(); p.ex(','); _,i=p.typed(); I=Instr(op,res,t,[v,e,i])
    elif op=='shufflevector':
        t,a=p.typed(); p.ex(','); _,b=p.typed(); p.ex(','); mt,m=p.typed(); I=Instr(op,res,t,[a,b],(mt,m))
    elif op=='extractvalue':
        t,v=p.typed(); ix=[]
        while p.eat(','): ix.append(int(p.nx()))
        I=Instr(op,res,t,[v],ix)
    elif op=='insertvalue':
        t,v=p.typed(); p.ex(','); et,e=p.typed(); ix=[]
        while p.eat(','): ix.append(int(p.nx()))
        I=Instr(op,res,t,[v,e],(ix,et))
    elif op=='freeze':
        t,v=p.typed(); I=Instr(op,res,t,[v])
    elif op=='fence': I=Instr('fence',None,None,[])
    elif op=='atomicrmw' or op=='cmpxchg': I=Instr('atomic',res,None,[],line)
    elif op=='va_arg': I=Instr('va_arg',res,None,[])
    else: raise ParseError('op '+op)
    I.flags=flags; I.line=dbg
    return I

def parse_module(text, source=None):
    mod=Module(); mod.source=source
    lines=text.split('\n'); i=0; n=len(lines)
    while i<n:
        L=lines[i]
        if not L or L[0]==';' : i+=1; continue
        if L[0]=='%':
            m=re.match(r'%("?[^" ]+"?) = type (.*)$', L)
            if m:
                if m.group(2)=='opaque': mod.types[m.group(1)]=('opaque',)
                else: mod.types[m.group(1)]=P(tokenize(m.group(2)),mod).type()
            i+=1; continue
        if L[0]=='@':
            m=re.match(r'@("[^"]*"|[-a-zA-Z$._0-9]+) = (.*)$', L)
            name=m.group(1).strip('"'); rest=m.group(2)
            rest=re.sub(r', !dbg !\d+','',rest); rest=re.sub(r', align \d+$','',rest); rest=re.sub(r', comdat$','',rest)
            mm=re.search(r'\b(global|constant)\s+', rest)
            if mm:
                pre=rest[:mm.start()]; body=rest[mm.end():]
                p=P(tokenize(body),mod); t=p.type(); init=None
                if p.i<len(p.t): init=p.value(t)
                mod.globals[name]=(t,init,'external' in pre, mm.group(1)=='constant', 'internal' in pre or 'private' in pre, 'thread_local' in pre)
            i+=1; continue
        if L.startswith('declare'):
            m=re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(',L); mod.decls[m.group(1).strip('"')]=L; i+=1; continue
        if L.startswith('define'):
            f=Function()
            m=re.match(r'define (.*?)@("[^"]*"|[-a-zA-Z$._0-9]+)\((.*)$', L)
            pre=m.group(1); f.name=m.group(2).strip('"'); f.internal=bool(re.search(r'\b(internal|private|available_externally)\b',pre))
            f.available_ext='available_externally' in pre
            # return type = last type in pre
            pre2=re.sub(r'\b(dso_local|internal|private|available_externally|linkonce_odr|weak|noundef|signext|zeroext|noalias|nonnull|hidden|fastcc|noundef|local_unnamed_addr|align \d+)\b','',pre).strip()
            pre2=re.sub(r'dereferenceable\(\d+\)','',pre2)
            f.ret=P(tokenize(pre2),mod).type()
            md=re.search(r'!dbg !(\d+)', L)
            if md: f.line=int(md.group(1))
            toks=tokenize(re.sub(r'!dbg !\d+','',m.group(3))); p=P(toks,mod)
            while not p.eat(')'):
                if p.pk()=='...': p.nx(); f.vararg=True; continue
                t=p.type(); p.skip_attrs(); nm=None
                if p.kind()=='loc': nm=p.nx()[1:]
                f.params.append((t,nm)); p.eat(',')
            i+=1
            cur=None; npar=len(f.params)
            cont=''
            while lines[i]!='}':
                l=lines[i]; i+=1
                if not l.strip() or l.lstrip().startswith(';'): continue
                m=re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
                if m:
                    cur=Block(m.group(1).strip('"')); f.blocks[cur.name]=cur; f.order.append(cur.name); continue
                if cur is None:
                    cur=Block(str(npar)); f.blocks[cur.name]=cur; f.order.append(cur.name)
                l2=l.strip()
                if l2.startswith('switch'):
                    while ']' not in l2.split('[',1)[1]:
                        l2+=' '+lines[i].strip(); i+=1
                if l2.startswith('#dbg'): continue
                cur.instrs.append(parse_instr(l2,mod))
            f.entry=f.order[0]
            mod.funcs[f.name]=f; i+=1
            link_cfg(f); continue
        if L.startswith('!'):
            m=re.match(r'!(\d+) = .*?!?DILocation\(line: (\d+)', L)
            if m: mod.dbg[int(m.group(1))]=int(m.group(2))
            else:
                m=re.match(r'!(\d+) = distinct !DISubprogram\(.*?line: (\d+)', L)
                if m: mod.dbg[int(m.group(1))]=int(m.group(2))
        i+=1
    for f in mod.funcs.values():
        f.mod=mod
        for b in f.blocks.values():
            for I in b.instrs: I.line=mod.dbg.get(I.line)
    return mod

def link_cfg(f):
    for b in f.blocks.values():
        t=b.instrs[-1]
        if t.op=='br': b.succs=[t.args[0]]
        elif t.op=='cbr': b.succs=list(dict.fromkeys(t.extra))
        elif t.op=='switch': b.succs=list(dict.fromkeys([t.extra[0]]+[c[1] for c in t.extra[1]]))
        else: b.succs=[]
    for b in f.blocks.values():
        for s in b.succs: f.blocks[s].preds.append(b.name)
    # reverse postorder + dominators + natural loops
    seen=set(); po=[]
    st=[(f.order[0],iter(f.blocks[f.order[0]].succs))]; seen.add(f.order[0])
    while st:
        n,it=st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s,iter(f.blocks[s].succs))); break
        else:
            po.append(n); st.pop()
    rpo=po[::-1]; num={b:i for i,b in enumerate(rpo)}
    idom={rpo[0]:rpo[0]}
    ch=True
    while ch:
        ch=False
        for b in rpo[1:]:
            ps=[p for p in f.blocks[b].preds if p in idom]
            new=ps[0]
            for p in ps[1:]:
                a,c=new,p
                while a!=c:
                    while num[a]>num[c]: a=idom[a]
                    while num[c]>num[a]: c=idom[c]
                new=a
            if idom.get(b)!=new: idom[b]=new; ch=True
    f.rpo=rpo; f.num=num; f.idom=idom
    def dom(a,b):
        while True:
            if a==b: return True
            if b==idom[b]: return False
            b=idom[b]
    loops={}
    for b in rpo:
        for s in f.blocks[b].succs:
            if s in num and dom(s,b):
                body=loops.setdefault(s,{'header':s,'latches':[],'body':{s}})
                body['latches'].append(b)
                stk=[b]
                while stk:
                    x=stk.pop()
                    if x in body['body']: continue
                    body['body'].add(x); stk+= [p for p in f.blocks[x].preds if p in num]
    f.loops=loops
