"""Parser for textual LLVM-18 IR (opaque pointers).  Functions are parsed lazily."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s*(?:
  (?P<name>[%@](?:"(?:[^"])*"|[-\w.$]+))
 |(?P<cstr>c"[^"]*")
 |(?P<str>"[^"]*")
 |(?P<meta>![-\w.$]*(?:\([^)]*\))?)
 |(?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)
 |(?P<word>[A-Za-z_][\w.]*)
 |(?P<dots>\.\.\.)
 |(?P<hash>\#\d+)
 |(?P<comdat>\$(?:"[^"]*"|[-\w.$]+))
 |(?P<p>[\[\](){}<>,=*:|])
)''', re.X)

class ParseError(Exception): pass

def tokenize(s):
    out=[]; i=0; n=len(s)
    while i<n:
        m=TOK.match(s,i)
        if not m:
            if s[i:].strip()=='' : break
            if s[i:].lstrip().startswith(';'): break
            raise ParseError('tok: '+s[i:i+60])
        out.append((m.lastgroup,m.group(m.lastgroup)))
        i=m.end()
    return out

def unname(t):
    if len(t)>1 and t[1]=='"': return t[2:-1]
    return t[1:]

# ---- types -------------------------------------------------------------
# ('i',n) ('double',) ('float',) ('x86_fp80',) ('ptr',) ('void',) ('arr',n,t) ('vec',n,t)
# ('struct',(t..),packed) ('named',name) ('label',) ('metadata',) ('fn',)
PTR=('ptr',); DBL=('double',); VOID=('void',)

ATTRS=set('''noundef nonnull align dereferenceable dereferenceable_or_null nocapture readonly writeonly noalias
 signext zeroext returned inreg swiftself immarg readnone dead_on_unwind writable nofree nest allocalign allocptr
 dso_local local_unnamed_addr unnamed_addr internal external linkonce_odr linkonce weak weak_odr private available_externally
 hidden protected default tail musttail notail fastcc ccc coldcc constant global thread_local comdat
 nuw nsw exact inbounds disjoint nneg fast nnan ninf nsz arcp contract afn reassoc volatile atomic
 nofpclass range noreturn nounwind willreturn mustprogress allocsize inalloca preallocated common appending extern_weak
 nounwind dllimport captures initializes'''.split())

PATTRS=set('dereferenceable dereferenceable_or_null nofpclass allocsize thread_local range captures initializes comdat preallocated'.split())

class TS:
    """token stream"""
    def __init__(self,mod,toks): self.m=mod; self.t=toks; self.i=0
    def peek(self,k=0):
        j=self.i+k
        return self.t[j] if j<len(self.t) else (None,None)
    def next(self):
        x=self.t[self.i]; self.i+=1; return x
    def accept(self,v):
        if self.i<len(self.t) and self.t[self.i][1]==v: self.i+=1; return True
        return False
    def expect(self,v):
        if not self.accept(v): raise ParseError('expected %r at %r'%(v,self.t[self.i:self.i+8]))
    def done(self): return self.i>=len(self.t)
    def skip_attrs(self):
        """returns dict of interesting attributes"""
        r={}
        while True:
            k,v=self.peek()
            if k=='word' and v in ATTRS:
                self.next()
                if v=='align' and self.peek()[0]=='num': r['align']=int(self.next()[1])
                elif self.peek()[1]=='(' and v in PATTRS: self.skip_paren()
            elif k=='word' and v in('sret','byval','byref','elementtype'):
                self.next(); self.expect('('); ty=self.type(); self.expect(')'); r[v]=ty
            elif k=='hash' or (k=='str'):
                self.next()
                if self.accept('='): self.next()
            elif k=='word' and v in('memory','addrspace','allockind','denormal_fp_math'): self.next(); self.skip_paren()
            else: return r
    def skip_paren(self):
        self.expect('('); d=1
        while d:
            v=self.next()[1]
            if v=='(': d+=1
            elif v==')': d-=1
    def type(self):
        k,v=self.next()
        if k=='word':
            if v=='ptr':
                if self.peek()[1]=='addrspace': self.next(); self.skip_paren()
                t=PTR
            elif v[0]=='i' and v[1:].isdigit(): t=('i',int(v[1:]))
            elif v in('double','float','void','label','metadata','x86_fp80','half','token','fp128'): t=(v,)
            elif v=='opaque': t=('struct',(),False)
            else: raise ParseError('type '+v)
        elif k=='name': t=('named',unname(v))
        elif v=='[':
            n=int(self.next()[1]); self.expect('x'); e=self.type(); self.expect(']'); t=('arr',n,e)
        elif v=='<':
            if self.peek()[1]=='{':
                self.next(); t=self._struct(True); self.expect('>')
            else:
                n=int(self.next()[1]); self.expect('x'); e=self.type(); self.expect('>'); t=('vec',n,e)
        elif v=='{': t=self._struct(False)
        else: raise ParseError('type tok %r'%v)
        # function type  "ret (args)"
        if self.peek()[1]=='(' and self.peek(-1)[1]!=',':
            # only in call of varargs: ret (types...)
            save=self.i
            try:
                self.next(); args=[]; var=False
                while not self.accept(')'):
                    if self.accept('...'): var=True
                    else: args.append(self.type())
                    self.accept(',')
                return ('fn',t,tuple(args),var)
            except ParseError:
                self.i=save
        return t
    def _struct(self,packed):
        f=[]
        while not self.accept('}'):
            f.append(self.type()); self.accept(',')
        return ('struct',tuple(f),packed)
    # ---- constants/operands: returns operand
    def value(self,ty):
        k,v=self.next()
        if k=='name':
            return ('l',unname(v)) if v[0]=='%' else ('g',unname(v))
        if k=='num':
            if ty[0] in('double','float'): return ('c',float(v))
            return ('c',int(v))
        if k=='hex':
            if v.startswith('0xK') or v.startswith('0xL') or v.startswith('0xM') or v.startswith('0xH'): return ('c',float('nan'))
            if ty[0]=='double' or ty[0]=='float': return ('c',struct.unpack('>d',int(v,16).to_bytes(8,'big'))[0])
            return ('c',int(v,16))
        if k=='word':
            if v=='true': return ('c',1)
            if v=='false': return ('c',0)
            if v=='null': return ('null',)
            if v in('undef','poison'): return ('undef',)
            if v=='zeroinitializer': return ('zero',)
            if v=='none': return ('undef',)
            if v=='splat':
                self.expect('('); t=self.type(); e=self.value(t); self.expect(')'); return ('splat',e)
            if v=='getelementptr':
                self.skip_attrs(); self.expect('('); t=self.type(); self.expect(',')
                bt=self.type(); b=self.value(bt); idx=[]
                while self.accept(','):
                    self.accept('inrange')
                    it=self.type(); idx.append((it,self.value(it)))
                self.expect(')'); return ('gep',t,b,idx)
            if v in('ptrtoint','inttoptr','bitcast','trunc','zext','sext','addrspacecast'):
                self.expect('('); t=self.type(); x=self.value(t); self.expect('to'); t2=self.type(); self.expect(')')
                return ('cast',v,t,x,t2)
            if v in('add','sub','mul','and','or','xor','shl','lshr','ashr','sdiv','udiv'):
                self.skip_attrs(); self.expect('('); t=self.type(); a=self.value(t); self.expect(','); t2=self.type(); b=self.value(t2); self.expect(')')
                return ('bin',v,t,a,b)
            if v in('icmp',):
                pred=self.next()[1]; self.expect('('); t=self.type(); a=self.value(t); self.expect(','); t2=self.type(); b=self.value(t2); self.expect(')')
                return ('cicmp',pred,t,a,b)
            if v=='select':
                self.expect('('); t=self.type(); a=self.value(t); self.expect(','); t2=self.type(); b=self.value(t2); self.expect(','); t3=self.type(); c=self.value(t3); self.expect(')')
                return ('csel',a,b,c)
            if v in ('dso_local_equivalent','no_cfi'): return self.value(ty)
            raise ParseError('const '+v)
        if k=='cstr':
            s=v[2:-1]; b=bytearray(); i=0
            while i<len(s):
                if s[i]=='\\': b.append(int(s[i+1:i+3],16)); i+=3
                else: b.append(ord(s[i])); i+=1
            return ('bytes',bytes(b))
        if v=='[':
            e=[]
            while not self.accept(']'):
                t=self.type(); e.append((t,self.value(t))); self.accept(',')
            return ('agg',e)
        if v=='{':
            e=[]
            while not self.accept('}'):
                t=self.type(); e.append((t,self.value(t))); self.accept(',')
            return ('agg',e)
        if v=='<':
            if self.accept('{'):
                e=[]
                while not self.accept('}'):
                    t=self.type(); e.append((t,self.value(t))); self.accept(',')
                self.expect('>'); return ('agg',e)
            e=[]
            while not self.accept('>'):
                t=self.type(); e.append((t,self.value(t))); self.accept(',')
            return ('vecc',e)
        if k=='meta': return ('meta',)
        raise ParseError('value %r %r'%(k,v))

class Instr:
    __slots__=('op','res','ty','a','line')
    def __init__(self,op,res,ty,a,line): self.op=op; self.res=res; self.ty=ty; self.a=a; self.line=line
    def __repr__(self): return 'I(%s %s %s %s)'%(self.res,self.op,self.ty,self.a)

class Function:
    def __init__(self,mod,name,header,lines):
        self.mod=mod; self.name=name; self.lines=lines; self._parsed=False
        ts=TS(mod,tokenize(header)); ts.expect('define')
        ts.skip_attrs(); self.ret=ts.type(); ts.skip_attrs()
        k,v=ts.next(); assert unname(v)==name,(v,name)
        ts.expect('('); self.args=[]; self.vararg=False; n=0
        while not ts.accept(')'):
            if ts.accept('...'): self.vararg=True; continue
            t=ts.type(); at=ts.skip_attrs()
            k,v=ts.peek()
            if k=='name': nm=unname(ts.next()[1])
            else: nm=str(n)
            n+=1
            self.args.append((nm,t,at)); ts.accept(',')
        self.nargs=n
    def parse(self):
        if self._parsed: return
        self._parsed=True
        self.blocks={}; cur=None; self.order=[]
        lines=self.lines; i=0; first=True
        lab=re.compile(r'^(?:"([^"]*)"|([-\w.$]+)):')
        while i<len(lines):
            ln=lines[i]; i+=1
            s=ln.strip()
            if not s or s.startswith(';'): continue
            m=lab.match(ln)
            if m:
                cur=m.group(1) if m.group(1) is not None else m.group(2); self.blocks[cur]=[]; self.order.append(cur); first=False; continue
            if first:
                cur=str(self.nargs); self.blocks[cur]=[]; self.order.append(cur); first=False
            if s.startswith('switch ') and ']' not in s:
                while ']' not in lines[i]: s+=' '+lines[i].strip(); i+=1
                s+=' '+lines[i].strip(); i+=1
            if s.startswith('#dbg') : continue
            self.blocks[cur].append(s)
        self.entry=self.order[0]
        self.pblocks={}
    def block(self,label):
        b=self.pblocks.get(label)
        if b is None:
            b=[parse_instr(self.mod,s) for s in self.blocks[label]]
            self.pblocks[label]=b
        return b

BIN=set('fadd fsub fmul fdiv frem add sub mul udiv sdiv urem srem shl lshr ashr and or xor'.split())
CAST=set('zext sext trunc bitcast ptrtoint inttoptr sitofp uitofp fptosi fptoui fpext fptrunc addrspacecast'.split())

def parse_instr(mod,s):
    toks=tokenize(s)
    ts=TS(mod,toks); res=None
    if ts.peek()[0]=='name' and ts.peek(1)[1]=='=':
        res=unname(ts.next()[1]); ts.next()
    k,op=ts.next()
    while op in('tail','musttail','notail'): k,op=ts.next()
    if op in BIN:
        ts.skip_attrs(); t=ts.type(); a=ts.value(t); ts.expect(','); b=ts.value(t)
        return Instr(op,res,t,(a,b),s)
    if op=='fneg':
        ts.skip_attrs(); t=ts.type(); return Instr(op,res,t,(ts.value(t),),s)
    if op=='freeze':
        t=ts.type(); return Instr(op,res,t,(ts.value(t),),s)
    if op in CAST:
        ts.skip_attrs(); t=ts.type(); a=ts.value(t); ts.expect('to'); t2=ts.type()
        return Instr('cast',res,t2,(op,t,a),s)
    if op in('icmp','fcmp'):
        ts.skip_attrs(); pred=ts.next()[1]; t=ts.type(); a=ts.value(t); ts.expect(','); b=ts.value(t)
        return Instr(op,res,t,(pred,a,b),s)
    if op=='load':
        ts.skip_attrs(); t=ts.type(); ts.expect(','); pt=ts.type(); p=ts.value(pt)
        return Instr('load',res,t,(p,),s)
    if op=='store':
        ts.skip_attrs(); t=ts.type(); v=ts.value(t); ts.expect(','); pt=ts.type(); p=ts.value(pt)
        return Instr('store',None,t,(v,p),s)
    if op=='alloca':
        ts.skip_attrs(); t=ts.type(); n=('c',1)
        if ts.accept(','):
            if ts.peek()[1]!='align': nt=ts.type(); n=ts.value(nt)
        return Instr('alloca',res,t,(n,),s)
    if op=='getelementptr':
        ts.skip_attrs(); t=ts.type(); ts.expect(','); bt=ts.type(); b=ts.value(bt); idx=[]
        while ts.accept(','):
            if ts.peek()[0]=='meta': break
            it=ts.type(); idx.append((it,ts.value(it)))
        return Instr('gep',res,t,(b,idx,bt),s)
    if op=='br':
        if ts.accept('label'): return Instr('jmp',None,None,(unname(ts.next()[1]),),s)
        t=ts.type(); c=ts.value(t); ts.expect(','); ts.expect('label'); a=unname(ts.next()[1]); ts.expect(','); ts.expect('label'); b=unname(ts.next()[1])
        return Instr('br',None,None,(c,a,b),s)
    if op=='switch':
        t=ts.type(); v=ts.value(t); ts.expect(','); ts.expect('label'); d=unname(ts.next()[1]); ts.expect('['); cs=[]
        while not ts.accept(']'):
            ct=ts.type(); cv=ts.value(ct); ts.expect(','); ts.expect('label'); cs.append((cv[1],unname(ts.next()[1])))
        return Instr('switch',None,t,(v,d,cs),s)
    if op=='phi':
        ts.skip_attrs(); t=ts.type(); inc={}
        while True:
            ts.expect('['); v=ts.value(t); ts.expect(','); l=unname(ts.next()[1]); ts.expect(']'); inc[l]=v
            if not ts.accept(','): break
            if ts.peek()[1]!='[': break
        return Instr('phi',res,t,(inc,),s)
    if op=='select':
        ts.skip_attrs(); ct=ts.type(); c=ts.value(ct); ts.expect(','); t=ts.type(); a=ts.value(t); ts.expect(','); t2=ts.type(); b=ts.value(t2)
        return Instr('select',res,t,(c,a,b,ct),s)
    if op=='ret':
        t=ts.type()
        return Instr('ret',None,t,(ts.value(t) if t!=VOID else None,),s)
    if op in('call','invoke'):
        ts.skip_attrs(); t=ts.type(); ts.skip_attrs()
        if t[0]=='fn': rt=t[1]
        else: rt=t
        k,v=ts.next()
        if k=='name': callee=('l',unname(v)) if v[0]=='%' else ('g',unname(v))
        elif k=='word' and v=='asm':
            return Instr('asm',res,rt,(),s)
        else: raise ParseError('callee %r'%v)
        ts.expect('('); args=[]
        while not ts.accept(')'):
            at=ts.type()
            if at==('metadata',):
                # skip to , or )
                d=0
                while True:
                    kk,vv=ts.peek()
                    if d==0 and vv in(',',')'): break
                    if vv=='(': d+=1
                    if vv==')': d-=1
                    ts.next()
                ts.accept(','); args.append((at,('meta',),{})); continue
            an=ts.skip_attrs(); args.append((at,ts.value(at),an)); ts.accept(',')
        extra=()
        if op=='invoke':
            while not ts.accept('to'): ts.next()
            ts.expect('label'); n=unname(ts.next()[1]); extra=(n,)
        return Instr(op,res,rt,(callee,args)+extra,s)
    if op=='unreachable': return Instr(op,None,None,(),s)
    if op=='extractvalue':
        t=ts.type(); v=ts.value(t); idx=[]
        while ts.accept(','):
            if ts.peek()[0]!='num': break
            idx.append(int(ts.next()[1]))
        return Instr(op,res,t,(v,idx),s)
    if op=='insertvalue':
        t=ts.type(); v=ts.value(t); ts.expect(','); t2=ts.type(); e=ts.value(t2); idx=[]
        while ts.accept(','):
            if ts.peek()[0]!='num': break
            idx.append(int(ts.next()[1]))
        return Instr(op,res,t,(v,e,idx),s)
    if op=='extractelement':
        t=ts.type(); v=ts.value(t); ts.expect(','); it=ts.type(); i=ts.value(it)
        return Instr(op,res,t,(v,i),s)
    if op=='insertelement':
        t=ts.type(); v=ts.value(t); ts.expect(','); et=ts.type(); e=ts.value(et); ts.expect(','); it=ts.type(); i=ts.value(it)
        return Instr(op,res,t,(v,e,i),s)
    if op=='shufflevector':
        t=ts.type(); a=ts.value(t); ts.expect(','); t2=ts.type(); b=ts.value(t2); ts.expect(','); mt=ts.type(); m=ts.value(mt)
        return Instr(op,res,t,(a,b,mt,m),s)
    if op=='atomicrmw':
        ts.skip_attrs(); o=ts.next()[1]; pt=ts.type(); p=ts.value(pt); ts.expect(','); t=ts.type(); v=ts.value(t)
        return Instr(op,res,t,(o,p,v),s)
    if op=='fence': return Instr(op,None,None,(),s)
    return Instr('unsupported',res,None,(op,),s)

class Module:
    def __init__(self,text):
        self.types={}; self.globals={}; self.funcs={}; self.decls={}; self.aliases={}
        self._size={}; self._graw={}
        lines=text.split('\n'); i=0
        fre=re.compile(r'@("[^"]*"|[-\w.$]+)\s*\(')
        while i<len(lines):
            ln=lines[i]
            if ln.startswith('%'):
                m=re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = type (.*)$',ln)
                if m: self.types[unname(m.group(1))]=m.group(2)
            elif ln.startswith('@'):
                m=re.match(r'^(@(?:"[^"]*"|[-\w.$]+)) = (.*)$',ln)
                if m: self._graw[unname(m.group(1))]=m.group(2)
            elif ln.startswith('define'):
                m=fre.search(ln); nm=m.group(1); nm=nm[1:-1] if nm[0]=='"' else nm
                j=i+1
                while lines[j]!='}': j+=1
                hdr=ln
                self.funcs[nm]=(hdr,lines[i+1:j]); i=j
            elif ln.startswith('declare'):
                m=fre.search(ln); nm=m.group(1); nm=nm[1:-1] if nm[0]=='"' else nm
                self.decls[nm]=ln
            i+=1
        self._fcache={}; self._tcache={}
    def func(self,name):
        f=self._fcache.get(name)
        if f is None:
            r=self.funcs.get(name)
            if r is None: return None
            hdr,body=r
            # cut header at the trailing attributes
            f=Function(self,name,hdr,body); f.parse(); self._fcache[name]=f
        return f
    def glob(self,name):
        """(type, init operand or None, constant?)"""
        g=self.globals.get(name)
        if g is not None: return g
        raw=self._graw.get(name)
        if raw is None: return None
        ts=TS(self,tokenize(raw))
        ext=False; const=False; alias=False
        while True:
            k,v=ts.peek()
            if v=='alias': alias=True; ts.next(); break
            if v in('external','extern_weak'): ext=True
            if v=='constant': const=True; ts.next(); break
            if v=='global': ts.next(); break
            if v=='thread_local':
                ts.next()
                if ts.peek()[1]=='(' : ts.skip_paren()
                continue
            ts.next()
        if alias:
            t=ts.type(); ts.expect(','); pt=ts.type(); v=ts.value(pt)
            g=('alias',v); self.globals[name]=g; return g
        t=ts.type(); init=None
        if not ext and not ts.done() and ts.peek()[1]!=',': init=ts.value(t)
        g=(t,init,const); self.globals[name]=g; return g
    def resolve(self,t):
        if t[0]=='named':
            r=self._tcache.get(t[1])
            if r is None:
                r=TS(self,tokenize(self.types[t[1]])).type(); self._tcache[t[1]]=r
            return self.resolve(r)
        return t
    def sizealign(self,t):
        r=self._size.get(t)
        if r is not None: return r
        k=t[0]
        if k=='i':
            n=t[1]; b=(n+7)//8
            s=1
            while s<b: s*=2
            r=(s,min(s,16 if n>64 else 8))
        elif k=='double' or k=='ptr': r=(8,8)
        elif k=='float': r=(4,4)
        elif k=='half': r=(2,2)
        elif k in('x86_fp80','fp128'): r=(16,16)
        elif k=='arr':
            s,a=self.sizealign(t[2]); r=(s*t[1],a)
        elif k=='vec':
            s,a=self.sizealign(t[2]); r=(s*t[1],s*t[1])
        elif k=='struct':
            off=0; al=1
            for f in t[1]:
                s,a=self.sizealign(f)
                if t[2]: a=1
                off=(off+a-1)//a*a+s; al=max(al,a)
            r=((off+al-1)//al*al,al)
        elif k=='named': r=self.sizealign(self.resolve(t))
        elif k=='void' or k=='fn': r=(1,1)
        else: raise ParseError('size of %r'%(t,))
        self._size[t]=r; return r
    def field(self,t,i):
        t=self.resolve(t)
        off=0
        for j,f in enumerate(t[1]):
            s,a=self.sizealign(f)
            if t[2]: a=1
            off=(off+a-1)//a*a
            if j==i: return off,f
            off+=s
        raise ParseError('field')
