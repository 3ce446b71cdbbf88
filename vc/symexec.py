"""Symbolic executor for LLVM IR: the VC generator.  One call of `run` explores one path;
`explore` enumerates all feasible paths by re-execution with decision prefixes."""
import math, struct, re, time
from fractions import Fraction
import numpy as np
import llparse
from llparse import PTR
from terms import T, World, Unsupported

class PathAbort(Exception):
    """path ended abnormally (exception thrown, abort, unreachable)"""
class MemFault(Exception):
    """real undefined behaviour found on a feasible path (out of bounds, use after free, ...)"""
class Budget(Unsupported): pass

class Undef:
    def __repr__(self): return 'undef'
UNDEF=Undef()

class Obj:
    __slots__=('id','size','cells','name','alive','kind','base','lazy','ro','elem0')
    _n=0
    def __init__(self,size,name,kind='heap'):
        Obj._n+=1
        self.id=Obj._n; self.size=size; self.cells={}; self.name=name; self.alive=True; self.kind=kind
        self.base=(self.id+16)<<36; self.lazy=None; self.ro=False
    def __repr__(self): return 'Obj(%s#%d,%s)'%(self.name,self.id,self.size)
class FuncObj(Obj):
    __slots__=('fname',)
    def __init__(self,fname):
        Obj.__init__(self,1,'@'+fname,'func'); self.fname=fname

class Ptr:
    __slots__=('o','off')
    def __init__(self,o,off=0): self.o=o; self.off=off
    def __repr__(self): return '&%s+%s'%(self.o.name if self.o else 'null',self.off)
    def addr(self): return (self.o.base if self.o else 0)+self.off
NULL=Ptr(None,0)

class Cond:
    """symbolic boolean: op in  > >= < <= == !=  (T compared to 0) | and | or | not"""
    __slots__=('op','a','b')
    def __init__(self,op,a,b=None): self.op=op; self.a=a; self.b=b
    def neg(self):
        m={'>':'<=','<=':'>','<':'>=','>=':'<','==':'!=','!=':'=='}
        if self.op in m: return Cond(m[self.op],self.a)
        if self.op=='not': return self.a
        return Cond('not',self)
    def __repr__(self):
        return '%r %s 0'%(self.a,self.op) if self.op not in('and','or','not') else '%s(%r,%r)'%(self.op,self.a,self.b)

def isint(x): return isinstance(x,int)

class Machine:
    def __init__(self,mod,world,contracts=None,decider=None,max_steps=3000000):
        self.m=mod; self.w=world; self.contracts=contracts or {}
        self.decide_cb=decider
        self.globs={}; self.fobjs={}
        self.steps=0; self.max_steps=max_steps
        self.called={}       # functions executed -> count
        self.assumed={}      # contracts used at call sites -> count
        self.depth=0
        self.loop_hooks={}; self.objs=None; self.deadline=None
        self.divisors=[]
        self.exported={}
    # ---- memory ----------------------------------------------------------
    def alloc(self,size,name,kind='heap'):
        o=Obj(size,name,kind)
        if self.objs is not None: self.objs.append(o)
        return Ptr(o,0)
    def chk(self,p,size,what):
        if not isinstance(p,Ptr):
            if isint(p) and p==0: raise MemFault('%s through null'%what)
            raise Unsupported('%s through non pointer %r'%(what,p))
        o=p.o
        if o is None and isint(p.off) and 4096<=p.off<(1<<64)-4096: raise Unsupported('%s through an integer address'%what)
        if o is None: raise MemFault('%s through null+%s'%(what,p.off))
        if not o.alive: raise MemFault('%s of freed/dead object %s'%(what,o.name))
        if o.lazy is None and isint(p.off) and o.size is not None and isint(o.size) and (p.off<0 or p.off+size>o.size):
            raise MemFault('%s out of bounds: %s offset %s size %s'%(what,o,p.off,size))
    def store(self,p,size,val):
        self.chk(p,size,'store')
        o=p.o
        if o.ro: raise MemFault('store to constant')
        if o.kind=='abstract': return o.lazy.store(self,p,size,val)
        off=p.off
        if not isint(off):
            self.abstractify(o); return o.lazy.store(self,p,size,val)
        c=o.cells
        old=c.get(off)
        if old is not None and old[0]==size: c[off]=(size,val); return
        self.clear(o,off,size)
        c[off]=(size,val)
    def clear(self,o,off,size):
        """remove cells overlapping [off,off+size), splitting integer cells"""
        c=o.cells
        if len(c)==0: return
        if size<=64:
            rng=range(off-31,off+size)
            ks=[k for k in rng if k in c]
        else: ks=[k for k in c if k<off+size and k>off-32]
        for k in ks:
            s,v=c[k]
            if k+s<=off: continue
            del c[k]
            if k<off or k+s>off+size:
                # partial overlap: split in bytes
                if v is UNDEF: continue
                b=self.tobytes(v,s)
                for i in range(s):
                    if not (off<=k+i<off+size): c[k+i]=(1,b[i])
    def tobytes(self,v,s):
        if isint(v): return list((v%(1<<(8*s))).to_bytes(s,'little'))
        if isinstance(v,T) and v.op=='c' and s==8: return list(struct.pack('<d',float(v.args[0])))
        if isinstance(v,Ptr) and v.o is None: return list(v.off.to_bytes(s,'little'))
        raise Unsupported('partial overwrite of symbolic cell %r'%(v,))
    def abstractify(self,o): raise Unsupported('symbolic offset into '+o.name)
    def load(self,p,ty):
        k=ty[0]
        if k in('arr','struct','named','vec'):
            ty=self.m.resolve(ty)
            if ty[0]=='arr': es=self.m.sizealign(ty[2])[0]; return [self.load(Ptr(p.o,p.off+i*es),ty[2]) for i in range(ty[1])]
            if ty[0]=='vec': es=self.m.sizealign(ty[2])[0]; return [self.load(Ptr(p.o,p.off+i*es),ty[2]) for i in range(ty[1])]
            if ty[0]=='struct':
                r=[]
                for i in range(len(ty[1])):
                    off,ft=self.m.field(ty,i); r.append(self.load(Ptr(p.o,p.off+off),ft))
                return r
        size=(ty[1]+7)//8 if k=='i' else self.m.sizealign(ty)[0]
        self.chk(p,size,'load')
        o=p.o
        if o.kind=='abstract': return self.coerce(o.lazy.load(self,p,size,ty),ty)
        off=p.off
        if not isint(off):
            self.abstractify(o); return self.coerce(o.lazy.load(self,p,size,ty),ty)
        e=o.cells.get(off)
        if e is not None and e[0]==size: return self.coerce(e[1],ty)
        return self.coerce(self.load_slow(o,off,size),ty)
    def load_slow(self,o,off,size):
        out=[]; i=0
        c=o.cells
        if size==16:
            return (self.load_slow8(o,off),self.load_slow8(o,off+8))
        anyv=False
        while i<size:
            e=c.get(off+i)
            if e is not None and e[0]<=size-i:
                if e[1] is UNDEF: return UNDEF
                out+=self.tobytes(e[1],e[0]); i+=e[0]; anyv=True; continue
            found=False
            for k in range(off+i,off+i-32,-1):
                e=c.get(k)
                if e is not None:
                    if k+e[0]>off+i:
                        if e[1] is UNDEF: return UNDEF
                        b=self.tobytes(e[1],e[0]); n=min(e[0]-(off+i-k),size-i)
                        out+=b[off+i-k:off+i-k+n]; i+=n; found=True; anyv=True
                    break
            if not found:
                return UNDEF
        return int.from_bytes(bytes(out),'little')
    def load_slow8(self,o,off):
        e=o.cells.get(off)
        if e and e[0]==8: return e[1]
        return self.load_slow(o,off,8)
    def coerce(self,v,ty):
        k=ty[0]
        if k=='double':
            if isinstance(v,T): return v
            if isint(v):
                d=struct.unpack('<d',(v%(1<<64)).to_bytes(8,'little'))[0]
                if d!=d or d in (math.inf,-math.inf): return ('fp',d)
                return self.w.fconst(d)
            if v is UNDEF or (isinstance(v,tuple) and v[0]=='fp'): return v
            if isinstance(v,Ptr): raise Unsupported('pointer as double')
            return v
        if k=='ptr':
            if isint(v): return NULL if v==0 else Ptr(None,v)
            return v
        if k=='i':
            if isint(v): return v%(1<<ty[1])
            if isinstance(v,Ptr) and v.o is None and isint(v.off): return v.off
            if isinstance(v,T) and v.op=='c' and ty[1]==64:
                return int.from_bytes(struct.pack('<d',float(v.args[0])),'little')
            return v
        return v
    def memcpy(self,d,s,n):
        if isinstance(n,int) and n==0: return
        if not isint(n): raise Unsupported('memcpy with symbolic size')
        self.chk(d,n,'memcpy dst'); self.chk(s,n,'memcpy src')
        if s.o.kind=='abstract' or d.o.kind=='abstract':
            for i in range(0,n,8):
                self.store(Ptr(d.o,d.off+i),8,self.load(Ptr(s.o,s.off+i),('i',64)))
            return
        so,do=s.off,d.off
        src=s.o.cells
        cells=[]
        for k,(sz,v) in src.items():
            if k+sz<=so or k>=so+n: continue
            if k<so or k+sz>so+n:
                if v is UNDEF: continue
                b=self.tobytes(v,sz)
                for i in range(sz):
                    if so<=k+i<so+n: cells.append((k+i-so,1,b[i]))
            else: cells.append((k-so,sz,v))
        self.clear(d.o,do,n)
        if d.o.ro: raise MemFault('memcpy to constant')
        for k,sz,v in cells: d.o.cells[do+k]=(sz,v)
    def memset(self,d,b,n):
        if not isint(n): raise Unsupported('memset with symbolic size')
        if n==0: return
        self.chk(d,n,'memset')
        if d.o.kind=='abstract': raise Unsupported('memset abstract')
        self.clear(d.o,d.off,n)
        i=0; word=int.from_bytes(bytes([b])*8,'little')
        while i<n:
            if (d.off+i)%8==0 and n-i>=8: d.o.cells[d.off+i]=(8,word); i+=8
            elif (d.off+i)%4==0 and n-i>=4: d.o.cells[d.off+i]=(4,word&0xffffffff); i+=4
            else: d.o.cells[d.off+i]=(1,b); i+=1
    def storety(self,p,ty,v):
        k=ty[0]
        if k in('named','struct','arr','vec'):
            ty=self.m.resolve(ty)
            if v is UNDEF:
                return
            if ty[0] in('arr','vec'):
                es=self.m.sizealign(ty[2])[0]
                for i in range(ty[1]): self.storety(Ptr(p.o,p.off+i*es),ty[2],v[i])
            elif ty[0]=='struct':
                for i in range(len(ty[1])):
                    off,ft=self.m.field(ty,i); self.storety(Ptr(p.o,p.off+off),ft,v[i])
            return
        size=(ty[1]+7)//8 if k=='i' else self.m.sizealign(ty)[0]
        if isinstance(v,Cond): v=1 if self.decide(v) else 0
        self.store(p,size,v)
    # ---- globals ---------------------------------------------------------
    def gptr(self,name):
        g=self.globs.get(name)
        if g is not None: return g
        if name in self.m.funcs or name in self.m.decls:
            p=Ptr(FuncObj(name),0); self.globs[name]=p; return p
        gd=self.m.glob(name)
        if gd is None: raise Unsupported('global '+name)
        if gd[0]=='alias':
            p=self.cval(gd[1],PTR); self.globs[name]=p; return p
        ty,init,const=gd
        p=self.alloc(self.m.sizealign(ty)[0],'@'+name,'global'); self.globs[name]=p
        if init is not None: self.initconst(p,ty,init)
        elif name=='__libc_single_threaded': p.o.cells[0]=(1,1)
        p.o.ro=const
        return p
    def initconst(self,p,ty,c):
        ty=self.m.resolve(ty)
        if c[0]=='zero':
            self.memset(p,0,self.m.sizealign(ty)[0]); return
        if c[0]=='undef': return
        if c[0]=='bytes':
            for i,b in enumerate(c[1]): p.o.cells[p.off+i]=(1,b)
            return
        if c[0]=='agg' or c[0]=='vecc':
            for i,(t,e) in enumerate(c[1]):
                if ty[0]=='struct': off,ft=self.m.field(ty,i)
                else: off,ft=i*self.m.sizealign(ty[2])[0],ty[2]
                self.initconst(Ptr(p.o,p.off+off),t,e)
            return
        self.storety(p,ty,self.cval(c,ty))
    def cval(self,c,ty):
        k=c[0]
        if k=='c':
            v=c[1]
            if ty[0] in('double','float'):
                if isinstance(v,int): v=float(v)
                if v!=v or v in(math.inf,-math.inf): return ('fp',v)
                return self.w.fconst(v)
            if ty[0]=='i': return v%(1<<ty[1])
            return v
        if k=='null': return NULL
        if k=='g': return self.gptr(c[1])
        if k=='undef':
            return self.undefval(ty)
        if k=='zero': return self.zeroval(ty)
        if k=='gep':
            b=self.cval(c[2],PTR); return self.gep(c[1],b,[self.cval(x,t) for t,x in c[3]])
        if k=='cast':
            return self.cast(c[1],c[2],self.cval(c[3],c[2]),c[4])
        if k=='bin': return self.binop(c[1],c[2],self.cval(c[3],c[2]),self.cval(c[4],c[2]))
        if k in('agg','vecc'): return [self.cval(e,t) for t,e in c[1]]
        if k=='bytes': return list(c[1])
        if k=='splat':
            ty=self.m.resolve(ty); return [self.cval(c[1],ty[2])]*ty[1]
        if k=='cicmp': return self.icmp(c[1],c[2],self.cval(c[3],c[2]),self.cval(c[4],c[2]))
        raise Unsupported('constant %r'%(c,))
    def zeroval(self,ty):
        ty=self.m.resolve(ty)
        if ty[0]=='double': return self.w.zero
        if ty[0]=='ptr': return NULL
        if ty[0]=='i': return 0
        if ty[0] in('arr','vec'): return [self.zeroval(ty[2]) for _ in range(ty[1])]
        if ty[0]=='struct': return [self.zeroval(t) for t in ty[1]]
        return 0
    def undefval(self,ty):
        ty=self.m.resolve(ty)
        if ty[0] in('arr','vec'): return [UNDEF]*ty[1]
        if ty[0]=='struct': return [self.undefval(t) for t in ty[1]]
        return UNDEF
    def gep(self,ty,b,idx):
        off=0; cur=ty
        for n,i in enumerate(idx):
            if n==0: off=off+self.sx(i)*self.m.sizealign(ty)[0]; continue
            cur=self.m.resolve(cur)
            if cur[0]=='struct':
                o,cur=self.m.field(cur,i); off=off+o
            else:
                cur=cur[2]; off=off+self.sx(i)*self.m.sizealign(cur)[0]
        if not isinstance(b,Ptr):
            if isint(b): b=Ptr(None,b)
            else: raise Unsupported('gep on %r'%(b,))
        return Ptr(b.o,b.off+off)
    def sx(self,i):
        if isint(i):
            if i>>63: return i-(1<<64)
            return i
        if i is UNDEF: raise Unsupported('undef index')
        return i
    # ---- decisions -------------------------------------------------------
    def decide(self,c):
        if isint(c): return c!=0
        if isinstance(c,bool): return c
        if isinstance(c,Cond):
            if c.op=='and': return self.decide(c.a) and self.decide(c.b)
            if c.op=='or': return self.decide(c.a) or self.decide(c.b)
            if c.op=='not': return not self.decide(c.a)
            return self.decide_cb(c)
        if c is UNDEF: raise Unsupported('branch on undefined value')
        raise Unsupported('decide %r'%(c,))
    # ---- ops -------------------------------------------------------------
    def num(self,v):
        if isinstance(v,T): return v
        if v is UNDEF: raise Unsupported('arithmetic on undefined value')
        if isinstance(v,tuple) and v[0]=='fp': raise Unsupported('arithmetic on non-finite constant')
        raise Unsupported('double operand %r'%(v,))
    def fcmp(self,pred,a,b):
        if pred in('true','false'): return 1 if pred=='true' else 0
        fa=isinstance(a,tuple); fb=isinstance(b,tuple)
        if fa or fb:
            # comparison against inf/nan constants; symbolic values are finite reals
            av=a[1] if fa else 0.0; bv=b[1] if fb else 0.0
            if (fa and av!=av) or (fb and bv!=bv): return 1 if pred[0]=='u' else 0
            if pred=='ord': return 1
            if pred=='uno': return 0
            r={'gt':av>bv,'ge':av>=bv,'lt':av<bv,'le':av<=bv,'eq':av==bv,'ne':av!=bv}[pred[1:]]
            return 1 if r else 0
        a=self.num(a); b=self.num(b)
        if pred=='ord': return 1
        if pred=='uno': return 0
        if a.op=='sqrt' and b.op=='sqrt': a,b=a.args[0],b.args[0]
        d=self.w.sub(a,b)
        op={'gt':'>','ge':'>=','lt':'<','le':'<=','eq':'==','ne':'!='}[pred[1:]]
        c=self.w.as_const(d)
        if c is not None:
            r={'>':c>0,'>=':c>=0,'<':c<0,'<=':c<=0,'==':c==0,'!=':c!=0}[op]
            return 1 if r else 0
        return Cond(op,d)
    def icmp(self,pred,ty,a,b):
        if isinstance(a,list): return [self.icmp(pred,self.m.resolve(ty)[2],x,y) for x,y in zip(a,b)]
        if isinstance(a,Cond): a=1 if self.decide(a) else 0
        if isinstance(b,Cond): b=1 if self.decide(b) else 0
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if isint(a): a=Ptr(None,a)
            if isint(b): b=Ptr(None,b)
            if a is UNDEF or b is UNDEF: raise Unsupported('undef pointer compare')
            if a.o is b.o:
                x,y=a.off,b.off
                if isint(x) and isint(y):
                    if pred in('slt','ult'): return 1 if x<y else 0
                    if pred in('sgt','ugt'): return 1 if x>y else 0
                    if pred in('sle','ule'): return 1 if x<=y else 0
                    if pred in('sge','uge'): return 1 if x>=y else 0
                    return 1 if (x==y)==(pred=='eq') else 0
                return self.icmp_sym(pred,x,y,('i',64))
            if pred=='eq': return 0
            if pred=='ne': return 1
            if isint(a.off) and isint(b.off): x,y=a.addr(),b.addr()
            else: raise Unsupported('pointer order compare')
            return {'ult':x<y,'ugt':x>y,'ule':x<=y,'uge':x>=y}.get(pred,False)*1
        if isint(a) and isint(b):
            n=ty[1]
            if pred[0]=='s':
                if a>>(n-1): a-=1<<n
                if b>>(n-1): b-=1<<n
                pred='u'+pred[1:]
            return 1 if {'eq':a==b,'ne':a!=b,'ult':a<b,'ule':a<=b,'ugt':a>b,'uge':a>=b}[pred] else 0
        return self.icmp_sym(pred,a,b,ty)
    def icmp_sym(self,pred,a,b,ty=None):
        raise Unsupported('symbolic integer compare %r %r'%(a,b))
    def binop(self,op,ty,a,b):
        if isinstance(a,list):
            et=self.m.resolve(ty)[2]
            return [self.binop(op,et,x,y) for x,y in zip(a,b)]
        if op[0]=='f':
            if isinstance(a,tuple) or isinstance(b,tuple): raise Unsupported('arithmetic on non-finite constant')
            a=self.num(a); b=self.num(b)
            if op=='fadd': return self.w.add(a,b)
            if op=='fsub': return self.w.sub(a,b)
            if op=='fmul': return self.w.mul(a,b)
            if op=='fdiv':
                if b.op!='c': self.divisors.append(b)
                return self.w.div(a,b)
            if op=='frem':
                return self.fmod(a,b)
        n=ty[1]
        if isinstance(a,Cond) or isinstance(b,Cond):
            if n==1:
                if op=='and':
                    if isint(a): return b if a else 0
                    if isint(b): return a if b else 0
                    return Cond('and',a,b)
                if op=='or':
                    if isint(a): return 1 if a else b
                    if isint(b): return 1 if b else a
                    return Cond('or',a,b)
                if op=='xor':
                    if isint(b): return a.neg() if b else a
                    if isint(a): return b.neg() if a else b
            if isinstance(a,Cond): a=1 if self.decide(a) else 0
            if isinstance(b,Cond): b=1 if self.decide(b) else 0
        if isint(a) and isint(b):
            M=1<<n
            if op=='add': return (a+b)%M
            if op=='sub': return (a-b)%M
            if op=='mul': return (a*b)%M
            if op=='and': return a&b
            if op=='or': return a|b
            if op=='xor': return a^b
            if op=='shl': return (a<<b)%M if b<n else 0
            if op=='lshr': return a>>b if b<n else 0
            sa=a-M if a>>(n-1) else a; sb=b-M if b>>(n-1) else b
            if op=='ashr': return (sa>>min(b,n-1))%M
            if op=='udiv':
                if b==0: raise MemFault('division by zero')
                return a//b
            if op=='urem':
                if b==0: raise MemFault('division by zero')
                return a%b
            if op=='sdiv':
                if b==0: raise MemFault('division by zero')
                return int(abs(sa)//abs(sb)*(1 if (sa<0)==(sb<0) else -1))%M
            if op=='srem':
                if b==0: raise MemFault('division by zero')
                r=abs(sa)%abs(sb); return (-r if sa<0 else r)%M
        if isinstance(a,Ptr) or isinstance(b,Ptr):
            if op=='sub' and isinstance(a,Ptr) and isinstance(b,Ptr):
                if a.o is b.o:
                    d=a.off-b.off
                    return d%(1<<n) if isint(d) else d
                return (a.addr()-b.addr())%(1<<n)
            if op=='add' and isinstance(a,Ptr): return Ptr(a.o,a.off+self.sx(b))
            if op=='add': return Ptr(b.o,b.off+self.sx(a))
            if op=='sub' and isinstance(a,Ptr): return Ptr(a.o,a.off-self.sx(b))
            if op=='and' and isint(b):
                if b<4096: return a.addr()&b
                if b==(1<<64)-16 or b==(1<<64)-8 or b==(1<<64)-32:   # align down
                    k=(~b)&((1<<64)-1); return Ptr(a.o,a.off-(a.addr()&k))
            if op in('or',) and isint(b) and b<16: return Ptr(a.o,a.off+b)
            if op in('lshr','urem','mul','xor','and','ashr','shl','udiv'):
                x=a.addr() if isinstance(a,Ptr) else a; y=b.addr() if isinstance(b,Ptr) else b
                return self.binop(op,ty,x,y)
            raise Unsupported('pointer op '+op)
        if a is UNDEF or b is UNDEF:
            if op in('and',) and (a==0 or b==0): return 0
            return UNDEF
        return self.binop_sym(op,ty,a,b)
    def binop_sym(self,op,ty,a,b):
        if op=='xor' and isinstance(a,T) and b==1<<63: return -a
        if op=='and' and isinstance(a,T) and b==(1<<63)-1: return self.fabs(a)
        raise Unsupported('symbolic integer op %s %r %r'%(op,a,b))
    def fabs(self,t):
        c=self.w.as_const(t)
        if c is not None: return self.w.const(abs(c))
        return self.w.abs(t)
    def fmod(self,a,b):
        # C fmod(a, 2 pi): same sign as a, congruent modulo 2 pi, magnitude below 2 pi
        q=self.w.as_const(self.w.div(b,self.w.pi))
        if q!=2: raise Unsupported('fmod by %r'%(b,))
        r=self.w.wrap(a)
        if self.w.as_const(r)==0: return r
        if self.decide(Cond('>=',a)): return r if self.decide(Cond('>=',r)) else r+b
        return r if self.decide(Cond('<=',r)) else r-b
    def cast(self,op,t1,v,t2):
        if isinstance(v,list):
            e1=self.m.resolve(t1); e2=self.m.resolve(t2)
            if op=='bitcast': raise Unsupported('vector bitcast')
            return [self.cast(op,e1[2],x,e2[2]) for x in v]
        if v is UNDEF: return UNDEF
        if op=='zext':
            if isinstance(v,Cond): return 1 if self.decide(v) else 0
            return v
        if op=='sext':
            if isinstance(v,Cond): v=1 if self.decide(v) else 0
            if isint(v):
                n=t1[1]
                if v>>(n-1): v-=1<<n
                return v%(1<<t2[1])
            return v
        if op=='trunc':
            if isinstance(v,Cond): return v
            if isint(v): return v%(1<<t2[1])
            if isinstance(v,Ptr): return v.addr()%(1<<t2[1])
            return self.trunc_sym(v,t1,t2)
        if op in('ptrtoint','inttoptr','addrspacecast'):
            if op=='inttoptr' and isint(v): return NULL if v==0 else Ptr(None,v)
            if op=='ptrtoint' and isinstance(v,Ptr) and v.o is None and isint(v.off): return v.off
            return v
        if op=='bitcast':
            return self.coerce(v,t2)
        if op in('uitofp','sitofp'):
            if isinstance(v,Cond): v=1 if self.decide(v) else 0
            if isint(v):
                n=t1[1]
                if op=='sitofp' and v>>(n-1): v-=1<<n
                return self.w.const(v)
            return self.itof(v)
        if op in('fptosi','fptoui'):
            c=self.w.as_const(self.num(v))
            if c is None: c=self.w.num_const(self.num(v))
            if c is None: raise Unsupported('symbolic fp to int')
            return int(c)%(1<<t2[1])
        if op in('fpext','fptrunc'): return v
        raise Unsupported('cast '+op)
    def trunc_sym(self,v,t1,t2): raise Unsupported('trunc %r'%(v,))
    def itof(self,v): raise Unsupported('itof %r'%(v,))
    # ---- calls -----------------------------------------------------------
    def call(self,name,args):
        h=self.contracts.get(name)
        if h is not None:
            r=h(self,args)
            if r is not NotImplemented:
                self.assumed[name]=self.assumed.get(name,0)+1
                return r
        r=self.builtin(name,args)
        if r is not NotImplemented: return r
        f=self.m.func(name)
        if f is None:
            gd=self.m.glob(name) if name in self.m._graw else None
            if gd and gd[0]=='alias':
                p=self.gptr(name)
                if isinstance(p.o,FuncObj): return self.call(p.o.fname,args)
            raise Unsupported('external function '+name)
        self.called[name]=self.called.get(name,0)+1
        return self.exec_fn(f,args)
    def exec_fn(self,f,args):
        self.depth+=1
        if self.depth>200: raise Unsupported('call depth')
        regs={}; allocas=[]
        for (nm,t,at),v in zip(f.args,args):
            if 'byval' in at:
                sz=self.m.sizealign(at['byval'])[0]; q=self.alloc(sz,'byval','stack'); self.memcpy(q,v,sz); v=q
            regs[nm]=v
        try: return self.run_blocks(f,f.entry,None,regs,allocas)
        finally:
            self.depth-=1
            for p in allocas: p.o.alive=False
    def enter(self,f,label,prev,regs,allocas): return None
    def symbr(self,f,label,c,a,region): return self.decide(c)
    def run_blocks(self,f,label,prev,regs,allocas,region=None,phis=None):
        """execute from block `label`; with a region, return ('back',from) when its header is reached again and ('exit',from,to) when control leaves it"""
        m=self.m
        def val(o,ty):
            k=o[0]
            if k=='l':
                return regs[o[1]]
            return self.cval(o,ty)
        I=None
        try:
          while True:
            if region is not None and prev in region.loop and phis is None:
                if label==region.header: return ('back',prev)
                if label not in region.loop: return ('exit',prev,label)
            blk=f.block(label)
            if phis is None:
                r=self.enter(f,label,prev,regs,allocas)
                if r is not None: phis=r
            hook=self.loop_hooks.get((f.name,label))
            if hook is not None:
                r=hook(self,f,label,prev,regs)
                if r is not None:
                    label,prev=r; continue
            # phis first
            i=0; n=len(blk)
            if phis is not None:
                while blk[i].op=='phi': regs[blk[i].res]=phis[blk[i].res]; i+=1
                phis=None
            elif n and blk[0].op=='phi':
                vals=[]
                while blk[i].op=='phi':
                    I=blk[i]; vals.append((I.res,val(I.a[0][prev],I.ty))); i+=1
                for k,v in vals: regs[k]=v
            while True:
                I=blk[i]; i+=1
                self.steps+=1
                if self.steps>self.max_steps: raise Budget('step budget')
                if not self.steps&1023 and self.deadline and time.time()>self.deadline: raise Budget('time budget')
                op=I.op; a=I.a
                if op=='load': regs[I.res]=self.load(val(a[0],PTR),I.ty)
                elif op=='store': self.storety(val(a[1],PTR),I.ty,val(a[0],I.ty))
                elif op=='gep': 
                    if a[2][0]=='vec': raise Unsupported('vector gep')
                    regs[I.res]=self.gep(I.ty,val(a[0],PTR),[val(x,t) for t,x in a[1]])
                elif op in llparse.BIN: regs[I.res]=self.binop(op,I.ty,val(a[0],I.ty),val(a[1],I.ty))
                elif op=='fneg':
                    v=val(a[0],I.ty); regs[I.res]=[-x for x in v] if isinstance(v,list) else -self.num(v)
                elif op=='call' or op=='invoke':
                    c=a[0]
                    if c[0]=='l':
                        fp=regs[c[1]]
                        if not (isinstance(fp,Ptr) and isinstance(fp.o,FuncObj)):
                            r=self.indirect(fp,[val(x[1],x[0]) for x in a[1]],I)
                            if I.res is not None: regs[I.res]=r
                            continue
                        nm=fp.o.fname
                    else: nm=c[1]
                    if nm.startswith('llvm.'):
                        r=self.intrinsic(nm,[val(x[1],x[0]) for x in a[1] if x[0]!=('metadata',)],I)
                    else:
                        r=self.call(nm,[val(x[1],x[0]) for x in a[1]])
                    if I.res is not None: regs[I.res]=r
                    if op=='invoke': prev=label; label=a[2]; break
                elif op=='br':
                    c=val(a[0],('i',1))
                    prev,label=label,(a[1] if (self.decide(c) if isint(c) else self.symbr(f,label,c,a,region)) else a[2]); break
                elif op=='jmp': prev,label=label,a[0]; break
                elif op=='ret':
                    return val(a[0],I.ty) if a[0] is not None else None
                elif op=='icmp':
                    t=I.ty; regs[I.res]=self.icmp(a[0],m.resolve(t) if t[0]=='named' else t,val(a[1],t),val(a[2],t))
                elif op=='fcmp': regs[I.res]=self.fcmp(a[0],val(a[1],I.ty),val(a[2],I.ty))
                elif op=='select':
                    c=val(a[0],a[3])
                    if isinstance(c,list):
                        x=val(a[1],I.ty); y=val(a[2],I.ty); regs[I.res]=[p if self.decide(k) else q for k,p,q in zip(c,x,y)]
                    elif isinstance(c,Cond) and I.ty==('i',1):
                        x=val(a[1],I.ty); y=val(a[2],I.ty)
                        if isint(y) and y==0: regs[I.res]=self.binop('and',I.ty,c,x)
                        elif isint(x) and x==1: regs[I.res]=self.binop('or',I.ty,c,y)
                        else: regs[I.res]=x if self.decide(c) else y
                    else: regs[I.res]=val(a[1],I.ty) if self.decide(c) else val(a[2],I.ty)
                elif op=='cast': regs[I.res]=self.cast(a[0],a[1],val(a[2],a[1]),I.ty)
                elif op=='alloca':
                    cnt=val(a[0],('i',64)); sz=m.sizealign(I.ty)[0]*cnt
                    p=self.alloc(sz,f.name[-20:]+'%'+str(I.res),'stack'); allocas.append(p); regs[I.res]=p
                elif op=='freeze': 
                    v=val(a[0],I.ty); regs[I.res]=v
                elif op=='switch':
                    v=val(a[0],I.ty); t=a[1]
                    if not isint(v): v=self.concretize(v)
                    for cv,cl in a[2]:
                        if cv%(1<<I.ty[1])==v: t=cl; break
                    prev,label=label,t; break
                elif op=='extractvalue':
                    v=val(a[0],I.ty)
                    for k in a[1]: v=v[k]
                    regs[I.res]=v
                elif op=='insertvalue':
                    v=val(a[0],I.ty); regs[I.res]=self.insval(v,a[2],a[1],I.ty,val)
                elif op=='extractelement':
                    regs[I.res]=val(a[0],I.ty)[val(a[1],('i',64))]
                elif op=='insertelement':
                    v=list(val(a[0],I.ty)); v[val(a[2],('i',64))]=val(a[1],m.resolve(I.ty)[2]); regs[I.res]=v
                elif op=='shufflevector':
                    x=list(val(a[0],I.ty))+list(val(a[1],I.ty)); mk=val(a[3],a[2])
                    regs[I.res]=[x[k] if isint(k) else UNDEF for k in mk]
                elif op=='atomicrmw':
                    p=val(a[1],PTR); old=self.load(p,I.ty); v=val(a[2],I.ty)
                    nv={'add':'add','sub':'sub','and':'and','or':'or'}.get(a[0])
                    new=v if a[0]=='xchg' else self.binop(nv,I.ty,old,v)
                    self.storety(p,I.ty,new); regs[I.res]=old
                elif op=='fence': pass
                elif op=='unreachable': raise PathAbort('unreachable')
                else: raise Unsupported('instr '+op+' '+I.line[:80])
        except (Unsupported,MemFault) as e:
            if not getattr(e,'at',None): e.at=(f.name,label,I.line[:200] if I else ''); e.args=("%s [in %s: %s]"%(e,f.name[:90],I.op if I else label),)
            if __import__("os").environ.get("VC_TB"): print(f.name,label,I and I.line,{k:v for k,v in list(regs.items())[-90:]})
            raise
    def concretize(self,v): raise Unsupported('switch on symbolic')
    def indirect(self,fp,args,I): raise Unsupported('indirect call %r'%(fp,))
    def insval(self,v,idx,e,ty,val):
        ty=self.m.resolve(ty)
        v=list(v)
        et=ty[1][idx[0]] if ty[0]=='struct' else ty[2]
        if len(idx)==1: v[idx[0]]=val(e,et)
        else: v[idx[0]]=self.insval(v[idx[0]],idx[1:],e,et,val)
        return v
    def intrinsic(self,nm,args,I):
        w=self.w
        if nm.startswith(('llvm.lifetime','llvm.experimental.noalias','llvm.assume','llvm.dbg','llvm.invariant','llvm.stackrestore','llvm.prefetch','llvm.donothing')): return None
        if nm.startswith('llvm.stacksave'): return NULL
        if nm.startswith(('llvm.memcpy','llvm.memmove')): self.memcpy(args[0],args[1],args[2]); return None
        if nm.startswith('llvm.memset'): self.memset(args[0],args[1],args[2]); return None
        base=nm.split('.')[1]
        if base in('sqrt','sin','cos','fabs','fmuladd','fma','minnum','maxnum','pow','exp','log','floor','ceil','copysign','rint','round','trunc','nearbyint','exp2','is'):
            if isinstance(args[0],list): 
                return [self.intrinsic(nm,[(x[i] if isinstance(x,list) else x) for x in args],I) for i in range(len(args[0]))]
            if base=='is':   # is.fpclass
                return 0 if args[1]&3 or args[1]&0x204 else 1
            if base=='fmuladd' or base=='fma': return w.add(w.mul(self.num(args[0]),self.num(args[1])),self.num(args[2]))
            return self.mathfn(base,args)
        if base in('smax','smin','umax','umin'):
            t=I.ty
            p={'smax':'sgt','smin':'slt','umax':'ugt','umin':'ult'}[base]
            return args[0] if self.decide(self.icmp(p,t,args[0],args[1])) else args[1]
        if base=='abs':
            return args[0] if self.decide(self.icmp('sge',I.ty,args[0],0)) else self.binop('sub',I.ty,0,args[0])
        if base in('uadd','usub','umul','sadd','ssub','smul') and 'with.overflow' in nm:
            t=I.ty[1][0] if I.ty[0]=='struct' else ('i',64); n=t[1]
            o={'add':'add','sub':'sub','mul':'mul'}[base[1:]]
            r=self.binop(o,t,args[0],args[1])
            if isint(args[0]) and isint(args[1]):
                if base[0]=='u': full={'add':args[0]+args[1],'sub':args[0]-args[1],'mul':args[0]*args[1]}[o]; ov=0 if 0<=full<(1<<n) else 1
                else:
                    s=lambda x:x-(1<<n) if x>>(n-1) else x
                    full={'add':s(args[0])+s(args[1]),'sub':s(args[0])-s(args[1]),'mul':s(args[0])*s(args[1])}[o]; ov=0 if -(1<<(n-1))<=full<(1<<(n-1)) else 1
                return [r,ov]
            return [r,0]
        if base in('usub','uadd','ssub','sadd'): raise Unsupported(nm)
        if base in('ctlz','cttz','ctpop'):
            n=I.ty[1]; x=args[0]
            if not isint(x): raise Unsupported(nm)
            if base=='ctpop': return bin(x).count('1')
            if base=='ctlz': return n-x.bit_length()
            return (x&-x).bit_length()-1 if x else n
        if base in('fshl','fshr') and all(isint(x) for x in args):
            n=I.ty[1]; x=(args[0]<<n)|args[1]; s=args[2]%n
            return ((x<<s)>>n)%(1<<n) if base=='fshl' else (x>>s)%(1<<n)
        if base=='bswap': raise Unsupported(nm)
        if base=='expect': return args[0]
        if base=='objectsize': return (1<<64)-1
        if base=='vector' and 'reduce' in nm:
            k=nm.split('.')[3]; v=args[-1]
            if k in('fadd','fmul'):
                r=self.num(args[0])
                for x in v: r=r+x if k=='fadd' else r*x
                return r
            r=v[0]
            for x in v[1:]: r=self.binop(k,('i',64),r,x)
            return r
        if base=='trap': raise PathAbort('trap')
        if base=='eh': return 0
        raise Unsupported('intrinsic '+nm)
    def mathfn(self,b,args):
        w=self.w; a=[self.num(x) for x in args]
        if b=='sqrt': return w.sqrt(a[0])
        if b=='sin': return w.sin(a[0])
        if b=='cos': return w.cos(a[0])
        if b=='fabs': return self.fabs(a[0])
        if b in('acos',): return w.acos(a[0])
        if b in('atan2',): return w.atan2(a[0],a[1])
        if b in('minnum','fmin'): return a[0] if self.decide(self.fcmp('ole',a[0],a[1])) else a[1]
        if b in('maxnum','fmax'): return a[0] if self.decide(self.fcmp('oge',a[0],a[1])) else a[1]
        if b=='pow':
            c=w.as_const(a[1])
            if c is not None and c.denominator==1 and 0<=c<=8: return a[0]**int(c)
            if c==Fraction(1,2): return w.sqrt(a[0])
        if b=='fmod': return self.fmod(a[0],a[1])
        if b=='copysign':
            m=self.fabs(a[0]); return m if self.decide(self.fcmp('oge',a[1],w.zero)) else -m
        return self.mathfn_ext(b,a)
    def mathfn_ext(self,b,a):
        if b=='hypot': return self.w.sqrt(a[0]*a[0]+a[1]*a[1])
        nm=b.upper()
        fn={'floor':np.floor,'ceil':np.ceil,'rint':np.rint,'round':lambda x:np.sign(x)*np.floor(np.abs(x)+.5),'nearbyint':np.rint,'trunc':np.trunc,'exp':np.exp,'log':np.log,'asin':np.arcsin,'tan':np.tan,'atan':np.arctan,
            'pow':np.power,'fmod':np.fmod,'remainder':lambda x,y:x-y*np.rint(x/y)}.get(b)
        if fn is None: raise Unsupported('math '+b)
        def f(*x):
            with np.errstate(all='ignore'): return [fn(*x)]
        return self.w.uf(nm,a,1,f)[0]
    def builtin(self,name,args):
        b=BUILTIN.get(name)
        if b is not None: return b(self,args)
        if name.startswith(('_ZNSo','_ZStls','_ZNSt8ios_base','_ZSt4endl','_ZSt16__ostream_insert','_ZSt5flush','_ZNSt9basic_ios','_ZNKSt9basic_ios','_ZNSolsE','_ZNSt7__cxx1112basic_string','_ZNKSt5ctypeIcE','_ZSt16__throw_bad_cast','_ZN5EigenlsI')):
            if name.startswith('_ZSt16__throw_bad_cast'): raise PathAbort('bad_cast')
            return args[0] if args else None
        if '__throw_' in name or name in('abort','_ZSt9terminatev','__cxa_throw','__assert_fail','__cxa_pure_virtual'):
            raise PathAbort('throw '+name)
        return NotImplemented

def _malloc(m,a):
    return m.alloc(a[0],'heap','heap')
def _free(m,a):
    p=a[0]
    if isinstance(p,Ptr) and p.o is not None:
        if not p.o.alive: raise MemFault('double free')
        if p.off!=0: raise MemFault('free of interior pointer')
        p.o.alive=False
    return None
def _math(n): return lambda m,a: m.mathfn(n,a)
def _realloc(m,a):
    p,n=a
    q=m.alloc(n,'heap','heap')
    if p.o is not None:
        m.memcpy(q,p,min(n,p.o.size)); p.o.alive=False
    return q
def _memmove(m,a): m.memcpy(a[0],a[1],a[2]); return a[0]
def _memset(m,a): m.memset(a[0],a[1]&255,a[2]); return a[0]
def _strlen(m,a):
    n=0
    while m.load(Ptr(a[0].o,a[0].off+n),('i',8))!=0: n+=1
    return n
PRIMES=[2,5,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,103,109,113,127,137,139,149,157,167,179,193,199,211,227,241,257]
def _need_rehash(m,a):
    # std::__detail::_Prime_rehash_policy::_M_need_rehash(n_bkt,n_elt,n_ins) -> {i1/i8,i64}
    n_bkt,n_elt,n_ins=a[1],a[2],a[3]
    if n_elt+n_ins>n_bkt or n_bkt==1:
        want=max(n_elt+n_ins+1,n_bkt*2 if n_bkt>1 else 11)
        for p in PRIMES:
            if p>=want: break
        return [1,p]
    return [0,0]
def _next_bkt(m,a):
    for p in PRIMES:
        if p>=a[1]: return p
    return PRIMES[-1]
def _noop(m,a): return None
def _strcreate(m,a): return m.alloc(m.load(a[1],('i',64))+1,'string','heap')
BUILTIN={'_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE9_M_createERmm':_strcreate,'malloc':_malloc,'_Znwm':_malloc,'_Znam':_malloc,'_ZnwmSt11align_val_t':_malloc,'free':_free,'_ZdlPv':_free,'_ZdlPvm':_free,'_ZdaPv':_free,'_ZdaPvm':_free,'_ZdlPvmSt11align_val_t':_free,'_ZdlPvSt11align_val_t':_free,
 'realloc':_realloc,'memcpy':_memmove,'memmove':_memmove,'memset':_memset,'strlen':_strlen,
 'calloc':lambda m,a:(lambda p:(m.memset(p,0,a[0]*a[1]),p)[1])(_malloc(m,[a[0]*a[1]])),
 'aligned_alloc':lambda m,a:_malloc(m,[a[1]]),
 '__cxa_atexit':lambda m,a:0,'__cxa_guard_acquire':lambda m,a:1,'__cxa_guard_release':_noop,
 '_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm':_need_rehash,'_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm':_next_bkt,
 '_ZNKSt8__detail20_Prime_rehash_policy14_M_bkt_for_elementsEm':lambda m,a:a[1]}
for _n in 'sqrt sin cos acos asin atan2 fabs fmod floor ceil pow hypot exp log tan atan fmin fmax remainder round rint nearbyint trunc copysign'.split(): BUILTIN[_n]=_math(_n)
