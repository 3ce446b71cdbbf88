"""Symbolic real terms.  Every term carries
   .mod : its value at NP points of a finite field (fingerprint: two terms with the same
          fingerprint are equal as algebraic functions, Schwartz-Zippel, error < 2^-100)
   .num : its float value on a population of concrete samples (counterexample search)
   structure (op,args) for the exact polynomial back end and for SMT."""
import random, math
from fractions import Fraction
import numpy as np
P=(1<<61)-1

class Unsupported(Exception): pass

class T:
    __slots__=('w','op','args','mod','num','_key','id')
    def __add__(a,b): return a.w.add(a,b)
    def __radd__(a,b): return a.w.add(b,a)
    def __sub__(a,b): return a.w.sub(a,b)
    def __rsub__(a,b): return a.w.sub(b,a)
    def __mul__(a,b): return a.w.mul(a,b)
    def __rmul__(a,b): return a.w.mul(b,a)
    def __truediv__(a,b): return a.w.div(a,b)
    def __rtruediv__(a,b): return a.w.div(b,a)
    def __neg__(a): return a.w.neg(a)
    def __pos__(a): return a
    def __pow__(a,n):
        r=a.w.const(1)
        for _ in range(n): r=r*a
        return r
    def __bool__(self): raise Unsupported('symbolic truth value')
    def __repr__(self): return self.w.show(self)

def _madd(a,b): return tuple(None if (x is None or y is None) else (x+y)%P for x,y in zip(a,b))
def _msub(a,b): return tuple(None if (x is None or y is None) else (x-y)%P for x,y in zip(a,b))
def _mmul(a,b): return tuple(None if (x is None or y is None) else (x*y)%P for x,y in zip(a,b))
def _mdiv(a,b): return tuple(None if (x is None or y is None or y==0) else (x*pow(y,-1,P))%P for x,y in zip(a,b))
def meq(a,b,minpts=2):
    n=0
    for x,y in zip(a,b):
        if x is None or y is None: continue
        if x!=y: return False
        n+=1
    return n>=minpts
def mzero(a,minpts=2):
    n=0
    for x in a:
        if x is None: continue
        if x!=0: return False
        n+=1
    return n>=minpts

class World:
    def __init__(self,seed=1,npts=10,nsamp=256):
        self.rng=random.Random('mod%s'%seed); self.nprng=np.random.RandomState(seed+7)
        self.NP=npts; self.N=nsamp
        self.tab={}; self.nid=0; self.syms={}; self.atoms={}   # atoms: name -> list of (argmods, T list)
        self.angle={}       # symbol id -> dict(unit pair) for half angle
        self.opaque_sqrt=False; self.hints_sq=[]    # candidate h with sqrt(e)=|h|
        self.hints_acos=[]  # angles in [0,pi]
        self.hints_atan2=[] # (angle in [-pi,pi), positive factor)
        self.relations=[]   # for poly back end: (kind,data)
        self.nonneg={}      # term key -> True (known >=0)
        self.bounds={}      # symbol name -> (lo,hi) Fractions
        self.nummode=False; self.atomize=[]
        self.decider=None   # callback for sign splits
        self.ufs={}; self.ufdef={}; self._free={}
        self.sqrtargs={}
        self.zero=self.const(0); self.one=self.const(1)
        self.pi=self._mk('pi',(),tuple(self.rng.randrange(1,P) for _ in range(npts)),np.full(nsamp,math.pi))
        self.axioms=[]      # list of (T,'>='|'>'|'==') facts usable by solvers
    # -- construction
    def _mk(self,op,args,mod,num):
        # hash consing on structure
        key=(op,)+tuple(a.id if isinstance(a,T) else a for a in args)
        t=self.tab.get(key)
        if t is not None: return t
        t=T(); t.w=self; t.op=op; t.args=args; t.mod=mod; t.num=num; t.id=self.nid; self.nid+=1
        self.tab[key]=t
        return t
    def const(self,q):
        q=Fraction(q)
        key=('c',q)
        t=self.tab.get(key)
        if t is None:
            m=q.numerator*pow(q.denominator,-1,P)%P
            t=self._mk('c',(q,),(m,)*self.NP,np.full(self.N,float(q)))
        return t
    def lift(self,x):
        if isinstance(x,T): return x
        if isinstance(x,(int,Fraction)): return self.const(x)
        if isinstance(x,float): return self.fconst(x)
        raise Unsupported('lift %r'%(x,))
    def fconst(self,v):
        """idealise a double constant"""
        if v!=v or v in(math.inf,-math.inf): raise Unsupported('non-finite constant')
        if v==int(v) and abs(v)<2**53: return self.const(int(v))
        f=Fraction(v)
        q=f.limit_denominator(1000)
        if float(q)==v: return self.const(q)
        k=Fraction(v/math.pi).limit_denominator(24)
        if k!=0 and abs(float(k)*math.pi-v)<=2e-16*abs(v): return self.mul(self.const(k),self.pi)
        k=Fraction(v*math.pi).limit_denominator(24)
        if k!=0 and abs(float(k)/math.pi-v)<=2e-16*abs(v): return self.div(self.const(k),self.pi)
        return self.const(Fraction(repr(v)))
    def sym(self,name,num,mod=None,bounds=None):
        if mod is None: mod=tuple(self.rng.randrange(1,P) for _ in range(self.NP))
        num=np.asarray(num,dtype=float)
        if num.ndim==0: num=np.full(self.N,float(num))
        t=self._mk('v',(name,),tuple(mod),num)
        self.syms[name]=t
        if bounds: self.bounds[name]=bounds
        return t
    def isconst(self,t): return t.op=='c'
    def cval(self,t): return t.args[0]
    def add(self,a,b):
        a=self.lift(a); b=self.lift(b)
        if a.op=='c':
            if b.op=='c': return self.const(a.args[0]+b.args[0])
            if a.args[0]==0: return b
        elif b.op=='c' and b.args[0]==0: return a
        m=_madd(a.mod,b.mod)
        if mzero(m): return self.zero
        if a.id>b.id: a,b=b,a
        return self._mk('+',(a,b),m,a.num+b.num)
    def sub(self,a,b):
        a=self.lift(a); b=self.lift(b)
        if a is b: return self.zero
        if b.op=='c':
            if a.op=='c': return self.const(a.args[0]-b.args[0])
            if b.args[0]==0: return a
        if a.op=='c' and a.args[0]==0: return self.neg(b)
        m=_msub(a.mod,b.mod)
        if mzero(m): return self.zero
        return self._mk('-',(a,b),m,a.num-b.num)
    def neg(self,a):
        if a.op=='c': return self.const(-a.args[0])
        if a.op=='neg': return a.args[0]
        return self._mk('neg',(a,),tuple(None if x is None else (-x)%P for x in a.mod),-a.num)
    def mul(self,a,b):
        a=self.lift(a); b=self.lift(b)
        if b.op=='c': a,b=b,a
        if a.op=='c':
            if b.op=='c': return self.const(a.args[0]*b.args[0])
            if a.args[0]==0: return self.zero
            if a.args[0]==1: return b
            if a.args[0]==-1: return self.neg(b)
        m=_mmul(a.mod,b.mod)
        if mzero(m): return self.zero
        if a.id>b.id: a,b=b,a
        return self._mk('*',(a,b),m,a.num*b.num)
    def div(self,a,b):
        a=self.lift(a); b=self.lift(b)
        if b.op=='c':
            if b.args[0]==0: raise Unsupported('division by zero')
            return self.mul(self.const(1/b.args[0]),a)
        if a.op=='c' and a.args[0]==0: return self.zero
        if self.NP and mzero(b.mod): raise Unsupported('division by a term that is identically zero')
        with np.errstate(all='ignore'): num=a.num/b.num
        t=self._mk('/',(a,b),_mdiv(a.mod,b.mod),num)
        return t
    def zero_p(self,t): return mzero(t.mod)
    def eq(self,a,b): return meq(self.lift(a).mod,self.lift(b).mod)
    def as_const(self,t):
        if self.NP==0: return t.args[0] if t.op=='c' else None
        """Fraction if the term is (semantically) a small constant"""
        if t.op=='c': return t.args[0]
        vals=[x for x in t.mod if x is not None]
        if len(vals)<2 or any(v!=vals[0] for v in vals): return None
        v=vals[0]
        if v<1<<40: return Fraction(v)
        if P-v<1<<40: return Fraction(v-P)
        # rational reconstruction
        r0,r1,s0,s1=P,v,0,1
        while r1>1<<28: 
            q=r0//r1; r0,r1=r1,r0-q*r1; s0,s1=s1,s0-q*s1
        if s1!=0 and abs(s1)<1<<28:
            return Fraction(r1,s1)
        return None
    # -- opaque functions -------------------------------------------------
    def num_const(self,t):
        """numeric value of an expression built from constants only (irrational constants included), else None"""
        st=[t]; n=0
        while st:
            x=st.pop(); n+=1
            if n>200: return None
            if x.op=='v': return None
            for y in x.args:
                if isinstance(y,T): st.append(y)
        return float(t.num.flat[0]) if np.size(t.num) else None
    def uf(self,name,args,nout,numf,modf=None):
        """uninterpreted vector function keyed by the fingerprint of its arguments"""
        args=[self.lift(a) for a in args]
        if name not in self.ufdef: self.ufdef[name]=(nout,numf,modf)
        lst=self.atoms.setdefault(name,[])
        for (ms,outs) in lst:
            if len(ms)==len(args) and all(meq(m,a.mod) for m,a in zip(ms,args)): return outs
        cols=numf(*[a.num for a in args])     # list of arrays
        mods=modf() if modf else [tuple(self.rng.randrange(1,P) for _ in range(self.NP)) for _ in range(nout)]
        k=len(lst)
        outs=[self._mk('uf',(name,k,i)+tuple(args),mods[i],np.asarray(cols[i],float)) for i in range(nout)]
        lst.append(([a.mod for a in args],outs))
        return outs
    # -- angles -------------------------------------------------------------
    def linear(self,t):
        """decompose t as (dict atom->Fraction, const Fraction) if linear over symbols/atoms"""
        if t.op=='c': return {},t.args[0]
        if t.op in('v','uf','pi','sqrt','acos','atan2','asin'): return {t:Fraction(1)},Fraction(0)
        if t.op in('+','-'):
            a=self.linear(t.args[0]); b=self.linear(t.args[1])
            if a is None or b is None: return {t:Fraction(1)},Fraction(0)
            s=1 if t.op=='+' else -1
            d=dict(a[0])
            for k,v in b[0].items():
                d[k]=d.get(k,0)+s*v
            return {k:v for k,v in d.items() if v!=0},a[1]+s*b[1]
        if t.op=='neg':
            a=self.linear(t.args[0]); return {k:-v for k,v in a[0].items()},-a[1]
        if t.op=='*':
            a,b=t.args
            if a.op=='c': c,x=a.args[0],b
            elif b.op=='c': c,x=b.args[0],a
            else: return {t:Fraction(1)},Fraction(0)
            l=self.linear(x); return {k:c*v for k,v in l[0].items()},c*l[1]
        return {t:Fraction(1)},Fraction(0)
    def norm_angle(self,t):
        """linear decomposition modulo 2*pi with WRAP atoms stripped; canonical list"""
        d,c=self.linear(t)
        out={}
        todo=list(d.items())
        while todo:
            k,v=todo.pop()
            if k.op=='uf' and k.args[0]=='WRAP' and v.denominator==1:
                dd,cc=self.linear(k.args[3])
                c+=v*cc
                todo.extend((kk,vv*v) for kk,vv in dd.items()); continue
            out[k]=out.get(k,Fraction(0))+v
        out={k:v for k,v in out.items() if v!=0}
        return out,c
    def half_unit(self,atom):
        """random rational point of the unit circle standing for exp(i*atom/4)"""
        for (m,u) in self.atoms.setdefault('#ang',[]):
            if meq(m,atom.mod): return u
        cs=[];ss=[]
        for _ in range(self.NP):
            while True:
                t=self.rng.randrange(1,P); d=(1+t*t)%P
                if d: break
            i=pow(d,-1,P); cs.append((1-t*t)*i%P); ss.append(2*t*i%P)
        u=(tuple(cs),tuple(ss)); self.atoms['#ang'].append((atom.mod,u)); return u
    def cis(self,t):
        d,c=self.norm_angle(t)
        if c!=0: d=dict(d); d[self.one]=d.get(self.one,Fraction(0))+c
        cs=(1,)*self.NP; ss=(0,)*self.NP
        def cmul(a,b): return (_msub(_mmul(a[0],b[0]),_mmul(a[1],b[1])),_madd(_mmul(a[0],b[1]),_mmul(a[1],b[0])))
        r=(cs,ss)
        for k,v in d.items():
            if k.op=='pi':
                q=v*2
                if q.denominator==1:
                    u=[(1,0),(0,1),(-1,0),(0,-1)][int(q)%4]
                    r=cmul(r,((u[0]%P,)*self.NP,(u[1]%P,)*self.NP)); continue
            n=v*4
            if n.denominator!=1:
                k=k*v; n=Fraction(4)
            u=self.half_unit(k); n=int(n)
            if n<0: u=(u[0],tuple((-x)%P for x in u[1])); n=-n
            b=u
            while n:
                if n&1: r=cmul(r,b)
                b=cmul(b,b); n>>=1
        return r
    def cos(self,t):
        t=self.lift(t)
        if t.op=='c' and t.args[0]==0: return self.one
        if t.op=='acos': return t.args[0]
        m=self.cis(t)[0]
        c=self._constof(m)
        if c is not None: return self.const(c)
        return self._mk('cos',(t,),m,np.cos(t.num))
    def sin(self,t):
        t=self.lift(t)
        if t.op=='c' and t.args[0]==0: return self.zero
        m=self.cis(t)[1]
        c=self._constof(m)
        if c is not None: return self.const(c)
        return self._mk('sin',(t,),m,np.sin(t.num))
    def _constof(self,m):
        for q in (0,1,-1):
            if meq(m,((q%P),)*self.NP): return q
        return None
    def sqrt(self,t):
        t=self.lift(t)
        if self.nummode:
            with np.errstate(all='ignore'): return self._mk('sqrt',(t,),(),np.sqrt(t.num))
        if t.op=='c':
            q=t.args[0]
            if q>=0:
                n=math.isqrt(q.numerator); d=math.isqrt(q.denominator)
                if n*n==q.numerator and d*d==q.denominator: return self.const(Fraction(n,d))
        if mzero(t.mod): return self.zero
        c=self.as_const(t)
        if c is not None and t.op!='c': return self.sqrt(self.const(c))
        if t.op=='c' and t.args[0]>0: return self.uf('SQRTC',[t],1,lambda x:[np.sqrt(x)])[0]   # irrational constant: an indeterminate
        for h in self.hints_sq:
            h2=_mmul(h.mod,h.mod)
            if meq(h2,t.mod): return self.abs(h)
            # rational multiple of a hint: t = q^2 h^2
            q=None
            for x,y in zip(t.mod,h2):
                if x is None or y is None or y==0: continue
                q=x*pow(y,-1,P)%P; break
            if q is not None:
                r=meq(t.mod,tuple(None if y is None else y*q%P for y in h2))
                if r:
                    k=self._ratrec(q)
                    if k is not None and k>0:
                        n=math.isqrt(k.numerator); d=math.isqrt(k.denominator)
                        if n*n==k.numerator and d*d==k.denominator: return self.const(Fraction(n,d))*self.abs(h)
        if self.opaque_sqrt: return self.uf('NN',[t],1,lambda x:[np.sqrt(x)])[0]   # the identity r*r = t is not needed: any function of t
        for (m,r) in self.atoms.setdefault('#sqrt',[]):
            if meq(m,t.mod): return r
        mod=[]
        for x in t.mod:
            if x is None: mod.append(None); continue
            r=pow(x,(P+1)//4,P)
            mod.append(r if r*r%P==x else None)
        if sum(x is not None for x in mod)<2: raise Unsupported('sqrt: fingerprint points exhausted')
        with np.errstate(all='ignore'): num=np.sqrt(t.num)
        r=self._mk('sqrt',(t,),tuple(mod),num)
        self.atoms['#sqrt'].append((t.mod,r))
        return r
    def _ratrec(self,v):
        if v<1<<28: return Fraction(v)
        r0,r1,s0,s1=P,v,0,1
        while r1>1<<28:
            q=r0//r1; r0,r1=r1,r0-q*r1; s0,s1=s1,s0-q*s1
        if s1!=0 and abs(s1)<1<<28: return Fraction(r1,s1)
        return None
    def abs(self,h):
        if h.op=='c': return self.const(abs(h.args[0]))
        if self.nummode: return self._mk('abs',(h,),(),np.abs(h.num))
        if self.decider is None: raise Unsupported('abs outside a path')
        return h if self.decider(h,'>=') else self.neg(h)
    def acos(self,t):
        t=self.lift(t)
        c=self.as_const(t)
        if c==1: return self.zero
        if c==-1: return self.pi
        if c==0: return self.pi*Fraction(1,2)
        for h in self.hints_acos:
            if meq(self.cos(h).mod,t.mod): return h
        for (m,r) in self.atoms.setdefault('#acos',[]):
            if meq(m,t.mod): return r
        with np.errstate(all='ignore'): num=np.arccos(t.num)
        r=self._mk('acos',(t,),tuple(self.rng.randrange(1,P) for _ in range(self.NP)),num)
        self.atoms['#acos'].append((t.mod,r)); return r
    def atan2(self,y,x):
        y=self.lift(y); x=self.lift(x)
        for (h,k) in self.hints_atan2:
            if meq((self.sin(h)*k).mod,y.mod) and meq((self.cos(h)*k).mod,x.mod): return h
        o=self.uf('ATAN2',[y,x],1,lambda a,b:[np.arctan2(a,b)])
        return o[0]
    def wrap(self,t):
        t=self.lift(t)
        d,c=self.norm_angle(t)
        base=self.const(c)
        for k,v in sorted(d.items(),key=lambda kv:kv[0].id):
            if k.op=='pi':
                v=v-2*((v+1)//2)     # into [-1,1)
                if v==0: continue
            base=base+self.const(v)*k
        cc=self.as_const(base)
        if cc is not None and abs(cc)<=3: return base
        n=lambda a:[np.mod(a+math.pi,2*math.pi)-math.pi]
        return self.uf('WRAP',[base],1,n)[0]
    # -- substitution
    def free(self,t):
        """names of the symbols a term mentions"""
        F=self._free; st=[t]
        while st:
            x=st[-1]
            if x.id in F: st.pop(); continue
            if x.op=='v': F[x.id]=frozenset(x.args); st.pop(); continue
            ch=[a for a in x.args if isinstance(a,T)]
            todo=[a for a in ch if a.id not in F]
            if todo: st.extend(todo); continue
            r=frozenset().union(*[F[a.id] for a in ch]) if ch else frozenset()
            F[x.id]=r; st.pop()
        return F[t.id]
    def subst(self,t,sub,memo=None):
        """replace symbols (name -> term)"""
        names=frozenset(sub); memo={} if memo is None else memo
        if not (self.free(t)&names): return t
        st=[t]
        while st:
            x=st[-1]
            if x.id in memo: st.pop(); continue
            if not (self.free(x)&names): memo[x.id]=x; st.pop(); continue
            if x.op=='v': memo[x.id]=sub[x.args[0]]; st.pop(); continue
            todo=[a for a in x.args if isinstance(a,T) and a.id not in memo]
            if todo: st.extend(todo); continue
            a=[memo[y.id] if isinstance(y,T) else y for y in x.args]; op=x.op; st.pop()
            if op=='+': r=self.add(*a)
            elif op=='-': r=self.sub(*a)
            elif op=='*': r=self.mul(*a)
            elif op=='/': r=self.div(*a)
            elif op=='neg': r=self.neg(a[0])
            elif op=='sqrt': r=self.sqrt(a[0])
            elif op=='sin': r=self.sin(a[0])
            elif op=='cos': r=self.cos(a[0])
            elif op=='acos': r=self.acos(a[0])
            elif op=='uf' and a[0]=='WRAP': r=self.wrap(a[3])
            elif op=='uf':
                n,f,m=self.ufdef[a[0]]; r=self.uf(a[0],a[3:],n,f,m)[a[2]]
            else: raise Unsupported('subst '+op)
            memo[x.id]=r
        return memo[t.id]
    # -- display
    def show(self,t,depth=6):
        if depth==0: return '...'
        s=lambda x:self.show(x,depth-1) if isinstance(x,T) else str(x)
        if t.op=='c': return str(t.args[0])
        if t.op=='v': return t.args[0]
        if t.op=='pi': return 'pi'
        if t.op in '+-*/': return '(%s%s%s)'%(s(t.args[0]),t.op,s(t.args[1]))
        if t.op=='neg': return '-'+s(t.args[0])
        if t.op=='uf': return '%s#%d.%d'%t.args[:3]
        return '%s(%s)'%(t.op,','.join(s(a) for a in t.args))
