"""Unbounded loops.  Integers may be symbolic (linear forms over integer symbols), arrays may have symbolic
length (abstract arrays: an uninterpreted base content under a list of writes), and a loop whose trip count is
symbolic is replaced by its exact effect: affine induction variables, sums, and array maps.  The effect is
computed from one generic iteration (iteration number a fresh symbol) executed on the real IR; a loop body that
is not of this shape makes the obligation unknown, never discharged."""
from fractions import Fraction
import math, os
import numpy as np
import llparse
from terms import T, Unsupported, meq
from symexec import Machine, Cond, Ptr, Obj, MemFault, UNDEF, isint, NULL, FuncObj
import symexec

class NeedSummary(Exception):
    def __init__(self,key): Exception.__init__(self,key); self.key=key
class NeedAbs(Exception):
    def __init__(self,o): Exception.__init__(self,o); self.o=o
class CutEnd(Exception):
    """the path ends at the back edge of a cut loop, its invariant checked"""

class CutRestart(Exception):
    """a candidate of the loop invariant was not inductive and has been weakened: start the exploration again"""

class SI:
    """symbolic mathematical integer: sum of coef*symbol + c"""
    __slots__=('t','c')
    def __init__(self,t,c): self.t=t; self.c=c
    def __add__(a,b):
        if isinstance(b,SI):
            d=dict(a.t)
            for k,v in b.t.items():
                x=d.get(k,0)+v
                if x: d[k]=x
                else: d.pop(k,None)
            return mk(d,a.c+b.c)
        if isint(b): return SI(a.t,a.c+b)
        return NotImplemented
    __radd__=__add__
    def __neg__(a): return SI({k:-v for k,v in a.t.items()},-a.c)
    def __sub__(a,b): return a+(-b)
    def __rsub__(a,b): return (-a)+b
    def __mul__(a,b):
        if isint(b): return mk({k:v*b for k,v in a.t.items()} if b else {},a.c*b)
        if isinstance(b,SI): raise Unsupported('product of symbolic integers')
        return NotImplemented
    __rmul__=__mul__
    def __mod__(a,m): return a      # mathematical value, ranges are proved where it matters
    def divx(a,k):
        """exact quotient by an integer, or None"""
        if a.c%k or any(v%k for v in a.t.values()): return None
        return mk({n:v//k for n,v in a.t.items()},a.c//k)
    def key(a): return (tuple(sorted(a.t.items())),a.c)
    def __eq__(a,b): return isinstance(b,SI) and a.t==b.t and a.c==b.c
    def __hash__(a): return hash(a.key())
    def __repr__(a): return '+'.join(['%s%s'%('' if v==1 else '%d*'%v,k) for k,v in sorted(a.t.items())]+([str(a.c)] if a.c else []))
    def __bool__(a): raise Unsupported('truth of a symbolic integer')
def mk(d,c): return SI(d,c) if d else c
def lin(x): return (x.t,x.c) if isinstance(x,SI) else ({},x)
def isub(x,name,v):
    """substitute symbol name by the integer v (SI or int)"""
    if not isinstance(x,SI) or name not in x.t: return x
    d=dict(x.t); k=d.pop(name); return mk(d,x.c)+v*k if isinstance(v,SI) or d else x.c+k*v

class IC(Cond):
    """integer condition: a >= 0 | a == 0 | a != 0"""
    __slots__=()
    def neg(self):
        if self.op=='i==': return IC('i!=',self.a)
        if self.op=='i!=': return IC('i==',self.a)
        return IC('i>=',-self.a-1)
    def __repr__(self): return '%r %s 0'%(self.a,self.op[1:])

class Ints:
    """integer facts of a path: lower/upper bounds per symbol, and linear facts a >= 0"""
    def __init__(self): self.b={}; self.facts=[]; self.ne=[]; self.eqs=[]
    def save(self): return (dict(self.b),list(self.facts),list(self.ne),list(self.eqs))
    def restore(self,s): self.b,self.facts,self.ne,self.eqs=dict(s[0]),list(s[1]),list(s[2]),list(s[3])
    def assume(self,ic):
        a=ic.a; g=0
        for v in a.t.values(): g=math.gcd(g,abs(v))
        if g>1 and a.c%g==0 and ic.op!='i>=': a=a.divx(g)
        if ic.op=='i>=': self.facts.append(a)
        elif ic.op=='i==':
            self.facts+= [a,-a]
            # solved form, used to normalise terms
            b=self.norm(a)
            if isinstance(b,SI):
                for k,v in sorted(b.t.items(),reverse=True):
                    if abs(v)==1:
                        e=-isub(b,k,0)*v if isinstance(isub(b,k,0),SI) else -isub(b,k,0)*v
                        self.eqs.append((k,e)); break
        else:
            self.ne.append(a)
            if self.nonneg(a): self.facts.append(a-1)
            elif self.nonneg(-a): self.facts.append(-a-1)
    def norm(self,a):
        for k,e in self.eqs: a=isub(a,k,e)
        return a
    def nonneg(self,a):
        """True if a >= 0 is provable"""
        if isint(a): return a>=0
        neg=[(-a)-1]                       # a <= -1, refute
        return self.contradiction(neg)
    def contradiction(self,extra):
        cons=[lin(x) for x in extra+self.facts]
        names=set()
        for d,_ in cons: names|=set(d)
        # only facts connected to the goal
        cons=[(dict(d),c) for d,c in cons]
        rel=set(lin(extra[0])[0]); ch=True
        while ch:
            ch=False
            for d,_ in cons:
                if set(d)&rel and not set(d)<=rel: rel|=set(d); ch=True
        cons=[x for x in cons if set(x[0])<=rel]
        for n in rel:
            lo,hi=self.b.get(n,(None,None))
            if lo is not None: cons.append(({n:1},-lo))
            if hi is not None: cons.append(({n:-1},hi))
        # Fourier-Motzkin with integer tightening
        def norm(d,c):
            g=0
            for v in d.values(): g=math.gcd(g,abs(v))
            if g>1: d={k:v//g for k,v in d.items()}; c=c//g     # floor: integer tightening
            return d,c
        S={}
        def add(d,c):
            d={k:v for k,v in d.items() if v}
            if not d: return c<0
            d,c=norm(d,c); k=tuple(sorted(d.items()))
            if k not in S or S[k]>c: S[k]=c
            return False
        for d,c in cons:
            if add(d,c): return True
        while True:
            vs={}
            for k in S:
                for n,_ in k: vs[n]=vs.get(n,0)+1
            if not vs: return False
            n=min(vs,key=vs.get); pos=[];neg=[];rest={}
            for k,c in S.items():
                v=dict(k).get(n,0)
                (pos if v>0 else neg if v<0 else None) is not None and (pos if v>0 else neg).append((dict(k),c))
                if not v: rest[k]=c
            if len(pos)*len(neg)>4000: return False
            S=rest
            for d1,c1 in pos:
                for d2,c2 in neg:
                    a,b=d1[n],-d2[n]; d={}
                    for k,v in d1.items(): d[k]=d.get(k,0)+v*b
                    for k,v in d2.items(): d[k]=d.get(k,0)+v*a
                    if add(d,c1*b+c2*a): return True
    def true(self,ic):
        a=ic.a
        if isint(a): return {'i>=':a>=0,'i==':a==0,'i!=':a!=0}[ic.op]
        if ic.op=='i>=': return self.nonneg(a)
        if ic.op=='i==': return self.nonneg(a) and self.nonneg(-a)
        if any(a==x or a==-x for x in self.ne): return True
        g=0
        for v in a.t.values(): g=math.gcd(g,abs(v))
        if g>1 and a.c%g: return True
        return self.nonneg(a-1) or self.nonneg(-a-1)

class AArr:
    """abstract array content (object of symbolic length, 8-byte cells)"""
    def __init__(self,name,size,base,o):
        self.name=name; self.size=size; self.base=base; self.ov=[]; self.o=o; self.log=None; self.ptrs=None
    def bounds(self,m,p,size,what):
        if m.unchecked: return
        if not (m.I.nonneg(p.off) and m.I.nonneg(self.size-(p.off+size))):
            d=self.size-(p.off+size)
            if m.I.nonneg(-d-1) or (not isint(p.off) and m.I.nonneg(-p.off-1)) or (isint(p.off) and p.off<0): raise MemFault('%s out of bounds of %s: offset %r of %r'%(what,self.name,p.off,self.size))
            raise Unsupported('%s: bounds of %s not proved: offset %r of %r'%(what,self.name,p.off,self.size))
    def cell(self,p):
        c=p.off//8 if isint(p.off) and p.off%8==0 else (p.off.divx(8) if isinstance(p.off,SI) else None)
        if c is None: raise Unsupported('unaligned access to %s at %r'%(self.name,p.off))
        return c
    def load(self,m,p,size,ty):
        if size!=8: raise Unsupported('%d byte access to %s'%(size,self.name))
        self.bounds(m,p,size,'load'); return self.get(m,self.cell(p))
    def get(self,m,c,ov=None):
        ovs=self.ov if ov is None else ov
        for n in range(len(ovs)-1,-1,-1):
            o=ovs[n]
            r=self.match(m,o,c)
            if r is False: continue
            if o[0]=='w': return o[2]
            if self.log is not None and n<self.logn: self.log.append(c)
            return m.tsub(o[4],o[1],r)
        if self.log is not None: self.log.append(c)
        if self.base is None: return UNDEF
        return self.base(m,c)
    def match(self,m,o,c):
        """False: cell c is not written by overlay o; True / iteration number otherwise"""
        if o[0]=='w':
            d=c-o[1] if isinstance(c,SI) else (-(o[1]-c) if isinstance(o[1],SI) else c-o[1])
            if isint(d): return True if d==0 else False
            ic=IC('i==',d)
            if m.I.true(ic): return True
            if m.I.true(ic.neg()): return False
            return True if m.idecide(ic) else False
        _,k,c0,s,v,hi=o
        d=c-c0
        if isint(d):
            if d%s: return False
            q=d//s
        else:
            if all(x%s==0 for x in d.t.values()):
                if d.c%s: return False
                q=d.divx(s)
            else: raise Unsupported('array access not aligned with an earlier loop')
        a=IC('i>=',q) if isinstance(q,SI) else None; b=IC('i>=',hi-q-1)
        for x in ((a,) if a is not None else ())+(b,):
            if isint(x.a):
                if x.a<0: return False
                continue
            if m.I.true(x): continue
            if m.I.true(x.neg()): return False
            if not m.idecide(x): return False
        if isint(q) and q<0: return False
        return q
    def store(self,m,p,size,v):
        if size!=8: raise Unsupported('%d byte store to %s'%(size,self.name))
        self.bounds(m,p,size,'store'); c=self.cell(p)
        if isint(v) and not 0<v<1<<20: v=m.coerce(v,('double',))
        if not isinstance(v,T): 
            if v is UNDEF or isint(v) or isinstance(v,Ptr): pass
            else: raise Unsupported('store of %r in %s'%(v,self.name))
        # same cell as the last write / extension of an earlier map by its next element
        for n in range(len(self.ov)-1,-1,-1):
            o=self.ov[n]
            if o[0]=='w':
                d=c-o[1]
                if isint(d) and d==0: self.ov[n]=('w',c,v); return
                if isint(d) or m.I.true(IC('i!=',d)): continue
                break
            _,k,c0,s,f,hi=o
            d=c-(c0+s*hi)
            if isint(d) and d==0:
                if isinstance(v,T) and isinstance(f,T) and m.w.eq(m.tsub(f,k,hi),v): self.ov[n]=('m',k,c0,s,f,hi+1); return
                break
            x=c-c0
            if isint(x) and x%s: continue
            if not isint(x) and all(y%s==0 for y in x.t.values()) and x.c%s: continue
            break
        self.ov.append(('w',c,v))

class PArr:
    """buffer of a vector of shared_ptr of symbolic length: element e is an object of its own (made on first use by mk(m,e), distinct
    elements are distinct objects) and a null owner; stores are logged"""
    def __init__(self,name,n,cap,mk):
        self.name=name; self.n=n; self.size=cap*16; self.mk=mk; self.el=[]; self.st=[]
    def split(self,m,p,size,ty,what):
        if size!=8: raise Unsupported('%d byte access to %s'%(size,self.name))
        AArr.bounds(self,m,p,size,what); e,o=m.split(p.off,16)
        if o not in(0,8): raise Unsupported('unaligned access to %s'%self.name)
        return e,o//8
    def load(self,m,p,size,ty):
        e,o=self.split(m,p,size,ty,'load')
        for a,b,v in reversed(self.st):
            if b==o and m.idecide(IC('i==',a-e)): return v
        if not m.unchecked and not m.I.nonneg(self.n-1-e):
            raise (MemFault if (isint(e) and isint(self.n)) or m.I.nonneg(e-self.n) else Unsupported)('element %r of %s, length %r'%(e,self.name,self.n))
        return NULL if o else self.at(m,e)
    def at(self,m,e):
        live={id(o) for o in m.objs}
        self.el=[x for x in self.el if id(x[1].o) in live]
        for k,p in self.el:
            d=k-e
            if isint(d):
                if d==0: return p
                continue
            if m.idecide(IC('i==',d)): return p
        p=self.mk(m,e); p.o.kind='elem'; p.o.elem0=dict(p.o.cells); self.el.append((e,p)); return p
    def index(self,p):
        for k,q in self.el:
            if q.o is p.o: return k
        raise Unsupported('not an element of '+self.name)
    def store(self,m,p,size,v):
        e,o=self.split(m,p,size,None,'store')
        if not isinstance(v,Ptr) and v!=0: raise Unsupported('store of %r in %s'%(v,self.name))
        self.st.append((e,o,v if isinstance(v,Ptr) else NULL))
class MArr:
    """map of a std::deque: entry c points to chunk c (chunks modelled as adjacent in one buffer)"""
    def __init__(self,name,q,size,buf): self.name=name; self.q=q; self.size=size; self.buf=buf; self.st=[]
    def load(self,m,p,size,ty):
        if size!=8: raise Unsupported('%d byte access to %s'%(size,self.name))
        AArr.bounds(self,m,p,size,'load'); c,o=m.split(p.off,8)
        if o: raise Unsupported('unaligned access to '+self.name)
        for a,v in reversed(self.st):
            if m.idecide(IC('i==',a-c)): return v
        if not m.unchecked and not (m.I.nonneg(c) and m.I.nonneg(self.q-c)): raise (MemFault if m.I.nonneg(c-self.q-1) else Unsupported)('chunk %r of %s, %r chunks'%(c,self.name,self.q+1))
        return Ptr(self.buf,c*512)
    def store(self,m,p,size,v):
        if size!=8 or not isinstance(v,Ptr): raise Unsupported('store to '+self.name)
        AArr.bounds(self,m,p,size,'store'); c,o=m.split(p.off,8)
        if o: raise Unsupported('unaligned access to '+self.name)
        self.st.append((c,v))
def reallocate_map(m,a):
    """contract of std::deque::_M_reallocate_map(n,false): a map with room for n more chunks at the end, same chunks in the same order"""
    d,n,front=a; P=lambda k:Ptr(d.o,d.off+k); old=m.load(P(0),('ptr',)); z=old.o.lazy
    if not isinstance(z,MArr) or not isint(n) or front not in(0,False): raise Unsupported('reallocation of the map')
    s,f=m.load(P(40),('ptr',)),m.load(P(72),('ptr',)); M=z.size+n*16; b=m.alloc(M,'map','abstract'); y=b.o.lazy=MArr(z.name,z.q,M,z.buf); y.st=list(z.st)
    if s.o is not old.o or f.o is not old.o: raise Unsupported('iterators of another deque')
    m.store(P(0),8,b); m.store(P(8),8,m.split(M,8)[0]); m.store(P(40),8,Ptr(b.o,s.off)); m.store(P(72),8,Ptr(b.o,f.off))
class Loop:
    def __init__(self,f,header,blocks): self.f=f; self.header=header; self.loop=blocks; self.rec=None
def succs(blk):
    I=blk[-1]
    if I.op=='br': return [I.a[1],I.a[2]]
    if I.op=='jmp': return [I.a[0]]
    if I.op=='switch': return [I.a[1]]+[x[1] for x in I.a[2]]
    if I.op=='invoke': return [x for x in I.a[2:4] if isinstance(x,str)]
    return []
def loops_of(f):
    L=getattr(f,'_loops',None)
    if L is not None: return L
    S={b:succs(f.block(b)) for b in f.order}
    P={b:[] for b in f.order}
    for b in S:
        for x in S[b]:
            if x in P: P[x].append(b)
    # dominators
    order=[]; seen=set(); st=[(f.entry,iter(S[f.entry]))]; seen.add(f.entry)
    while st:
        b,it=st[-1]
        for x in it:
            if x not in seen and x in S: seen.add(x); st.append((x,iter(S[x]))); break
        else: order.append(b); st.pop()
    order.reverse(); idx={b:i for i,b in enumerate(order)}; idom={f.entry:f.entry}; ch=True
    def inter(a,b):
        while a!=b:
            while idx[a]>idx[b]: a=idom[a]
            while idx[b]>idx[a]: b=idom[b]
        return a
    while ch:
        ch=False
        for b in order[1:]:
            ps=[p for p in P[b] if p in idom]
            n=ps[0]
            for p in ps[1:]: n=inter(n,p)
            if idom.get(b)!=n: idom[b]=n; ch=True
    def dom(a,b):
        while True:
            if a==b: return True
            if b==idom[b]: return False
            b=idom[b]
    L={}
    for b in order:
        for h in S[b]:
            if h in idom and dom(h,b):
                body=L.setdefault(h,{h}); st=[b]
                while st:
                    x=st.pop()
                    if x in body: continue
                    body.add(x); st.extend(P[x])
    f._loops=[Loop(f,h,b) for h,b in sorted(L.items(),key=lambda kv:len(kv[1]))]    # innermost first
    return f._loops

KB='#k%d'
class AMachine(Machine):
    def __init__(self,mod,world,contracts=None,decider=None,max_steps=3000000,ctx=None):
        Machine.__init__(self,mod,world,contracts,decider,max_steps)
        self.objs=[]; self.c=ctx; self.I=ctx.path.ints; self.unchecked=False
        self.flags=ctx.ex.flags; self.region=None; self.generic=[]; self.nsym=0; self.cut=None; self.summaries=[]; self.sumdepth=0
    # -- integers
    def isym(self,name,lo,hi=None,b=None):
        if name not in self.w.syms: self.w.sym(name,np.full(self.w.N,np.nan),None,(Fraction(lo),None if hi is None else Fraction(hi)))
        self.I.b[name]=(lo,hi); return SI({name:1},0)
    def any_index(self,name,n):
        """an arbitrary index 0 <= i < n (nothing when there is none)"""
        if isint(n):
            if n<=0: return
        elif not self.idecide(IC('i>=',n-1)): return
        self.isym(name,0); i=SI({name:1},0); sv=self.I.save(); self.I.facts.append(n-1-i)
        yield i
    def gen(self,n,fn):
        """fn(k) for a generic index 0 <= k < n: (name of k, value)"""
        k=self.fresh(); kk=self.isym(k,0); sv=self.I.save(); self.I.facts.append(n-1-kk); self.generic.append({k})
        try: return k,fn(kk)
        finally: self.generic.pop(); self.I.restore(sv)
    def sum(self,n,fn):
        """sum of fn(k), 0 <= k < n (a term or a list of terms)"""
        if isint(n):
            if n<=0: raise Unsupported('empty sum')
            v=[fn(k) for k in range(n)]
            return [sum(x[1:],x[0]) for x in zip(*v)] if isinstance(v[0],list) else sum(v[1:],v[0])
        k,v=self.gen(n,fn)
        return [SUM(self,x,k,n) for x in v] if isinstance(v,list) else SUM(self,v,k,n)
    def fresh(self):
        self.c.ex.nfresh+=1; return 'k#%d'%self.c.ex.nfresh
    def itof(self,v):
        if not isinstance(v,SI): raise Unsupported('itof %r'%(v,))
        r=self.w.const(v.c)
        for k,x in sorted(v.t.items()): r=r+self.w.const(x)*self.w.syms[k]
        return r
    def tsub(self,t,name,v):
        if not isinstance(t,T): return t
        return self.w.subst(t,{name:self.w.lift(v) if isint(v) else self.itof(v)})
    def tnorm(self,t):
        """replace integer symbols determined by the path's equalities"""
        for k,e in self.I.eqs:
            if k in self.w.free(t): t=self.tsub(t,k,e)
        return t
    def idecide(self,ic):
        if isint(ic.a): return {'i>=':ic.a>=0,'i==':ic.a==0,'i!=':ic.a!=0}[ic.op]
        if self.I.true(ic): return True
        if self.I.true(ic.neg()): return False
        if any(k in ic.a.t for g in self.generic for k in g):
            if self.unchecked: return True      # speculative pass that only looks for the trip count; repeated with the iteration range known
            raise Unsupported('loop body depends on the iteration number: %r'%ic)
        ch=self.c.path.choice(); self.I.assume(ic if ch else ic.neg())
        return ch
    def decide(self,c):
        if isinstance(c,IC): return self.idecide(c)
        if isinstance(c,Cond) and c.op not in('and','or','not') and isinstance(c.a,T):
            if self.generic and self.w.as_const(c.a) is None:
                fr=self.w.free(c.a)
                if any(k in fr for g in self.generic for k in g):
                    s=self.c.path.signs(c.a)
                    import explore
                    if s<=explore.SETS[c.op]: return True
                    if not (s&explore.SETS[c.op]): return False
                    raise Unsupported('loop body branches on data: %r'%c)
        return Machine.decide(self,c)
    def sgn(self,x,n): return x-(1<<n) if isint(x) and x>>(n-1) else x
    def icmp_sym(self,pred,a,b,ty=None):
        n=ty[1] if ty and ty[0]=='i' else 64
        if a is UNDEF or b is UNDEF: raise Unsupported('compare undefined integer')
        if not (isinstance(a,SI) or isinstance(b,SI)): raise Unsupported('compare %r %r'%(a,b))
        if pred[0]=='u':
            for x in (a,b):
                if isinstance(x,SI) and not self.unchecked and not self.I.nonneg(x):
                    raise Unsupported('unsigned comparison of possibly negative %r'%x)
            if isint(a) and a>>63: return {'ult':0,'ule':0,'ugt':1,'uge':1}[pred]
            if isint(b) and b>>63: return {'ult':1,'ule':1,'ugt':0,'uge':0}[pred]
        else: a=self.sgn(a,n); b=self.sgn(b,n)
        d=(a-b) if isinstance(a,SI) else -(b-a)
        if isint(d): return 1 if {'eq':d==0,'ne':d!=0,'lt':d<0,'le':d<=0,'gt':d>0,'ge':d>=0}[pred if pred in('eq','ne') else pred[1:]] else 0
        ic={'eq':IC('i==',d),'ne':IC('i!=',d)}.get(pred) or {'lt':IC('i>=',-d-1),'le':IC('i>=',-d),'gt':IC('i>=',d-1),'ge':IC('i>=',d)}[pred[1:]]
        return ic
    def range_ok(self,v,lo,hi): return self.I.nonneg(v-lo) and self.I.nonneg(hi-v)
    def binop_sym(self,op,ty,a,b):
        if not (isinstance(a,SI) or isinstance(b,SI)): return Machine.binop_sym(self,op,ty,a,b)
        n=ty[1]; a0,b0=a,b; a=self.sgn(a,n); b=self.sgn(b,n)
        def fix(r):
            if isint(r): return r%(1<<n)
            if n<64 and not self.unchecked and not self.range_ok(r,-(1<<(n-1)),(1<<n)-1): raise Unsupported('%d bit integer may overflow: %r'%(n,r))
            return r
        if op=='add': return fix(a+b)
        if op=='sub': return fix((a-b) if isinstance(a,SI) else -(b-a))
        if op=='mul':
            if isinstance(a,SI) and isinstance(b,SI): return self.nlmul(a,b)
            return fix(a*b)
        if op=='shl' and isint(b): return fix(a*(1<<b))
        if op=='and' and isint(b0) and b0&(b0+1)==0:
            if self.range_ok(a,0,b0) or (self.unchecked and b0>=1<<31 and abs(a.c)<1<<30): return a
            for y in (a-(b0+1),a+(b0+1)):
                if self.range_ok(y,0,b0) or (self.unchecked and b0>=1<<31 and abs(lin(y)[1])<1<<30): return y
            # low bits of a multiple
            if b0<4096 and all(v%(b0+1)==0 for v in a.t.values()): return a.c%(b0+1)
        if op=='and' and isint(b) and b<0 and (-b)&(-b-1)==0 and all(v%(-b)==0 for v in a.t.values()) and a.c%(-b)==0: return a
        if op=='and' and isint(b0) and b0 and self.range_ok(a,0,(1<<b0.bit_length())-1):
            low=b0&-b0
            if b0+low==1<<b0.bit_length(): q=self.floordiv(a,low,op); return q*low
        if op=='or' and isint(b) and all(v%(1<<b.bit_length())==0 for v in a.t.values()) and a.c%(1<<b.bit_length())==0: return a+b
        if op in('sdiv','udiv','ashr','lshr') and isint(b) and isinstance(a,SI):
            k=b if op in('sdiv','udiv') else 1<<b
            if op in('udiv','lshr') and not self.unchecked and not self.I.nonneg(a): raise Unsupported('unsigned division of a possibly negative integer')
            q=a.divx(k) if k>0 else None
            if q is not None: return fix(q)
            return self.floordiv(a,k,op)
        if op in('srem','urem') and isint(b) and b>0 and all(v%b==0 for v in a.t.values()) and self.I.nonneg(a): return a.c%b
        if op=='xor' and isint(b) and b==-1: return -a-1
        raise Unsupported('symbolic integer op %s %r %r'%(op,a,b))
    def floordiv(self,a,k,op):
        if any(x in a.t for g in self.generic for x in g) or not self.I.nonneg(a): raise Unsupported('inexact division %r / %d'%(a,k))
        c=self.__dict__.setdefault('_fd',{}); q=c.get((a.key(),k))
        if q is None:
            n=self.fresh().replace('k#','q#'); q=c[(a.key(),k)]=self.isym(n,0)
            self.I.facts+=[a-q*k,q*k+(k-1)-a]
        return q
    def nlmul(self,a,b): raise Unsupported('product of symbolic integers %r * %r'%(a,b))
    def trunc_sym(self,v,t1,t2):
        if isinstance(v,SI):
            n=t2[1]
            if self.unchecked or self.range_ok(v,-(1<<(n-1)),(1<<n)-1): return v
        raise Unsupported('trunc %r to i%d'%(v,t2[1]))
    def cast(self,op,t1,v,t2):
        if isinstance(v,SI):
            if op=='zext' and not self.unchecked and not self.I.nonneg(v): raise Unsupported('zext of a possibly negative integer')
            if op=='uitofp' and not self.unchecked and not self.I.nonneg(v): raise Unsupported('uitofp of a possibly negative integer')
            if op in('zext','sext'): return v
        if op=='zext' and isinstance(v,IC): return 1 if self.idecide(v) else 0
        return Machine.cast(self,op,t1,v,t2)
    def sx(self,i): return i if isinstance(i,SI) else Machine.sx(self,i)
    def concretize(self,v): raise Unsupported('switch on a symbolic integer')
    # -- memory
    def abstract(self,name,size,base):
        p=self.alloc(size,name,'abstract'); p.o.lazy=AArr(name,size,base,p.o); return p
    def array(self,name,cells):
        """input array of `cells` doubles, arbitrary content"""
        w=self.w
        def base(m,c):
            ct=w.lift(c) if isint(c) else m.itof(c)
            return w.uf('SEL:'+name,[ct],1,lambda x:[np.full(w.N,np.nan)])[0]
        return self.abstract(name,cells*8,base)
    def poses(self,name,n):
        """input array of n rigid transforms (4x4 row-major)"""
        w=self.w; import lib
        def mods():
            r=lib._rotmods(w)(); t=[tuple(w.rng.randrange(1,symexec_P) for _ in range(w.NP)) for _ in range(3)]; z=(0,)*w.NP; o=(1,)*w.NP
            return [r[0],r[1],r[2],t[0],r[3],r[4],r[5],t[1],r[6],r[7],r[8],t[2],z,z,z,o]
        def base(m,c):
            e,o=m.split(c,16)
            if o>=12: return w.one if o==15 else w.zero
            return w.uf('SELP:'+name,[w.lift(e) if isint(e) else m.itof(e)],16,lambda x:[np.full(w.N,np.nan)]*16,mods)[o]
        return self.abstract(name,n*128,base)
    def split(self,c,s):
        if isint(c): return c//s,c%s
        if any(v%s for v in c.t.values()): raise Unsupported('element index of %r'%c)
        o=c.c%s; return (c-o).divx(s),o
    def memcpy(self,d,s,n):
        if isinstance(n,SI): 
            self.mapcopy(d,s,n); return
        if isinstance(d,Ptr) and isinstance(s,Ptr) and d.o is not None and s.o is not None and 'abstract' in(d.o.kind,s.o.kind) and isint(n):
            vals=[self.load(Ptr(s.o,s.off+i),('i',64)) for i in range(0,n,8)]
            for i,v in enumerate(vals): self.store(Ptr(d.o,d.off+8*i),8,v)
            return
        return Machine.memcpy(self,d,s,n)
    def mapcopy(self,d,s,n):
        m=n.divx(8)
        if m is None or s.o is None or s.o.kind!='abstract' or d.o.kind!='abstract': raise Unsupported('memcpy of symbolic size')
        A,B=d.o.lazy,s.o.lazy
        for arr,p,wh in((A,d,'memcpy dst'),(B,s,'memcpy src')):
            arr.bounds(self,Ptr(p.o,p.off),0,wh); arr.bounds(self,Ptr(p.o,p.off+n),0,wh)
        k=self.fresh(); kk=self.isym(k,0); sv=self.I.save(); self.I.facts.append(m-kk-1); self.generic.append({k})
        try: v=B.get(self,B.cell(s)+kk)
        finally: self.generic.pop(); self.I.restore(sv)
        A.ov.append(('m',k,A.cell(d),1,v,m))
    def memset(self,d,b,n):
        if isinstance(n,SI) or (isinstance(d,Ptr) and d.o is not None and d.o.kind=='abstract'):
            if isint(n) and n==0: return
            if b!=0 or d.o.kind!='abstract': raise Unsupported('memset of symbolic size')
            m=n.divx(8) if isinstance(n,SI) else (n//8 if n%8==0 else None)
            if m is None: raise Unsupported('memset size')
            A=d.o.lazy; A.bounds(self,d,0,'memset'); A.bounds(self,Ptr(d.o,d.off+n),0,'memset'); k=self.fresh(); self.isym(k,0)
            A.ov.append(('m',k,A.cell(d),1,self.w.zero,m)); return
        return Machine.memset(self,d,b,n)
    def builtin(self,name,a):
        if name in('malloc','_Znwm','_Znam','_ZnwmSt11align_val_t','aligned_alloc') :
            sz=a[1] if name=='aligned_alloc' else a[0]
            if isinstance(sz,SI): return self.abstract('heap',sz,None)
        if name in('memcpy','memmove'): self.memcpy(a[0],a[1],a[2]); return a[0]
        if name=='memset': self.memset(a[0],a[1]&255,a[2]); return a[0]
        return Machine.builtin(self,name,a)
    # -- loops
    def symbr(self,f,label,c,a,region):
        ic=isinstance(c,IC)
        L=None
        for x in loops_of(f):
            if label in x.loop and ((a[1] in x.loop)!=(a[2] in x.loop)): L=x; break
        if region is not None and region.loop and L is not None and L.header==region.header and region.rec is not None:
            # an exit test of the loop being summarised
            stay=a[1] if a[1] in region.loop else a[2]
            if ic:
                region.rec.append((label,c if stay==a[1] else c.neg()))
                st=c if stay==a[1] else c.neg()
                if region.phase=='B': 
                    pass
                self.I.assume(st)
                return stay==a[1]
            if region.generic_real(self,c): raise Unsupported('loop exit depends on data')
            return self.decide(c)
        if ic and L is not None and not self.I.true(c) and not self.I.true(c.neg()):
            k=(f.name,L.header)
            if k not in self.flags and not (self.cut is not None and self.cut.inside(f,L.header)): raise NeedSummary(k)
        return self.decide(c)
    def enter(self,f,label,prev,regs,allocas):
        key=(f.name,label)
        if self.cut is not None:
            if self.cut.find(f,label): return self.cut.enter(self,f,label,prev,regs)
            if self.cut.inside(f,label): return None
        if key not in self.flags: return None
        for L in loops_of(f):
            if L.header==label: break
        else: return None
        if prev in L.loop: return None
        S=Summary(self,f,L,prev,regs,allocas)
        if self.sumdepth: return S.run()
        while True:
            st=S.snap(); F=self.I.save(); n=len(self.summaries); g=list(self.generic); un=self.unchecked
            self.sumdepth=1
            try: return S.run()
            except NeedAbs as e:
                # an object of concrete size indexed by the iteration number: seen as an array from here on
                self.generic[:]=g; self.unchecked=un; S.restore(st); self.I.restore(F); del self.summaries[n:]
                if e.o not in [x[0] for x in st[0]]: raise Unsupported('symbolic offset into '+e.o.name)
                self.toarray(e.o)
            finally: self.sumdepth=0
    def abstractify(self,o):
        if o.kind in('global','func') or not isint(o.size) or o.size%8: raise Unsupported('symbolic offset into '+o.name)
        if self.sumdepth: raise NeedAbs(o)
        self.toarray(o)
    def toarray(self,o):
        ov=[]
        for off,(s,v) in sorted(o.cells.items()):
            if v is UNDEF: continue
            if isint(v) and v==0 and s==8: v=self.w.zero
            if s!=8 or off%8 or not isinstance(v,T): raise Unsupported('symbolic offset into '+o.name)
            ov.append(('w',off//8,v))
        o.lazy=AArr(o.name,o.size,None,o); o.lazy.ov=ov; o.kind='abstract'; o.cells.clear()
from terms import P as symexec_P
class Region:
    def __init__(self,L,phase): self.header=L.header; self.loop=L.loop; self.rec=[]; self.phase=phase
    def generic_real(self,m,c):
        if not isinstance(c,Cond): return False
        st=[c]
        while st:
            x=st.pop()
            if x.op in('and','or'): st+=[x.a,x.b]; continue
            if x.op=='not': st.append(x.a); continue
            if isinstance(x,IC):
                if any(k in x.a.t for g in m.generic for k in g): return True
            elif any(k in m.w.free(x.a) for g in m.generic for k in g): return True
        return False

class Summary:
    """exact effect of a counted loop"""
    def __init__(self,m,f,L,prev,regs,allocas): self.m=m; self.f=f; self.L=L; self.prev=prev; self.regs=regs; self.allocas=allocas
    # memory snapshots
    def snap(self):
        m=self.m; return [(o,dict(o.cells),o.alive,(list(o.lazy.ov),o.lazy.log) if isinstance(o.lazy,AArr) else None) for o in m.objs],len(m.divisors),self.m.nsym
    def restore(self,s):
        for o,c,al,ov in s[0]:
            o.cells=dict(c); o.alive=al
            if ov is not None: o.lazy.ov=list(ov[0])
        del self.m.objs[len(s[0]):]
        del self.m.divisors[s[1]:]
    def header_phis(self):
        return [I for I in self.f.block(self.L.header) if I.op=='phi']
    def val(self,o,ty):
        return self.regs_now[o[1]] if o[0]=='l' else self.m.cval(o,ty)
    def body(self,phis,phase):
        """one iteration from the header with the given phi values -> (next phi values or None, record)"""
        m=self.m; R=Region(self.L,phase); regs=dict(self.regs); al=[]
        r=m.run_blocks(self.f,self.L.header,self.prev,regs,al,R,dict(phis))
        if r is None or not isinstance(r,tuple) or r[0] not in('back','exit'): return None,R,('ret',)
        for p in al:
            pass
        nxt={}
        if r[0]=='back':
            for I in self.ph:
                o=I.a[0][r[1]]; nxt[I.res]=regs[o[1]] if o[0]=='l' else m.cval(o,I.ty)
        return nxt,R,r
    def run(self):
        m=self.m; w=m.w; self.ph=self.header_phis()
        init={}
        for I in self.ph:
            o=I.a[0][self.prev]; init[I.res]=self.regs[o[1]] if o[0]=='l' else m.cval(o,I.ty)
        S0=self.snap(); F0=m.I.save(); objs0=[x[0] for x in S0[0]]
        # pass A: one iteration from the initial state
        sv=(m.unchecked,); m.unchecked=True
        try: nA,RA,rA=self.body(init,'A')
        finally: m.unchecked=sv[0]
        stA=self.state(objs0); self.restore(S0); m.I.restore(F0)
        if rA[0]!='back' or not any(isinstance(c.a,SI) for _,c in RA.rec): return None       # concrete trip count: execute it
        st0=self.state(objs0)
        # classify and build the generic state; unknown cells start as accumulators
        k=m.fresh(); m.isym(k,0); kk=SI({k:1},0)
        kinds={}
        self.deltas=0
        cells=[key for key in stA if key not in st0 or not same(w,stA[key],st0[key])]
        items=[('p',I.res) for I in self.ph]+[('c',)+key for key in cells]
        ini={}; one={}
        for it in items:
            if it[0]=='p': ini[it]=init[it[1]]; one[it]=nA[it[1]]
            else: ini[it]=st0.get(it[1:],UNDEF); one[it]=stA.get(it[1:],UNDEF)
        for it in items: kinds[it]=self.kind(ini[it],one[it])
        M=None
        for attempt in range(8):
            acc={}
            gen=self.generic_values(items,ini,kinds,kk,acc)
            names={k}|{t.args[0] for t in acc.values()}
            m.generic.append(names); svu=m.unchecked
            try:
                self.install(items,gen); m.I.b[k]=(0,None)
                if M is None: m.unchecked=True
                else: m.I.facts.append(M-kk)
                for o in objs0:
                    if isinstance(o.lazy,AArr): o.lazy.log=[]; o.lazy.logn=len(o.lazy.ov)
                phis={it[1]:gen[it] for it in items if it[0]=='p'}
                nB,RB,rB=self.body(phis,'B')
                if rB[0]!='back': raise Unsupported('loop body leaves the loop: %r'%(rB,))
                stB=self.state(objs0); wr={o:(o.lazy.ov[o.lazy.logn:],list(o.lazy.log),o.lazy.ov[:o.lazy.logn]) for o in objs0 if isinstance(o.lazy,AArr)}
                for o in m.objs[len(objs0):]: pass
                deadok=all(not o.alive or o.kind in('global','func') or (o.kind=='elem' and o.cells==o.elem0) for o in m.objs[len(objs0):])
            finally:
                m.generic.pop(); m.unchecked=svu
                for o in objs0:
                    if isinstance(o.lazy,AArr): o.lazy.log=None
                newdiv=m.divisors[S0[1]:]; self.restore(S0); m.I.restore(F0)
            # which cells change that were not in the list?
            new=[key for key in stB if ('c',)+key not in kinds and (key not in st0 or not same(w,stB[key],st0[key]))]
            if new:
                for key in new:
                    it=('c',)+key; items.append(it); ini[it]=st0.get(key,UNDEF); one[it]=stA.get(key,UNDEF); kinds[it]=self.kind(ini[it],stB[key]) if not isinstance(stB[key],T) else 'acc'
                continue
            # check the classification
            again=False; fs={}; accs=[t.args[0] for t in acc.values()]
            zero={a:w.zero for a in accs}
            for it in items:
                nx=nB[it[1]] if it[0]=='p' else stB.get(it[1:],UNDEF); kd=kinds[it]
                if kd=='const':
                    if not same(w,nx,ini[it]): kinds[it]='acc' if isinstance(nx,T) and isinstance(ini[it],T) else 'last'; again=True
                elif kd[0]=='step':
                    if not same(w,nx,self.at(ini[it],kk+1,kd[1])): kinds[it]='last'; again=True
                elif kd=='acc':
                    if not isinstance(nx,T): kinds[it]='last'; again=True; continue
                    if acc[it] is nx: kinds[it]='const'; again=True; continue
                    fr=w.free(nx)
                    if acc[it].args[0] not in fr: kinds[it]='last'; again=True; continue
                    f=w.subst(nx,zero)
                    if not w.eq(nx,acc[it]+f): raise Unsupported('loop-carried value is not a sum')
                    fs[it]=f
            if again: continue
            if M is None:
                M=self.trip(RB,k)
                if isinstance(M,SI) and not m.I.nonneg(M):
                    # zero iterations?
                    if not m.idecide(IC('i>=',M)): M=0
                elif isint(M) and M<0: M=0
                F0=m.I.save()
                if isint(M): return None if M<64 else self.fail('long concrete loop')
                continue
            M2=self.trip(RB,k)
            if not (M2==M if isinstance(M2,SI) else False): raise Unsupported('trip count not stable: %r, %r'%(M,M2))
            break
        else: raise Unsupported('loop summary does not converge')
        if not deadok: raise Unsupported('loop body leaves objects behind')
        # every other exit test must hold on every iteration
        for lab,c in RB.rec:
            pass
        # array writes of the generic iteration become maps
        maps=[]
        for o,(ov,log,before) in wr.items():
            if not ov: continue
            ms=[]
            for x in ov:
                if x[0]!='w': raise Unsupported('nested array loop')
                c=x[1]
                if not isinstance(c,SI) or k not in c.t: raise Unsupported('array cell overwritten by every iteration')
                s=c.t[k]; c0=isub(c,k,0); v=x[2]
                if isinstance(v,T) and set(accs)&w.free(v): raise Unsupported('prefix sums')
                ms.append((c0,s,v))
            # no iteration reads or overwrites what another one writes
            for c0,s,v in ms:
                for c in log:
                    if isint(c): r=None
                    elif not isinstance(c,SI): continue
                    d=c-(c0+s*kk)       # read minus write of the same iteration
                    if isint(d) and d%s: continue
                    if isint(d) and d//s>=0: continue     # read of a cell a later (or this) iteration writes
                    if not isint(d) and k not in d.t and all(x%s==0 for x in d.t.values()) and d.c%s: continue
                    raise Unsupported('loop-carried dependence through %s'%o.name)
                for c1,s1,_ in ms:
                    if (c0,s)!=(c1,s1):
                        d=c0-c1 if isinstance(c0,SI) else (-(c1-c0) if isinstance(c1,SI) else c0-c1)
                        if s!=s1 or not isint(d) or d%s==0: raise Unsupported('overlapping array writes in a loop')
            for c0,s,v in ms:
                if s<0: c0,s,v=c0+(M-1)*s,-s,m.tsub(v,k,M-1-kk)
                maps.append((o,c0,s,v))
        # final state: the header is reached with kappa = M; that last visit is executed normally and leaves
        out=dict()
        for it in items:
            kd=kinds[it]
            if kd=='const': v=ini[it]
            elif kd[0]=='step': v=self.at(ini[it],M,kd[1])
            elif kd=='acc': v=w.lift(ini[it])+SUM(m,fs[it],k,M)
            else: v=UNDEF
            out[it]=v
        self.install(items,out)
        for o,c0,s,v in maps: o.lazy.ov.append(('m',k,c0,s,v,M))
        m.summaries.append((self.f.name,self.L.header,repr(M)))
        if os.environ.get('VC_TB'): print('SUMMARY',self.f.name[:60],self.L.header,'M=',M,{it:kinds[it] for it in items},'maps',[(o.name,c0,s) for o,c0,s,v in maps])
        m.c.ex.loops.add((self.f.name,self.L.header))
        # divisors met in the generic iteration are checked for a generic kappa
        m.divisors+=newdiv
        return {it[1]:out[it] for it in items if it[0]=='p'}
    def fail(self,x): raise Unsupported(x)
    def trip(self,R,k):
        """number of times the header is left for another iteration"""
        m=self.m; cand=[]
        for lab,c in R.rec:
            a=c.a
            if not isinstance(a,SI) or k not in a.t:
                continue      # independent of the iteration: assumed on this path by the stay branch, decided below
            s=a.t[k]; b=isub(a,k,0)
            if c.op=='i!=':
                if abs(s)!=1:
                    b=b.divx(abs(s)) if isinstance(b,SI) else (b//abs(s) if b%abs(s)==0 else None)
                    if b is None: raise Unsupported('loop stride')
                    s//=abs(s)
                cand.append((-b if s==1 else b) if isinstance(b,SI) else (-b if s==1 else b))
            elif c.op=='i>=':
                if s>=0: continue       # monotone: stays true if true at the start
                if s!=-1:
                    # floor(b/|s|) iterations more than one
                    q=-s; b=(b.divx(q) or m.floordiv(b,q,'udiv')) if isinstance(b,SI) else b//q
                cand.append(b+1)
            else: raise Unsupported('loop stays only while equal')
        for lab,c in R.rec:
            a=c.a
            if isinstance(a,SI) and k in a.t and not (c.op=='i>=' and a.t[k]>=0): continue
            a0=isub(a,k,0); ic=IC(c.op,a0)
            if not m.I.true(ic): raise Unsupported('exit test not decided: %r'%c)
        if not cand: raise Unsupported('no exit test')
        # several exit tests: the first one to fail ends the loop
        M=cand[0]
        for b in cand[1:]:
            d=b-M if isinstance(b,SI) or isint(M) else -(M-b)
            if not m.idecide(IC('i>=',d)): M=b
        return M
    def kind(self,a,b):
        w=self.m.w
        if isinstance(a,T) and isinstance(b,T): return 'const' if a is b else 'acc'
        if same(w,a,b): return 'const'
        d=delta(a,b)
        if d is not None: return ('step',d)
        if isinstance(b,T) and isint(a): return 'acc'      # memset 0
        return 'last'
    def at(self,v0,n,d):
        if isinstance(v0,Ptr): return Ptr(v0.o,v0.off+n*d)
        if isint(v0) and v0>>63: v0-=1<<64
        return v0+n*d
    def generic_values(self,items,ini,kinds,kk,acc):
        g={}; m=self.m; w=m.w
        for it in items:
            kd=kinds[it]
            if kd=='const': g[it]=ini[it]
            elif kd[0]=='step': g[it]=self.at(ini[it],kk,kd[1])
            elif kd=='acc':
                nm=m.fresh().replace('k#','a#'); t=w.sym(nm,np.full(w.N,np.nan)); acc[it]=t; g[it]=t
            else: g[it]=UNDEF
        return g
    def install(self,items,vals):
        for it in items:
            if it[0]=='c':
                o,off,size=it[1:]; self.m.clear(o,off,size)
                if vals[it] is UNDEF: o.cells.pop(off,None); o.cells[off]=(size,UNDEF)
                else: o.cells[off]=(size,vals[it])
    def state(self,objs):
        d={}
        for o in objs:
            if isinstance(o.lazy,AArr) or not o.alive: continue
            for off,(s,v) in o.cells.items(): d[(o,off,s)]=v
        return d
class Cut:
    """Invariant reasoning for a loop whose body calls contracted (ghost) functions: one path executes the first
    iteration from the real entry state (and ends at the back edge), the others start from an arbitrary state that
    satisfies the invariant, execute up to two iterations, and end at the back edge, where the invariant is checked.
    The relation of the loop-carried values (header phis, memory cells the body changes) to the ghost state is found
    by weakening: unchanged / equal to a ghost quantity / entry value plus or minus the iteration number / positive /
    arbitrary; a relation that is not inductive is dropped and everything is done again.
    ghost: .havoc(m,i) makes the ghost state an arbitrary invariant one; .reals() named ghost quantities;
    .inv(m,i) records the obligations of the ghost invariant at the header of iteration i."""
    def __init__(self,c,ghost,fpat):
        self.c=c; self.g=ghost; self.fpat=fpat; self.active=None; self.k=0; self.i=0; self.base=False; self.used=False; c.cut=self
        self.info=c.ex.__dict__.setdefault('cutinfo',{})
    def cuts(self,f):
        """[(loop, cut point)]: outermost loops of f with calls, and a block every cycle of the loop goes through"""
        R=getattr(f,'_cuts',None)
        if R is not None: return R
        R=[]
        for L in loops_of(f):
            if any(x is not L and L.loop<x.loop for x in loops_of(f)): continue
            calls=lambda X:any(I.op in('call','invoke') and not (I.a[0][0]!='l' and str(I.a[0][1]).startswith('llvm.')) for b in X.loop for I in f.block(b))
            if not calls(L): continue
            inner={x.header:x.loop for x in loops_of(f) if x.loop<L.loop and not calls(x)}      # ordinary loops inside the body
            def acyclic(h):
                col={}
                def go(b):
                    col[b]=1
                    for x in succs(f.block(b)):
                        if x in L.loop and x!=h and not (x in inner and b in inner[x] and h not in inner[x]):
                            if col.get(x)==1 or x not in col and not go(x): return False
                    col[b]=2; return True
                return all(b==h or b in col or go(b) for b in sorted(L.loop))
            for h in [L.header]+[x.header for x in loops_of(f) if x.loop<L.loop]:
                if acyclic(h): R.append((L,h)); break
        f._cuts=R; return R
    def find(self,f,label):
        """the loop cut at block label, if any"""
        if not any(p in f.name for p in self.fpat): return None
        return next((L for L,h in self.cuts(f) if h==label),None)
    def inside(self,f,label):
        """label heads a loop that contains a cut point"""
        return any(p in f.name for p in self.fpat) and any(x.header==label and h in x.loop for L,h in self.cuts(f) for x in loops_of(f))
    def enter(self,m,f,label,prev,regs):
        L=self.find(f,label); key=(f.name,label)
        if self.active is None: self.frame=regs; return self.arrive(m,f,L,key,prev,regs)
        if self.active!=key or self.frame is not regs: raise Unsupported('second loop over ghost calls')
        return self.back(m,f,L,key,prev,regs)
    def phis(self,m,f,L,prev,regs,label):
        d={}
        for b in L.loop:
            for I in f.block(b):
                if I.res is not None and I.res in regs: d[('p',I.res)]=(regs[I.res],('i',1) if I.op in('icmp','fcmp') else I.ty)
        for I in f.block(label):
            if I.op!='phi': break
            o=I.a[0][prev]; d[('p',I.res)]=(regs[o[1]] if o[0]=='l' else m.cval(o,I.ty),m.m.resolve(I.ty) if I.ty[0]=='named' else I.ty)
        return d
    def grown(self,m,o,ov0):
        """an array of which every iteration writes the next element: the first i elements are those of a ghost map"""
        ov=o.lazy.ov; info=self.info.setdefault('arrays',{}); n=m.objs.index(o)
        if self.base:
            w=[x for x in ov if x not in ov0]
            if len(w)!=1 or w[0][0]!='w' or w[0][1]!=0: raise Unsupported('array %s written by a cut loop'%o.name)
            if n in info: ok=m.w.eq(w[0][2],self.g.maps()[info[n]](0)) if isinstance(w[0][2],T) else False
            else:
                for k,f in self.g.maps().items():
                    if isinstance(w[0][2],T) and m.w.eq(w[0][2],f(0)): info[n]=k; return True
                ok=False
            if not ok: raise Unsupported('array %s written by a cut loop'%o.name)
            return False
        x=ov[-1]
        if len(ov)!=len(ov0) or x[0]!='m' or x[1:4]!=self.filled[o][1:4] or x[5]-self.i-1!=0: raise Unsupported('array %s written by a cut loop'%o.name)
        return False
    def fill(self,m):
        self.filled={}
        for n,name in self.info.get('arrays',{}).items():
            o=m.objs[n] if n<len(m.objs) else None
            if o is None or not isinstance(o.lazy,AArr): continue      # not allocated on this path
            if isint(self.i) and self.i==0: continue
            k=m.fresh(); kk=m.isym(k,0); x=('m',k,0,1,self.g.maps()[name](kk),self.i); o.lazy.ov.append(x); self.filled[o]=x
    def mark(self,m): self.arrs=[(o,len(o.lazy.st) if isinstance(o.lazy,(PArr,MArr)) else list(o.lazy.ov)) for o in m.objs if isinstance(o.lazy,(AArr,PArr,MArr))]
    def cells(self,m):
        d={}
        for n,o in enumerate(m.objs[:self.nobj]):
            if not o.alive or isinstance(o.lazy,(AArr,PArr,MArr)): continue
            for off,(s,v) in o.cells.items(): d[('c',n,off,s)]=v
        return d
    def cands(self,m,v,ty):
        w=m.w; r=[('const',)]
        if isinstance(v,T):
            for n,t in self.g.reals().items():
                if w.eq(v,t): r.append(('ghost',n))
            if m.c.path.signs(v)<=set('+'): r.append(('pos',))
            r.append(('any',))
        elif isinstance(v,(int,SI)) and not isinstance(v,bool):
            if ty==('i',1) or (ty==('i',8) and isint(v) and v in(0,1)): r.append(('fork',))
            else:
                for n,t in self.ints(m).items():
                    if same(w,v,t): r.append(('ighost',n))
                r+=[('step',x) for x in STRIDES]
        elif isinstance(v,Ptr) and v.o is not None: r+=[('ighost',n) for n,t in self.ints(m).items() if same(w,v,t)]+[('step',x) for x in STRIDES]
        elif v is UNDEF and ty==('i',1): r.append(('fork',))
        r.append(('undef',)); return r
    def value(self,m,it,v0,cd):
        k=cd[0]; w=m.w
        if k=='const': return v0
        if k=='ghost': return self.g.reals()[cd[1]]
        if k=='ighost': return self.ints(m)[cd[1]]
        if k=='step': return Ptr(v0.o,v0.off+self.i*cd[1]) if isinstance(v0,Ptr) else m_sgn(v0)+self.i*cd[1]
        if k in('pos','any'):
            self.nf+=1; t=self.c.real('hv%d'%self.nf,1.0)
            if k=='pos': self.c.assume(t,'>')
            return t
        if k=='fork': return 1 if self.c.path.choice() else 0
        return UNDEF
    def arrive(self,m,f,L,key,prev,regs):
        self.used=True; self.nobj=len(m.objs); self.nf=0
        info=self.info.setdefault(key,{}); self.v0={}; P=self.phis(m,f,L,prev,regs,key[1]); C=self.cells(m)
        for it,(v,ty) in P.items(): self.v0[it]=v; info.setdefault(it,self.cands(m,v,ty))
        for it in info:
            if it[0]=='c': self.v0[it]=C.get(it,UNDEF)
        for it,cs in info.items():      # the entry state satisfies every remaining candidate
            while True:
                ok=self.holds0(m,self.v0[it],cs[0])
                if ok: break
                cs.pop(0)
        self.active=key; self.g.arrived(m)
        self.g.inv(m,0,'on entry')
        if self.c.path.choice(): self.base=True; self.i=0; self.filled={}; self.snap=self.cells(m); self.mark(m); return None
        self.base=False; self.i=m.isym('it#',0); self.g.havoc(m,self.i)
        out={}; ph={I.res for I in f.block(key[1]) if I.op=='phi'}
        for it in sorted(info,key=repr):
            v=self.value(m,it,self.v0[it],info[it][0])
            if it[0]=='p':
                if it[1] in ph: out[it[1]]=v
                else: regs[it[1]]=v
            elif info[it][0][0]!='const':
                o=m.objs[it[1]]; m.clear(o,it[2],it[3])
                o.cells[it[2]]=(it[3],v)
        self.fill(m); self.snap=self.cells(m); self.mark(m); m.c.ex.loops.add(key)
        return out if out else None
    def ints(self,m): return self.g.ints() if hasattr(self.g,'ints') else {}
    def holds0(self,m,v,cd):
        k=cd[0]
        if k=='ghost': return isinstance(v,T) and m.w.eq(v,self.g.reals()[cd[1]])
        if k=='ighost': return isinstance(v,(int,SI,Ptr)) and isame(m,v,self.ints(m)[cd[1]])
        if k=='pos': return isinstance(v,T) and m.c.path.signs(v)<=set('+')
        if k=='any': return isinstance(v,T)
        if k=='step': return isinstance(v,(int,SI)) or isinstance(v,Ptr) and v.o is not None
        if k=='fork': return v is UNDEF or (isint(v) and v in(0,1))
        return True
    def keeps(self,m,v0,v,cd):
        k=cd[0]
        if k=='const': return same(m.w,v,v0)
        if k=='step': 
            if isinstance(v,Ptr) and isinstance(v0,Ptr):
                if v.o is not v0.o: return False
                v,v0=v.off,v0.off
            if not (isinstance(v,(int,SI)) and isinstance(v0,(int,SI))): return False
            d=(m_sgn(v)-m_sgn(v0))-(self.i+1)*cd[1] if not (isint(v) and isint(v0) and isint(self.i)) else m_sgn(v)-m_sgn(v0)-(self.i+1)*cd[1]
            return d==0 if isint(d) else m.I.true(IC('i==',d))
        return self.holds0(m,v,cd) if k!='undef' else True
    def back(self,m,f,L,key,prev,regs):
        self.k+=1
        if self.k==2: raise CutEnd()
        info=self.info[key]; P=self.phis(m,f,L,prev,regs,key[1]); C=self.cells(m); ch=False
        if hasattr(self.g,'advance'): self.g.advance(m,self.i)
        for o,n in self.arrs:
            A=o.lazy
            if isinstance(A,AArr) and (o in self.filled or self.base and A.ov!=n and hasattr(self.g,'maps')):
                ch|=self.grown(m,o,n); continue
            if (len(A.st) if isinstance(A,(PArr,MArr)) else A.ov)!=n and not (hasattr(self.g,'owns') and self.g.owns(m,o)): raise Unsupported('array %s written by a cut loop'%o.name)
        for it in set(C)|set(self.snap):
            if it in info: continue
            a,b=self.snap.get(it,UNDEF),C.get(it,UNDEF)
            if a is UNDEF and b is UNDEF or same(m.w,a,b): continue
            info[it]=self.cands(m,a,('i',8*it[3]) if isinstance(a,int) else None); ch=True
        for it in info:
            v=P[it][0] if it[0]=='p' else C.get(it,UNDEF)
            while not self.keeps(m,self.v0.get(it,UNDEF),v,info[it][0]):
                if it not in self.v0: break
                info[it].pop(0); ch=True
        if ch: raise CutRestart()
        self.g.inv(m,self.i+1,'at the back edge')
        if self.base: raise CutEnd()
        self.mark(m); return None
STRIDES=(1,-1,8,16,24,2,4,-8,-16)
def isame(m,a,b):
    if isinstance(a,Ptr)!=isinstance(b,Ptr): return False
    if isinstance(a,Ptr):
        if a.o is not b.o: return False
        a,b=a.off,b.off
    d=m_sgn(a)-m_sgn(b); return d==0 if isint(d) else m.I.true(IC('i==',d))
def m_sgn(v): return v-(1<<32) if isint(v) and v>>31 and v<(1<<32) else v
def delta(a,b):
    if isinstance(a,Ptr) and isinstance(b,Ptr):
        if a.o is not b.o: return None
        d=b.off-a.off; return d if isint(d) else None
    if isinstance(a,(int,SI)) and isinstance(b,(int,SI)) and not isinstance(a,bool):
        if isint(a) and isint(b):
            d=b-a
            if d>>62 not in(0,-1): d=(d+(1<<63))%(1<<64)-(1<<63)
            return d
        d=b-a
        return d if isint(d) else None
    return None
def same(w,a,b):
    if a is b: return True
    if isinstance(a,T) and isinstance(b,T): return w.eq(a,b)
    if isinstance(a,Ptr) and isinstance(b,Ptr): return a.o is b.o and (a.off==b.off)
    if isinstance(a,(int,SI)) and isinstance(b,(int,SI)): return a==b
    if isinstance(a,T) and isint(b) and b==0: return w.zero_p(a)
    if isinstance(b,T) and isint(a) and a==0: return w.zero_p(b)
    return False
# ---- sums ---------------------------------------------------------------------
def _depth(w,t):
    fr=w.free(t); d=0
    while KB%d in fr: d+=1
    return d
def SUM(m,f,k,U):
    """sum of f over 0 <= k < U, in normal form"""
    w=m.w; f=w.lift(f)
    if isint(U) and U<=0: return w.zero
    if k not in w.free(f): return m.toT(U)*f if hasattr(m,'toT') else (w.lift(U) if isint(U) else m.itof(U))*f
    if isint(U):
        r=w.zero
        for i in range(U): r=r+m.tsub(f,k,i)
        return r
    # a sum and difference of terms: summed separately
    tot=w.zero
    for coef,g in pieces(m,f,k): tot=tot+coef*_tot(m,g,k,U)
    return tot
def pieces(m,f,k):
    """f as sum of (k-free coefficient) * (k-dependent monomial), if that is small, else [(1,f)]"""
    w=m.w; cache=w.__dict__.setdefault('_pieces',{}); key=(f.mod,k)
    r=cache.get(key)
    if r is not None: return r
    memo=w.__dict__.setdefault('_pmemo',{}).setdefault(k,{}); atoms=w.__dict__.setdefault('_patoms',{}).setdefault(k,{}); rep=w.__dict__.setdefault('_prep',{}).setdefault(k,[])
    class Big(Exception): pass
    def atom(t):
        if t.mod not in atoms: atoms[t.mod]=len(rep); rep.append(t)
        return {((atoms[t.mod],1),):w.one}
    def put(d,mo,c):
        if mo in d: c=d[mo]+c
        if c.op=='c' and not c.args[0] or w.zero_p(c): d.pop(mo,None)
        else: d[mo]=c
    def mono(a,b):
        d=dict(a)
        for x,e in b:
            d[x]=d.get(x,0)+e
            if not d[x]: del d[x]
        return tuple(sorted(d.items()))
    def one(t):
        if k not in w.free(t): return {():t}
        op=t.op
        if op in('+','-'):
            a,b=memo[t.args[0].id],memo[t.args[1].id]; d=dict(a)
            for mo,c in b.items(): put(d,mo,c if op=='+' else -c)
            return d
        if op=='neg': return {mo:-c for mo,c in memo[t.args[0].id].items()}
        if op=='*':
            a,b=memo[t.args[0].id],memo[t.args[1].id]; d={}
            if len(a)*len(b)>2000: raise Big()
            for x,c in a.items():
                for y,e in b.items(): put(d,mono(x,y),c*e)
            if len(d)>200: raise Big()
            return d
        if op=='/':
            a,b=memo[t.args[0].id],memo[t.args[1].id]
            if len(b)==1:
                (y,e),=b.items(); y=tuple((x,-q) for x,q in y); return {mono(x,y):c/e for x,c in a.items()}
            # 1/denominator is an atom, normalised by the coefficient of its first monomial
            y0=min(b); e=b[y0]; z=None
            if not len(b)>60:
                nt=w.zero
                for y,q in sorted(b.items()): nt=nt+(q/e)*mterm(y)
            else: nt=t.args[1]; e=w.one
            (y,_),=atom(nt).items(); y=((y[0][0],-1),); return {mono(x,y):c/e for x,c in a.items()}
        return atom(t)
    def mterm(mo):
        t=w.one
        for a,e in mo:
            for _ in range(abs(e)): t=t*rep[a] if e>0 else t/rep[a]
        return t
    try:
        st=[f]
        while st:
            t=st[-1]
            if t.id in memo: st.pop(); continue
            ch=[a for a in t.args if isinstance(a,T) and a.id not in memo] if t.op in('+','-','neg','*','/') and k in w.free(t) else []
            if ch: st+=ch; continue
            memo[t.id]=one(t); st.pop()
        d=memo[f.id]
        if len(d)>200: raise Big()
        r=[(c,mterm(mo)) for mo,c in sorted(d.items())]
    except Big: r=[(w.one,f)]
    cache[key]=r
    return r
def _tot(m,g,k,U):
    w=m.w
    if k not in w.free(g): return (w.lift(U) if isint(U) else m.itof(U))*g
    # canonical direction: ascending accesses
    if direction(m,g,k)<0: g=m.tsub(g,k,SI({k:-1},-1)+U)
    # canonical shift: the smallest element offset of an array access becomes 0
    q=shift(m,g,k)
    if q is None: q=0
    h=m.tsub(g,k,SI({k:1},-q)) if q else g      # sum over q <= j < U+q of h(j)
    hi=U+q; c=hi.c; hi0=SI(hi.t,0)
    d=_depth(w,h); kb=KB%d
    if kb not in w.syms: w.sym(kb,np.full(w.N,np.nan))
    hs=w.subst(h,{k:w.syms[kb]})
    s=w.uf('SUM',[hs,m.itof(hi0)],1,lambda a,b:[np.full(w.N,np.nan)])[0]
    if abs(c)>16 or abs(q)>16: raise Unsupported('sum offsets')
    for i in range(c): s=s+m.tsub(h,k,hi0+i)
    for i in range(-c): s=s-m.tsub(h,k,hi0-1-i)
    for i in range(q): s=s-m.tsub(h,k,i)
    for i in range(-q): s=s+m.tsub(h,k,-1-i)
    return s
def direction(m,g,k):
    w=m.w; sg=0; seen=set(); st=[g]
    while st:
        x=st.pop()
        if x.id in seen or k not in w.free(x): continue
        seen.add(x.id)
        if x.op=='uf' and x.args[0].startswith('SEL'):
            try: d,c=w.linear(x.args[3])
            except Exception: continue
            s=d.get(w.syms[k])
            if s:
                if sg and (s>0)!=(sg>0): return 0
                sg=s
        for a in x.args:
            if isinstance(a,T): st.append(a)
    return sg
def shift(m,g,k):
    w=m.w; best=None; seen=set(); st=[g]
    while st:
        x=st.pop()
        if x.id in seen or k not in w.free(x): continue
        seen.add(x.id)
        if x.op=='uf' and x.args[0].startswith('SEL'):
            try: d,c=w.linear(x.args[3])
            except Exception: continue
            s=d.get(w.syms[k])
            if s and s>0 and s.denominator==1:
                q=math.floor(c/s); best=q if best is None else min(best,q)
        for a in x.args:
            if isinstance(a,T): st.append(a)
    return best

# ---- sizes of failing paths (for native replay) --------------------------------
def sizes(intfails,name,lo,hi):
    """candidate values of the size `name` on paths with undischarged obligations: solver models of the path's integer facts and the constants met in them"""
    import subprocess
    out=[]
    for I in intfails[:12]:
        vs=set(I.b); 
        for a in I.facts+I.ne: vs|=set(lin(a)[0])
        q=lambda n:'|%s|'%n
        tx=lambda a:'(+ %s)'%' '.join(['(* %s %s)'%(('(- %d)'%-v if v<0 else v),q(k)) for k,v in lin(a)[0].items()]+[str(lin(a)[1]) if lin(a)[1]>=0 else '(- %d)'%-lin(a)[1],'0'])
        L=['(declare-const %s Int)'%q(n) for n in vs]
        for n,(l,h) in I.b.items():
            if l is not None: L.append('(assert (>= %s %d))'%(q(n),l))
            if h is not None: L.append('(assert (<= %s %d))'%(q(n),h))
        L+=['(assert (>= %s 0))'%tx(a) for a in I.facts]+['(assert (not (= %s 0)))'%tx(a) for a in I.ne]+['(assert (>= %s %d))'%(q(name),lo)]
        try: r=subprocess.run(['z3','-in','-T:5'],input='\n'.join(L+['(minimize %s)'%q(name),'(check-sat)','(get-value (%s))'%q(name)]),capture_output=True,text=True).stdout
        except OSError: r=''
        import re
        mm=re.search(r'\(\(\|?%s\|? (\d+)\)\)'%re.escape(name),r)
        if mm: out+=[int(mm.group(1))+d for d in(0,1,2,7)]
        for a in I.facts+I.ne:
            d,c=lin(a)
            if name in d: out+=[abs(c)//abs(d[name])+e for e in(0,1,2)]
    res=[]
    for n in out:
        if lo<=n<=hi and n not in res: res.append(n)
    return res[:10]
