"""Path exploration, contract context (symbolic and native), prover and outcome bookkeeping."""
import os, sys, json, time, math, subprocess, tempfile, itertools, traceback
from fractions import Fraction
import numpy as np
np.seterr(all='ignore')
from terms import T, World, Unsupported, meq, mzero, P, _mmul
import symexec
from symexec import Machine, Cond, Ptr, Obj, MemFault, PathAbort, UNDEF, isint
import poly, loops
from poly import Poly, TooBig
import build

NEG={'>':'<=','<=':'>','<':'>=','>=':'<','==':'!=','!=':'=='}
SETS={'>':frozenset('+'),'>=':frozenset('+0'),'<':frozenset('-'),'<=':frozenset('-0'),'==':frozenset('0'),'!=':frozenset('+-')}
FLIP={'>':'<','<':'>','>=':'<=','<=':'>=','==':'==','!=':'!='}
class Infeasible(Exception): pass
class Refuted(Exception): pass

def cmpnum(x,op):
    with np.errstate(all='ignore'):
        return {'>':x>0,'>=':x>=0,'<':x<0,'<=':x<=0,'==':x==0,'!=':x!=0}[op]

class Obl:
    __slots__=('label','status','method','detail','unwit','conds','model')
    def __init__(self,label,status,method='',detail='',unwit=False,conds=None):
        self.label=label; self.status=status; self.method=method; self.detail=detail; self.unwit=unwit; self.conds=conds; self.model=None

class Path:
    def __init__(self,ex,prefix):
        self.ex=ex; self.w=ex.w; self.prefix=prefix; self.pos=0; self.taken=[]
        self.conds=[]; self.mask=np.ones(self.w.N,bool); self.extra=[]
        self.forbidden=[]; self.generic=False; self.pivots=set(); self.ints=loops.Ints()
    def choice(self):
        """unconstrained two-way branch (integer conditions)"""
        if self.pos<len(self.prefix): ch=self.prefix[self.pos]
        else: ch=True; self.ex.push(self.taken+[False])
        self.pos+=1; self.taken.append(ch); return ch
    def assume(self,t,op):
        """precondition / ghost fact: restrict the path without forking"""
        t=self.w.lift(t)
        c=self.w.as_const(t)
        if c is not None:
            if not cmpnum(float(c),op): raise Infeasible()
            return
        self.conds.append((t,op)); self.mask=self.mask&cmpnum(t.num,op)&np.isfinite(t.num)
    def ratio_sign(self,a,b):
        """sign of the constant k with a = k b (fingerprints), else None"""
        if self.w.NP==0: return 1 if a is b else (-1 if (a.op=='neg' and a.args[0] is b) or (b.op=='neg' and b.args[0] is a) else None)
        q=None
        for x,y in zip(a.mod,b.mod):
            if x is None or y is None: continue
            if y==0:
                if x!=0: return None
                continue
            q=x*pow(y,-1,P)%P; break
        if q is None: return None
        if not meq(a.mod,tuple(None if y is None else y*q%P for y in b.mod)): return None
        r=self.w._ratrec(q)
        if r is None or r==0: return None
        return 1 if r>0 else -1
    def signs(self,t):
        s=set('+-0')
        for t0,op0 in self.conds:
            r=self.ratio_sign(t0,t)
            if r is None: continue
            s&=SETS[op0 if r>0 else FLIP[op0]]
        iv=self.interval(t)
        if iv:
            lo,hi=iv
            if lo is not None:
                if lo>0: s&=set('+')
                elif lo==0: s&=set('+0')
            if hi is not None:
                if hi<0: s&=set('-')
                elif hi==0: s&=set('-0')
        return s
    def symb(self,name):
        lo,hi=self.w.bounds.get(name,(None,None))
        return lo,hi
    def bounds(self):
        """symbol bounds implied by declared bounds and linear single-symbol path conditions"""
        b={k:list(v) for k,v in self.w.bounds.items()}
        for t,op in self.conds:
            try: d,c=self.w.linear(t)
            except Exception: continue
            d={k:v for k,v in d.items()}
            cc=c
            if len(d)==2 and self.w.pi in d:
                p=d.pop(self.w.pi); cc=c+p*Fraction(math.pi)
            if len(d)!=1: continue
            (k,v),=d.items()
            if k.op!='v': continue
            r=-cc/v; nm=k.args[0]; e=b.setdefault(nm,[None,None])
            o=op if v>0 else FLIP[op]
            if o in('<','<=','=='): e[1]=r if e[1] is None else min(e[1],r)
            if o in('>','>=','=='): e[0]=r if e[0] is None else max(e[0],r)
        return b
    def interval(self,t):
        """interval of a linear term from symbol bounds"""
        try: d,c=self.w.linear(t)
        except Exception: return None
        if len(d)>6: return None
        b=None; lo=hi=c
        for k,v in d.items():
            if k.op=='pi': l,h=Fraction(math.pi),Fraction(math.pi)
            elif k.op=='v':
                if b is None: b=self.bounds()
                l,h=b.get(k.args[0],(None,None))
            elif k.op=='sqrt': l,h=Fraction(0),None
            elif k.op=='uf' and k.args[0]=='LN3' and k.args[2]==3: l,h=Fraction(0),Fraction(math.pi)
            elif k.op=='uf' and k.args[0]=='NN': l,h=Fraction(0),None
            else: return None
            if v<0: l,h=h,l
            lo=None if lo is None or l is None else lo+v*l
            hi=None if hi is None or h is None else hi+v*h
        return lo,hi
    def decide(self,c):
        t,op=c.a,c.op
        k=self.w.as_const(t)
        if k is not None: return bool(cmpnum(float(k) if k else 0.0,op)) if k==0 or float(k)!=0 else bool(cmpnum(1.0 if k>0 else -1.0,op))
        if self.generic and op in('==','!='): self.ex.note('generic position: a computed pivot/divisor that is not identically zero is nonzero'); return op=='!='
        s=self.signs(t); S=SETS[op]
        if self.pivots and t.mod in self.pivots: s&=set('+')
        if not s: raise Infeasible()
        if s<=S: return True
        if not (s&S): return False
        if self.pos<len(self.prefix):
            ch=self.prefix[self.pos]
        else:
            fin=np.isfinite(t.num)
            m=cmpnum(t.num,op)&self.mask&fin; n=(~cmpnum(t.num,op))&self.mask&fin
            a,b=bool(m.any()),bool(n.any())
            if self.ex.mode=='num':
                if not a and not b: raise Infeasible()
                ch=a
                if a and b: self.ex.push(self.taken+[False])
            elif a and b:
                ch=True; self.ex.push(self.taken+[False])
            elif a or b:
                ch=a
                if not self.ex.infeasible(self,(t,NEG[op] if ch else op)): self.ex.push(self.taken+[not ch])
            else:
                if self.ex.infeasible(self,(t,op)): ch=False
                else:
                    ch=True
                    if not self.ex.infeasible(self,(t,NEG[op])): self.ex.push(self.taken+[False])
        self.pos+=1; self.taken.append(ch)
        o=op if ch else NEG[op]
        self.conds.append((t,o)); self.mask=self.mask&cmpnum(t.num,o)&np.isfinite(t.num)
        return ch

class Explorer:
    def __init__(self,spec,mod,mode='sym',seed=1,N=384,so=None,overrides=None,budget=200,dem=None,max_paths=400):
        self.spec=spec; self.mod=mod; self.mode=mode; self.so=so; self.overrides=overrides or {}
        if mode=='num': N=spec.get('numN',N)
        self.w=World(seed=seed,npts=0 if mode=='num' else spec.get('npts',10),nsamp=N)
        self.w.nummode=(mode=='num'); self.w.sqrules={}; self.w.angle01pi=set()
        self.w.decider=lambda h,op:self.path.decide(Cond(op,h))
        self.stack=[]; self.obls=[]; self.violations=[]; self.paths=0; self.witnessed=0
        self.called={}; self.assumed={}; self.steps=0
        self.fcache={}; self.ncache={}; self.t0=time.time(); self.budget=budget; self.max_paths=max_paths
        self.dem=dem or {}; self.notes=[]; self.problem=None; self.samples_checked=0; self.smt_time=0
        self.rng=np.random.RandomState(seed*7919+17); self.sampleobj=[]; self.cands=[]; self.pathmodels=[]; self.grouped=set(); self.flags=set(); self.nfresh=0; self.loops=set(); self.intfails=[]
    def push(self,p): self.stack.append(p)
    def note(self,x):
        if x not in self.notes: self.notes.append(x)
    def ov(self,name,num,default=None):
        """replay of a candidate model: exact in a quarter of the samples, jittered at several scales in the rest"""
        ms=self.overrides if isinstance(self.overrides,list) else [self.overrides] if self.overrides else []
        if not ms: return num
        num=np.array(num,float); B=max(1,len(num)//len(ms)) if len(num)>=len(ms) else 1
        if self.mode=='sym': B=max(1,min(8,len(num)//(2*len(ms))))      # keep at least half of the ordinary samples
        for i,m in enumerate(ms):
            v=m.get(name); a=i*B; n=min(B,len(num)-a)
            if n<=0: break
            if v is None:
                if default is None or not any(k in m for k in default): continue
                v=0.0
            j=self.rng.randn(n)*10.**self.rng.uniform(-9,-1,n); j[:max(1,n//4)]=0
            num[a:a+n]=v+j*max(1.0,abs(v))
        return num
    def magnitude(self):
        n=len(self.w.syms)
        if getattr(self,'_mag',(0,))[0]!=n: self._mag=(n,np.max([np.abs(t.num) for t in self.w.syms.values()],axis=0)) if n else (0,1.0)
        return self._mag[1]
    def key(self,t):
        f=next((x for x in t.mod if x),1); i=pow(f,-1,P)
        return tuple(None if x is None else x*i%P for x in t.mod)+(f,)
    def infeasible(self,path,cond):
        if time.time()-self.t0>self.budget: return False
        cs=path.conds+[cond]
        key=frozenset((t.mod,op) for t,op in cs)
        if key in self.fcache: return self.fcache[key]
        t1=time.time()
        try:
            rel=self.relevant(cs)
            mdl={}
            r=poly.smt_query(self.w,rel,timeout=self.spec.get('smt',4),model=mdl)
            if r=='unknown': r=poly.smt_query(self.w,rel,timeout=self.spec.get('smt',4),solver='cvc5')
            if r=='sat':
                mdl={k:v for k,v in mdl.items() if k[0]!='#'}
                if mdl and mdl not in self.pathmodels: self.pathmodels.append(mdl)
        except (TooBig,Unsupported) : r='unknown'
        self.smt_time+=time.time()-t1
        self.fcache[key]=(r=='unsat')
        return r=='unsat'
    def relevant(self,cs):
        return cs[-14:]
    def run(self,fn):
        self.stack=[[]]
        while self.stack:
            if self.paths>=self.max_paths or time.time()-self.t0>self.budget:
                self.problem='path/time budget after %d paths'%self.paths
                self.obls.append(Obl('exploration','unknown','',self.problem)); break
            pre=self.stack.pop()
            self.path=Path(self,pre)
            c=Ctx(self)
            try:
                fn(c)
                if self.mode=='sym' and not c.nodiv: c.check_divisors()
            except Infeasible: continue
            except loops.NeedSummary as e:
                self.flags.add(e.key); self.stack.append(pre); continue
            except loops.CutEnd: pass
            except loops.CutRestart:
                self.restarts=getattr(self,'restarts',0)+1
                if self.restarts<60: self.stack=[[]]; self.obls=[]; self.paths=0; self.witnessed=0; continue
                self.obls.append(Obl('loop invariant','unknown','','no inductive invariant found'))
            except Unsupported as e:
                self.problem='unsupported: %s'%e
                if os.environ.get('VC_TB'): traceback.print_exc()
                self.obls.append(Obl('extraction','unknown','',str(e)[:300],unwit=not self.path.mask.any()))
            except (TooBig,) as e:
                self.obls.append(Obl('normal form','unknown','','too big'))
            except RecursionError:
                self.obls.append(Obl('normal form','unknown','','recursion'))
            except MemFault as e:
                self.addfail('memory safety',str(e))
            except PathAbort as e:
                if c.may_abort: pass
                else: self.addfail('no abnormal termination',str(e))
            self.paths+=1
            if self.path.mask.any(): self.witnessed+=1
            for o in c.obls:
                if c.cut is not None and o.status=='refuted': o.status='unknown'      # an arbitrary invariant state need not be reachable
                self.obls.append(o)
            if self.path.ints.b and (self.problem or any(o.status!='discharged' for o in self.obls)): self.intfails.append(self.path.ints)
    def addfail(self,label,detail):
        p=self.path
        if self.mode=='num': return
        wit=p.mask.any()
        if wit: k=int(np.argmax(p.mask)); self.cands.append({n:float(t.num[k]) for n,t in self.w.syms.items()})
        self.obls.append(Obl(label,'refuted' if wit else 'unknown','',detail,not wit,list(p.conds)))

class Ctx:
    """what a contract sees"""
    def __init__(self,ex):
        self.ex=ex; self.w=ex.w; self.path=ex.path; self.mode=ex.mode; self.obls=[]; self.may_abort=False
        self.ncall=0; self.machine=None; self.machines=[]; self.nodiv=False; self.taylor_bounds={}; self.cut=None
    # ---- ghosts ----------------------------------------------------------
    def _sym(self,name,gen,mod=None,bounds=None):
        w=self.w
        if name in w.syms: return w.syms[name]
        num=np.asarray(gen(),float) if callable(gen) else gen
        if name not in self.ex.grouped: num=self.ex.ov(name,num)
        return w.sym(name,num,mod if w.NP else (),bounds)
    def real(self,name,scale=1.0,lo=None,hi=None,wide=False,special=()):
        r=self.ex.rng; N=self.w.N
        def gen():
            x=r.randn(N)*scale
            k=r.randint(0,12,N)
            x=np.where(k==0,0.0,x)
            x=np.where(k==1,scale*r.choice([-1.,1.,2.,-.5],N),x)
            x=np.where(k==2,scale*r.choice([-1,1],N)*10.**r.uniform(-9,0,N),x)
            if wide: x=np.where(k==3,scale*r.choice([-1,1],N)*10.**r.uniform(0,3,N),x)
            if len(special): x=np.where(r.rand(N)<0.3,r.choice(np.array([float(s) for s in special]),N),x)
            if lo is not None and hi is not None:
                u=r.uniform(lo,hi,N); x=np.where((x<lo)|(x>hi),u,x)
            elif lo is not None: x=np.where(x<lo,2*lo-x,x)
            elif hi is not None: x=np.where(x>hi,2*hi-x,x)
            return x
        b=(None if lo is None else Fraction(lo),None if hi is None else Fraction(hi)) if (lo is not None or hi is not None) else None
        return self._sym(name,gen,None,b)
    def vec(self,name,k,scale=1.0,**kw): return [self.real('%s%d'%(name,i),scale,**kw) for i in range(k)]
    def mat(self,name,n,m,scale=1.0): return [[self.real('%s%d_%d'%(name,i,j),scale) for j in range(m)] for i in range(n)]
    def symm(self,name,n,scale=1.0,wide=False):
        if wide:   # the scale of the whole matrix varies over many orders of magnitude
            k='_scale_'+name
            if k not in self.w.__dict__:
                r=self.ex.rng; N=self.w.N; self.w.__dict__[k]=np.where(r.rand(N)<.5,1.0,10.**r.uniform(-12,2,N))
            f=self.w.__dict__[k]; new=['%s%d_%d'%(name,i,j) not in self.w.syms for i in range(n) for j in range(i,n)][0]
            M=self.symm(name,n,scale)
            if new and not self.ex.overrides:
                for i in range(n):
                    for j in range(i,n): M[i][j].num=M[i][j].num*f
            return M
        M=[[None]*n for _ in range(n)]
        for i in range(n):
            for j in range(i,n): M[i][j]=M[j][i]=self.real('%s%d_%d'%(name,i,j),scale)
        return M
    def group(self,name,count,gen,mods,norm=True):
        """jointly sampled symbols"""
        w=self.w
        if name+'0' in w.syms: return [w.syms['%s%d'%(name,i)] for i in range(count)]
        cols=gen(); ms=mods() if w.NP else [()]*count
        for i in range(count): self.ex.grouped.add('%s%d'%(name,i))
        if self.ex.overrides and norm:
            nm=['%s%d'%(name,j) for j in range(count)]; cols=[self.ex.ov(nm[i],cols[i],nm) for i in range(count)]
            l=np.sqrt(sum(x*x for x in cols)); cols=[x/np.where(l>0,l,1) for x in cols]
        return [self._sym('%s%d'%(name,i),cols[i],ms[i]) for i in range(count)]
    def unit(self,name):
        w=self.w; r=self.ex.rng; N=w.N
        def gen():
            v=r.randn(N,3)
            s=np.array([[1,0,0],[0,1,0],[0,0,1],[-1,0,0],[0,-1,0],[0,0,-1],[1,1,0],[1,0,1],[0,1,1],[1,-1,0],[0,1,-1],[-1,0,1],[1,1,1],[-1,1,1],[1,-1,1],[1,1,-1],[-1,-1,-1],[1,2,0],[0,1,2],[1e-9,0,1],[1,1e-7,0],[0,-1,1e-4],[1,1,2],[2,1,1],[1,2,1],[2,2,1],[1,2,2],[2,1,2],[-2,2,1],[-1,-1,0],[-1,0,-1],[0,-1,-1]],float)
            k=r.randint(0,len(s),N); v=np.where((r.rand(N)<.5)[:,None],s[k],v)
            v/=np.sqrt((v*v).sum(1))[:,None]
            return [v[:,0],v[:,1],v[:,2]]
        def mods():
            o=[[],[],[]]
            for _ in range(w.NP):
                while True:
                    a,b=w.rng.randrange(1,P),w.rng.randrange(1,P); d=(1+a*a+b*b)%P
                    if d: break
                i=pow(d,-1,P); o[0].append(2*a*i%P); o[1].append(2*b*i%P); o[2].append((a*a+b*b-1)*i%P)
            return [tuple(x) for x in o]
        n=self.group(name,3,gen,mods)
        for i in range(3): w.bounds[name+str(i)]=(Fraction(-1),Fraction(1))
        w.sqrules[name+'2']=w.one-n[0]*n[0]-n[1]*n[1]
        return n
    def angle(self,name,lo=0.0,hi=None,special=(),logs=True):
        """angle symbol with rich sampling; hi None = unbounded"""
        r=self.ex.rng; N=self.w.N
        h=hi if hi is not None else 20.0
        sp=[0.0,1e-12,1e-8,9.9e-6,1e-5,1.01e-5,5e-5,9.9e-4,1e-3,1.01e-3,4.9e-3,5e-3,5.1e-3,.1,math.pi/2,math.pi/2-1e-7,math.pi/2+1e-7,1.9,2.5,3.0,3.1,math.pi-1e-3,math.pi-1e-5,math.pi-1e-7,math.pi-5e-8,math.pi]+list(special)
        if hi is None or hi>3.2: sp+=[math.pi+1e-3,4.,5.,6.,2*math.pi,2*math.pi-1e-3,6.5,15.]
        if lo is not None and lo<0: sp+=[-x for x in sp]
        if lo is not None and hi is not None: sp+=[hi]
        sp=np.array([x for x in sp if (lo is None or x>=lo) and x<=h])
        def gen():
            x=r.uniform(lo if lo is not None else -h,h,N)
            k=r.randint(0,8,N)
            x=np.where(k<3,r.choice(sp,N),x)
            if logs:
                y=10.**r.uniform(-12,0,N)
                if lo is not None and lo<0: y*=r.choice([-1,1],N)
                x=np.where((k==3)&(y<=h),y,x)
                if hi is not None and abs(hi-math.pi)<1e-9: x=np.where(k==4,math.pi-10.**r.uniform(-9,-1,N),x)
            return x
        b=(None if lo is None else Fraction(lo),None if hi is None else (Fraction(hi) if abs(hi-math.pi)>1e-12 else Fraction(math.pi)))
        t=self._sym(name,gen,None,b)
        if lo==0 and hi is not None and abs(hi-math.pi)<1e-12: self.w.angle01pi.add(name)
        return t
    def sympos(self,name,scale=1.0,**kw): return self.real(name,scale,lo=1e-6,**kw)
    # ---- terms -----------------------------------------------------------
    def const(self,x): return self.w.lift(x if not isinstance(x,float) else Fraction(repr(x)))
    def cos(self,t): return self.w.cos(t)
    def sin(self,t): return self.w.sin(t)
    def sqrt(self,t): return self.w.sqrt(t)
    def wrap(self,t): return self.w.wrap(t)
    @property
    def pi(self): return self.w.pi
    def hint_sq(self,*hs):
        for h in hs:
            if all(h is not x for x in self.w.hints_sq): self.w.hints_sq.append(h)
    def hint_acos(self,*hs):
        for h in hs:
            if all(h is not x for x in self.w.hints_acos): self.w.hints_acos.append(h)
    def hint_atan2(self,*hs):
        for h in hs:
            if all(h[0] is not x[0] or h[1] is not x[1] for x in self.w.hints_atan2): self.w.hints_atan2.append(h)
    def assume(self,t,op): self.path.assume(t,op)
    def decide(self,t,op='>'):
        return self.path.decide(Cond(op,self.w.lift(t)))
    # ---- calls -----------------------------------------------------------
    def generic(self): self.path.generic=True; self.nodiv=True
    def posdef(self,H):
        """precondition: the symmetric matrix H is positive definite (every Schur pivot, in any elimination order, is positive)"""
        self.nodiv=True; n=len(H); H=[[self.w.lift(x) for x in r] for r in H]
        if self.mode=='num': return self.well(H)
        pts=[]
        for k in range(self.w.NP):
            M=[[x.mod[k] for x in r] for r in H]; d=[None]*(1<<n); d[0]=1; piv={}
            for S in range(1<<n):
                idx=[i for i in range(n) if S>>i&1]; d[S]=_det([[M[i][j] for j in idx] for i in idx])
            for S in range(1<<n):
                for i in range(n):
                    if not S>>i&1 and d[S]: piv[S,i]=d[S|1<<i]*pow(d[S],-1,P)%P
            pts.append(piv)
        for q in {q for p in pts for q in p}: self.path.pivots.add(tuple(p.get(q) for p in pts))
        A=np.stack([np.stack([np.broadcast_to(x.num,(self.w.N,)) for x in r],-1) for r in H],-2)
        with np.errstate(all='ignore'):
            ok=np.isfinite(A).all((1,2)); A=np.where(ok[:,None,None],A,np.eye(n)); ev=np.linalg.eigvalsh((A+A.transpose(0,2,1))/2)
        self.path.mask=self.path.mask&ok&(ev[:,0]>1e-9)
    def call(self,fn,inp,nout,handlers=None,setup=None):
        w=self.w; inp=[w.lift(x) for x in inp]; self.ncall+=1
        if self.mode=='num': return self.native(fn,inp,nout)
        m=Machine(self.ex.mod,w,None,self.path.decide,max_steps=self.ex.spec.get('steps',4000000))
        self.machine=m; m.deadline=self.ex.t0+self.ex.budget*1.2
        for h in (handlers if handlers is not None else self.ex.spec.get('assume',())): h(self,m)
        if setup: setup(m)
        self.machines.append(m)
        a=m.alloc(8*max(1,len(inp)),'in'); b=m.alloc(8*max(1,nout),'out')
        for i,t in enumerate(inp): a.o.cells[8*i]=(8,t)
        try:
            m.call(fn,[a,b])
        finally:
            ex=self.ex
            for k,v in m.called.items(): ex.called[k]=ex.called.get(k,0)+v
            for k,v in m.assumed.items(): ex.assumed[k]=ex.assumed.get(k,0)+v
            ex.steps+=m.steps
        out=[]
        for i in range(nout):
            v=m.load(Ptr(b.o,8*i),('double',))
            if not isinstance(v,T):
                if v is UNDEF: raise MemFault('output %d undefined'%i)
                raise Unsupported('output %d: %r'%(i,v))
            out.append(v)
        return out
    def amachine(self):
        """machine with symbolic integers and arrays of symbolic length"""
        m=loops.AMachine(self.ex.mod,self.w,None,self.path.decide,max_steps=self.ex.spec.get('steps',4000000),ctx=self)
        for h in self.ex.spec.get('assume',()): h(self,m)
        m.deadline=self.ex.t0+self.ex.budget*1.2; self.machine=m; self.machines.append(m); return m
    def acall(self,m,fn,args,nout=None):
        """call with raw arguments; a list argument becomes an input block, the last one an output block of nout doubles"""
        a=[]
        for x in args:
            if isinstance(x,list):
                p=m.alloc(8*max(1,len(x)),'in')
                for i,t in enumerate(x): p.o.cells[8*i]=(8,self.w.lift(t))
                x=p
            a.append(x)
        b=m.alloc(8*max(1,nout or 0),'out')
        if nout is not None: a.append(b)
        try: m.call(fn,a)
        finally:
            ex=self.ex
            for k,v in m.called.items(): ex.called[k]=ex.called.get(k,0)+v
            for k,v in m.assumed.items(): ex.assumed[k]=ex.assumed.get(k,0)+v
            ex.steps+=m.steps
        out=[]
        for i in range(nout or 0):
            v=m.load(Ptr(b.o,8*i),('double',))
            if not isinstance(v,T): raise Unsupported('output %d: %r'%(i,v))
            out.append(v)
        return out
    def ieq(self,m,a,b,label):
        """equality of (symbolic) integers"""
        if not isint(a) or not isint(b):
            d=a-b if not isint(a) else b-a
            if d==0 or m.I.true(loops.IC('i==',d)): return self.rec(label,'discharged','integer')
            if m.I.true(loops.IC('i!=',d)): return self.rec(label,'refuted','integer','%r vs %r'%(a,b))
            return self.rec(label,'unknown','','%r vs %r'%(a,b))
        self.rec(label,'discharged' if a==b else 'refuted','integer','%r vs %r'%(a,b))
    def native(self,fn,inp,nout):
        w=self.w; N=w.N
        X=np.stack([t.num for t in inp],1) if inp else np.zeros((N,0))
        key=(fn,X.tobytes())
        r=self.ex.ncache.get(key)
        if r is None:
            r=run_native(self.ex.so,fn,X,nout); self.ex.ncache[key]=r
        out,crash=r
        i=self.ncall
        self.lastin=X; self.lastfn=fn; self.lastout=out
        for k,why in crash.items():
            if self.path.mask[k]:
                self.ex.violations.append(dict(label='no crash / termination',driver=fn,input=X[k].tolist(),why=why)); 
        ok=np.ones(N,bool); 
        for k in crash: ok[k]=False
        self.path.mask=self.path.mask&ok
        return [w._mk('nat',(fn,hash(X.tobytes()),j),(),out[:,j]) for j in range(nout)]
    # ---- obligations -----------------------------------------------------
    def rec(self,label,status,method='',detail=''):
        self.obls.append(Obl(label,status,method,detail,not self.path.mask.any(),list(self.path.conds) if status!='discharged' else None))
    def _numbad(self,a,b,tol,scale):
        m=self.path.mask
        with np.errstate(all='ignore'):
            sc=1.0+np.maximum(np.abs(a.num),np.abs(b.num)) if scale is None else scale
            d=np.abs(a.num-b.num)
            bad=m&((d>tol*sc)|~np.isfinite(a.num))&np.isfinite(b.num)
        return bad
    def _numcheck(self,bad,label,a,b):
        self.ex.samples_checked+=int(self.path.mask.sum())
        if bad.any():
            k=int(np.argmax(bad))
            self.ex.violations.append(dict(label=label,driver=getattr(self,'lastfn',''),input=self.lastin[k].tolist() if hasattr(self,'lastin') else [],
                got=float(a.num[k]),expected=float(b.num[k]) if b is not None else None,ghosts={n:float(t.num[k]) for n,t in list(self.w.syms.items())[:60]},count=int(bad.sum())))
    def eq(self,a,b,label,tol=1e-9,scale=None,rel=False):
        """every component of a equals that of b"""
        if isinstance(a,T) or isinstance(b,T) or not isinstance(a,(list,tuple)): a=[a]; b=[b]
        a=flat(a); b=flat(b)
        if len(a)!=len(b): raise ValueError('lengths %d %d in %s'%(len(a),len(b),label))
        if scale is None and len(a)>1:
            with np.errstate(all='ignore'):
                mx=[np.abs(self.w.lift(x).num) for x in b]; scale=(0.0 if rel else 1.0)+np.max(mx,axis=0)
        for i,(x,y) in enumerate(zip(a,b)): self._eq1(self.w.lift(x),self.w.lift(y),label+('[%d]'%i if len(a)>1 else ''),tol,scale)
    def _eq1(self,x,y,label,tol,scale):
        if self.path.ints.eqs and isinstance(self.machine,loops.AMachine): x=self.machine.tnorm(x); y=self.machine.tnorm(y)
        if self.mode=='num': return self._numcheck(self._numbad(x,y,tol,scale),label,x,y)
        if self.w.eq(x,y): return self.rec(label,'discharged','identity')
        self._hard(x,y,label,tol,scale,exact=True)
    def close(self,a,b,label,tol=1e-12,ntol=None,lin=(),scale=None):
        """|a-b| <= tol (times the magnitude of the symbols named in lin, if given)"""
        if isinstance(a,T) or not isinstance(a,(list,tuple)): a=[a]; b=[b]
        a=flat(a); b=flat(b)
        if len(a)!=len(b): raise ValueError('lengths')
        if scale is None and len(a)>1:
            with np.errstate(all='ignore'):
                mx=[np.abs(self.w.lift(x).num) for x in b]; scale=1.0+np.max(mx,axis=0)
        for i,(x,y) in enumerate(zip(a,b)):
            x=self.w.lift(x); y=self.w.lift(y); l=label+('[%d]'%i if len(a)>1 else '')
            if self.mode=='num': self._numcheck(self._numbad(x,y,ntol or max(10*tol,1e-9),scale),l,x,y); continue
            if self.w.eq(x,y): self.rec(l,'discharged','identity'); continue
            bd=self.taylor_close(x,y,lin)
            if bd is not None and bd<=Fraction(tol): self.rec(l,'discharged','taylor bound %.2e'%float(bd)); continue
            self._hard(x,y,l,ntol or max(10*tol,1e-9),scale,exact=False,tol_t=tol,info='taylor bound %s'%(None if bd is None else '%.2e'%float(bd)))
    def taylor_close(self,x,y,lin=()):
        b=self.path.bounds(); ty={}; bounds={}
        for nm,(lo,hi) in b.items():
            if lo is None or hi is None: continue
            m=max(abs(lo),abs(hi)); bounds[nm]=m
            if m<=Fraction(1,4): ty[self.w.syms[nm]]=m
        linnames={t.args[0] for t in lin}
        for n in linnames: bounds[n]=Fraction(1)
        try:
            px=Poly(self.w,taylor=ty); d=px.of(self.w.sub(x,y))
        except TooBig: return None
        if linnames:
            for mo in d:
                if sum(e for k,e in mo if px.atoms[k][0]=='v' and px.atoms[k][1].args[0] in linnames)!=1: return None
        # subtract pure-bound
        return px.absbound(d,bounds)
    def _hard(self,x,y,label,tol,scale,exact,tol_t=0,info=''):
        # does the model itself exhibit a difference?
        bad=self._numbad(x,y,max(tol,1e-10),scale)
        if exact and not bad.any():      # not an identity of the path: a difference well above the rounding of the sample evaluation refutes it, however small
            with np.errstate(all='ignore'):
                sc=np.maximum(np.abs(x.num),np.abs(y.num)) if scale is None else np.maximum(scale-1.0,np.maximum(np.abs(x.num),np.abs(y.num)))
                bad=self.path.mask&(np.abs(x.num-y.num)>1e-8*sc+1e-13*(self.ex.magnitude()+4))&np.isfinite(x.num)&np.isfinite(y.num)&(sc>1e-250)
        if bad.any():
            k=int(np.argmax(bad)); self.ex.cands.append({n:float(t.num[k]) for n,t in self.w.syms.items()}); return self.rec(label,'refuted','','model value %.12g vs %.12g at sample; %s'%(x.num[k],y.num[k],info))
        d=self.w.sub(x,y); s=self.path.signs(d)
        if s<=set('0'): return self.rec(label,'discharged','path condition')
        if exact:
            r=self._unsat([(d,'!=')])
        else:
            r1=self._unsat([(d-self.const(tol_t),'>')]); r=r1 if r1!='unsat' else self._unsat([(d+self.const(tol_t),'<')])
        if r=='unsat': return self.rec(label,'discharged','smt')
        if r=='sat': return self.cand(label,info)
        self.rec(label,'unknown','','not an identity, solver: %s; %s'%(r,info))
    def _unsat(self,extra):
        t=time.time(); self.model={}
        try:
            r=poly.smt_query(self.w,self.ex.relevant(self.path.conds)+extra,timeout=self.ex.spec.get('smt',4),model=self.model)
            if r=='unknown': r=poly.smt_query(self.w,self.ex.relevant(self.path.conds)+extra,timeout=self.ex.spec.get('smt',4),solver='cvc5')
        except (TooBig,Unsupported): r='unknown'
        self.ex.smt_time+=time.time()-t
        return r
    def cand(self,label,info):
        """the solver gives a model of the negated obligation: a candidate counterexample, to be replayed natively.
        Exact models (no abstracted function involved, path not reached by any sample) refute the obligation by themselves."""
        m={k:v for k,v in self.model.items() if k[0]!='#'}; exact=self.model.get('#exact') and len(self.path.conds)<=14 and not self.path.mask.any()
        self.rec(label,'refuted' if exact else 'unknown','smt','solver model %s; %s'%(m,info)); self.obls[-1].model=m
        if m: self.ex.cands.append(m)
    def well(self,H,cond=1e7):
        """native samples only: keep the samples whose symmetric matrix H is positive definite and well conditioned (a stated precondition)"""
        if self.mode!='num': return
        n=len(H); A=np.stack([np.stack([np.broadcast_to(x.num,(self.w.N,)) for x in r],-1) for r in H],-2)
        with np.errstate(all='ignore'):
            ok=np.isfinite(A).all((1,2)); A=np.where(ok[:,None,None],A,np.eye(n)); ev=np.linalg.eigvalsh((A+A.transpose(0,2,1))/2)
        self.path.mask=self.path.mask&ok&(ev[:,0]>1e-6)&(ev[:,-1]<cond*np.abs(ev[:,0]))
    def holds(self,t,op,label,slack=1e-9):
        """t op 0"""
        t=self.w.lift(t)
        if self.mode=='num':
            with np.errstate(all='ignore'):
                if op in('>','>='): bad=self.path.mask&~(t.num>=-slack)
                elif op in('<','<='): bad=self.path.mask&~(t.num<=slack)
                elif op=='==': bad=self.path.mask&~(np.abs(t.num)<=slack)
                else: bad=self.path.mask&(t.num==0)
            return self._numcheck(bad,label,t,None)
        k=self.w.as_const(t)
        if k is not None:
            return self.rec(label,'discharged' if cmpnum(float(k),op) else 'refuted','constant','value %s'%k)
        s=self.path.signs(t)
        if s<=SETS[op]: return self.rec(label,'discharged','path condition')
        bad=self.path.mask&~cmpnum(t.num,op)&(np.abs(t.num)>slack)
        if bad.any():
            k=int(np.argmax(bad)); self.ex.cands.append({n:float(u.num[k]) for n,u in self.w.syms.items()}); return self.rec(label,'refuted','','model value %.12g'%t.num[k])
        r=self._unsat([(t,NEG[op])])
        if r=='unsat': return self.rec(label,'discharged','smt')
        if r=='sat': return self.cand(label,'')
        self.rec(label,'unknown','','solver: '+r)
    def check_divisors(self):
        seen=[]
        for m in self.machines:
            for d in m.divisors:
                if self.w.as_const(d) is not None: continue
                if any(self.path.ratio_sign(d,x) is not None for x in seen): continue
                seen.append(d); self.holds(d,'!=','divisor is never zero')
    def flag(self,t,expected,label):
        """output t is the boolean `expected` (python bool or int)"""
        self.eq(t,self.const(int(expected)),label)
    def one_of(self,a,alts,label,tol=1e-9,when=None):
        """a equals the first alternative, or one of the others whose guard (list of (t,op)) holds"""
        a=flat(a)
        if self.mode=='num':
            best=None
            with np.errstate(all='ignore'):
                for b,g,*tt in alts:
                    b=flat(b); e=np.zeros(self.w.N)
                    for x,y in zip(a,b): e=np.fmax(e,np.abs(x.num-self.w.lift(y).num)) 
                    for x in a: e=np.where(np.isfinite(x.num),e,np.inf)
                    for t,op in g:
                        t=self.w.lift(t); gs=tt[0] if tt else 1e-7
                        okg=cmpnum(t.num,op)|(np.abs(t.num)<=gs); e=np.where(okg,e,np.inf)
                    best=e if best is None else np.fmin(best,e)
                sc=1.0+np.max([np.abs(self.w.lift(y).num) for y in flat(alts[0][0])],axis=0)
                bad=self.path.mask&~(best<=tol*sc)
            k=int(np.argmax(bad)); 
            return self._numcheck(bad,label,a[0],self.w.lift(flat(alts[0][0])[0]))
        for b,g,*_ in alts:
            if all(self.w.eq(x,self.w.lift(y)) for x,y in zip(a,flat(b))):
                ok=all(self.path.signs(self.w.lift(t))<=SETS[op] or self._unsat([(self.w.lift(t),NEG[op])])=='unsat' for t,op in g)
                if ok: return self.rec(label,'discharged','identity')
        for b,g,*_ in alts[:1]:
            self.eq(a,flat(b),label,tol)

def _det(M):
    M=[list(r) for r in M]; n=len(M); d=1
    for i in range(n):
        p=next((k for k in range(i,n) if M[k][i]),None)
        if p is None: return 0
        if p!=i: M[i],M[p]=M[p],M[i]; d=-d
        d=d*M[i][i]%P; v=pow(M[i][i],-1,P)
        for k in range(i+1,n):
            f=M[k][i]*v%P
            if f: M[k]=[(a-f*b)%P for a,b in zip(M[k],M[i])]
    return d%P
def flat(x):
    if isinstance(x,T) or not isinstance(x,(list,tuple)): return [x]
    r=[]
    for y in x: r+=flat(y)
    return r

def run_native(so,fn,X,nout):
    d=tempfile.mkdtemp(dir=build.tmpdir())
    fi,fo,fp=[os.path.join(d,x) for x in('i.npy','o.npy','p')]
    np.save(fi,X); np.save(fo,np.full((len(X),max(1,nout)),np.nan)); np.array([0],np.int64).tofile(fp)
    crash={}; start=0
    for attempt in range(60):
        r=subprocess.run([sys.executable,os.path.join(os.path.dirname(__file__),'nativeworker.py'),so,fn,fi,fo,fp,str(start)],capture_output=True,text=True)
        at=int(np.fromfile(fp,np.int64)[0])
        if r.returncode==0 and at==len(X): break
        if r.returncode>0: raise RuntimeError('native worker: '+r.stderr[-500:])
        crash[at]='hang (10 s)' if r.returncode==-14 else 'signal %d'%(-r.returncode); start=at+1
        if start>=len(X): break
    else:
        for k in range(start,len(X)): crash.setdefault(k,'not run')
    out=np.load(fo)
    return out,crash
