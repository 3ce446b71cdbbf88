"""Exact Laurent-polynomial normal form over atoms, interval bounds, and SMT export."""
from fractions import Fraction
import math, subprocess, os, tempfile, time, re
from terms import T, Unsupported, meq, P

class TooBig(Exception): pass

def padd(a,b,s=1):
    r=dict(a)
    for m,c in b.items():
        v=r.get(m,0)+s*c
        if v: r[m]=v
        else: r.pop(m,None)
    return r
def mmul(a,b):
    if not a: return b
    if not b: return a
    d=dict(a)
    for k,e in b:
        v=d.get(k,0)+e
        if v: d[k]=v
        else: d.pop(k)
    return tuple(sorted(d.items()))
def pmul(a,b,lim=60000):
    if len(a)*len(b)>lim*20: raise TooBig()
    r={}
    for m1,c1 in a.items():
        for m2,c2 in b.items():
            m=mmul(m1,m2); v=r.get(m,0)+c1*c2
            if v: r[m]=v
            else: del r[m]
    if len(r)>lim: raise TooBig()
    return r

class Poly:
    """conversion context.  taylor: {symbol term -> bound} replaces sin/cos of rational multiples of
    that symbol by their Taylor polynomial with an explicit remainder atom."""
    def __init__(self,world,taylor=None):
        self.w=world; self.memo={}; self.atoms={}; self.names={}; self.taylor=taylor or {}
        self.rem={}          # remainder atom -> bound (Fraction)
        self.rules={}        # atom id -> (square replacement poly)
        self.inv={}          # inv atom -> poly
        self.n=0
        self.rewriting=True
        self.keep=[]
    def atom(self,key,info):
        a=self.names.get(key)
        if a is None:
            a=self.n; self.n+=1; self.names[key]=a; self.atoms[a]=info
        return a
    def reduce(self,p):
        """apply x^2 -> poly rules"""
        if not self.rules or not self.rewriting: return p
        while True:
            hit=None
            for m in p:
                for k,e in m:
                    if e>=2 and k in self.rules: hit=k; break
                if hit is not None: break
            if hit is None: return p
            out={}
            for m,c in p.items():
                e=dict(m).get(hit,0)
                if e>=2:
                    d=dict(m); q,r=divmod(e,2)
                    if r: d[hit]=r
                    else: d.pop(hit)
                    t={tuple(sorted(d.items())):c}
                    for _ in range(q): t=pmul(t,self.rules[hit])
                    out=padd(out,t)
                else:
                    v=out.get(m,0)+c
                    if v: out[m]=v
                    else: out.pop(m,None)
            p=out
            if len(p)>60000: raise TooBig()
    def of(self,t):
        r=self.memo.get(t.id)
        if r is not None: return r
        # iterative post-order
        stack=[t]
        while stack:
            x=stack[-1]
            if x.id in self.memo: stack.pop(); continue
            if self.w.atomize and x.op in('+','-','*','/','neg'):
                hit=None
                for a in self.w.atomize:
                    if meq(a.mod,x.mod): hit=({((self.atom(('az',a.id),('az',a)),1),):Fraction(1)}); break
                if hit is not None: self.memo[x.id]=hit; self.keep.append(x); stack.pop(); continue
            ch=[a for a in x.args if isinstance(a,T) and a.id not in self.memo] if x.op in('+','-','*','/','neg') else []
            if ch: stack.extend(ch); continue
            self.memo[x.id]=self._one(x); self.keep.append(x); stack.pop()
        return self.memo[t.id]
    def _one(self,t):
        op=t.op
        if op=='c': return {():t.args[0]} if t.args[0] else {}
        if op=='+': return padd(self.memo[t.args[0].id],self.memo[t.args[1].id])
        if op=='-': return padd(self.memo[t.args[0].id],self.memo[t.args[1].id],-1)
        if op=='neg': return {m:-c for m,c in self.memo[t.args[0].id].items()}
        if op=='*': return self.reduce(pmul(self.memo[t.args[0].id],self.memo[t.args[1].id]))
        if op=='/':
            n=self.memo[t.args[0].id]; d=self.memo[t.args[1].id]
            if len(d)==1:
                (m,c),=d.items(); inv=tuple((k,-e) for k,e in m)
                return self.reduce(pmul(n,{inv:1/c}))
            a=self.inv_atom(t.args[1],d)
            return self.reduce(pmul(n,{((a,1),):Fraction(1)}))
        if op in('sin','cos'): return self.trig(t)
        if op=='sqrt':
            for k,info in self.atoms.items():
                if info[0]=='sqrt' and meq(info[1].args[0].mod,t.args[0].mod): return {((k,1),):Fraction(1)}
            sub=self.of(t.args[0])
            a=self.atom(('t',t.id),('sqrt',t)); self.rules[a]=sub
            return {((a,1),):Fraction(1)}
        if op=='v':
            a=self.atom(('t',t.id),('v',t))
            r=self.w.sqrules.get(t.args[0]) if hasattr(self.w,'sqrules') else None
            if r is not None and a not in self.rules and self.rewriting:
                self.rules[a]=None; self.rules[a]=self.of(r)
            return {((a,1),):Fraction(1)}
        a=self.atom(('t',t.id),(op,t))
        return {((a,1),):Fraction(1)}
    def inv_atom(self,t,d):
        for k,info in self.atoms.items():
            if info[0]=='inv' and meq(info[1].mod,t.mod): return k
        a=self.atom(('inv',t.id),('inv',t)); self.inv[a]=d
        return a
    def trig(self,t):
        w=self.w
        d,c=w.norm_angle(t.args[0])
        cs=({():Fraction(1)},{})
        def cm(a,b): return (self.reduce(padd(pmul(a[0],b[0]),pmul(a[1],b[1]),-1)),self.reduce(padd(pmul(a[0],b[1]),pmul(a[1],b[0]))))
        items=list(d.items())
        if c: items.append((w.one,c))
        for k,v in items:
            if k.op=='pi' and (2*v).denominator==1:
                u=[(1,0),(0,1),(-1,0),(0,-1)][int(2*v)%4]
                cs=cm(cs,tuple({():Fraction(x)} if x else {} for x in u)); continue
            if k in self.taylor:
                b=self.taylor[k]; K=5
                th=self.of(k)
                x={m:cc*v for m,cc in th.items()}
                x2=pmul(x,x); cp={};sp={}; pw={():Fraction(1)}; f=Fraction(1)
                for j in range(K):
                    cp=padd(cp,{m:cc*(-1)**j/math.factorial(2*j) for m,cc in pw.items()})
                    sp=padd(sp,{m:cc*(-1)**j/math.factorial(2*j+1) for m,cc in pmul(pw,x).items()})
                    pw=pmul(pw,x2)
                r1=self.atom(('rc',k.id,v),('rem',k)); r2=self.atom(('rs',k.id,v),('rem',k))
                self.rem[r1]=Fraction(1,math.factorial(2*K)); self.rem[r2]=Fraction(1,math.factorial(2*K+1))
                cp=padd(cp,pmul(pw,{((r1,1),):Fraction(1)})); sp=padd(sp,pmul(pmul(pw,x),{((r2,1),):Fraction(1)}))
                cs=cm(cs,(cp,sp)); continue
            # base angle unit: k/den
            n=v.numerator; den=v.denominator
            ca=self.atom(('cos',k.id,den),('cosatom',k,den)); sa=self.atom(('sin',k.id,den),('sinatom',k,den))
            if sa not in self.rules: self.rules[sa]={():Fraction(1),((ca,2),):Fraction(-1)}
            b=({((ca,1),):Fraction(1)},{((sa,1),):Fraction(1 if n>0 else -1)})
            for _ in range(abs(n)): cs=cm(cs,b)
        return cs[0] if t.op=='cos' else cs[1]
    # ---- bounds ----------------------------------------------------------
    def absbound(self,p,bounds):
        """bounds: symbol name -> Fraction bound of |symbol|; returns upper bound of |p| or None"""
        tot=Fraction(0)
        for m,c in p.items():
            b=abs(c)
            for k,e in m:
                info=self.atoms[k]
                if info[0]=='rem': bb=self.rem[k]
                elif info[0] in('cosatom','sinatom'): bb=Fraction(1)
                elif info[0]=='v': bb=bounds.get(info[1].args[0])
                elif info[0]=='pi': bb=Fraction(355,113)
                else: bb=None
                if bb is None or e<0: return None
                b*=bb**e
            tot+=b
        return tot
    # ---- SMT -------------------------------------------------------------
    def smt(self,p):
        if not p: return '0.0'
        ts=[]
        for m,c in p.items():
            f=[rat(c)] if c!=1 or not m else []
            den=[]
            for k,e in m:
                (f if e>0 else den).extend(['a%d'%k]*abs(e))
            if not f: f=['1.0']
            s=f[0] if len(f)==1 else '(* %s)'%' '.join(f)
            if den: s='(/ %s %s)'%(s,den[0] if len(den)==1 else '(* %s)'%' '.join(den))
            ts.append(s)
        return ts[0] if len(ts)==1 else '(+ %s)'%' '.join(ts)
def rat(c):
    c=Fraction(c)
    s='%d.0'%abs(c.numerator) if c.denominator==1 else '(/ %d.0 %d.0)'%(abs(c.numerator),c.denominator)
    return s if c>=0 else '(- %s)'%s

def smt_query(world,conds,extra_bounds=None,timeout=5,solver='z3',model=None):
    """conds: list of (T, op) all asserted; returns 'unsat' / 'sat' / 'unknown'"""
    px=Poly(world)
    ass=[]
    for t,op in conds:
        p=px.of(t)
        # clear denominators of symbol atoms known nonzero is left to the solver
        s=px.smt(p)
        ass.append({'>':'(> %s 0.0)','>=':'(>= %s 0.0)','<':'(< %s 0.0)','<=':'(<= %s 0.0)','==':'(= %s 0.0)','!=':'(not (= %s 0.0))'}[op]%s)
    for t,op in world.axioms:
        try:
            s=px.smt(px.of(t)); ass.append({'>':'(> %s 0.0)','>=':'(>= %s 0.0)','<':'(< %s 0.0)','<=':'(<= %s 0.0)','==':'(= %s 0.0)','!=':'(not (= %s 0.0))'}[op]%s)
        except TooBig: pass
    # relations; iterate as new atoms may appear
    done=set(); decl=[]
    rel=[]
    progress=True
    while progress:
        progress=False
        for k,info in list(px.atoms.items()):
            if k in done: continue
            done.add(k); progress=True
            decl.append('(declare-const a%d Real)'%k)
            kind=info[0]
            if kind=='v':
                b=world.bounds.get(info[1].args[0])
                if b:
                    if b[0] is not None: rel.append('(>= a%d %s)'%(k,rat(b[0])))
                    if b[1] is not None: rel.append('(<= a%d %s)'%(k,rat(b[1])))
                r=getattr(world,'sqrules',{}).get(info[1].args[0])
                if r is not None:
                    px.rewriting=False; px2=px.memo; px.memo={}
                    rel.append('(= (* a%d a%d) %s)'%(k,k,px.smt(px.of(r)))); px.memo=px2; px.rewriting=True
            elif kind=='sqrt':
                rel.append('(>= a%d 0.0)'%k); rel.append('(= (* a%d a%d) %s)'%(k,k,px.smt(px.of(info[1].args[0]))))
            elif kind=='inv':
                rel.append('(= (* a%d %s) 1.0)'%(k,px.smt(px.inv[k])))
            elif kind=='cosatom':
                sa=px.atom(('sin',info[1].id,info[2]),('sinatom',info[1],info[2]))
                if sa not in px.rules: px.rules[sa]={():Fraction(1),((k,2),):Fraction(-1)}
                rel.append('(= (+ (* a%d a%d) (* a%d a%d)) 1.0)'%(k,k,sa,sa))
                x=info[1]
                # quadrant facts for symbols with a declared range inside [0,pi]
                if x.op=='v' and x.args[0] in getattr(world,'angle01pi',set()) and info[2]==1:
                    tv=px.atom(('t',x.id),('v',x))
                    pi=px.atom(('t',world.pi.id),('pi',world.pi))
                    rel.append('(>= a%d 0.0)'%sa)
                    rel.append('(= (= a%d 0.0) (or (= a%d 0.0) (= a%d a%d)))'%(sa,tv,tv,pi))
                    rel.append('(= (>= a%d 0.0) (<= (* 2.0 a%d) a%d))'%(k,tv,pi))
                    rel.append('(= (= a%d 1.0) (= a%d 0.0))'%(k,tv))
                    rel.append('(= (= a%d (- 1.0)) (= a%d a%d))'%(k,tv,pi))
                    rel.append('(and (>= a%d 0.0) (<= a%d a%d))'%(tv,tv,pi))
                    rel.append('(<= a%d a%d)'%(sa,tv))
                    rel.append('(<= (- 1.0 a%d) (* 0.5 a%d a%d))'%(k,tv,tv))
            elif kind=='sinatom':
                px.atom(('cos',info[1].id,info[2]),('cosatom',info[1],info[2]))
            elif kind=='pi':
                rel.append('(and (> a%d 3.1415926535) (< a%d 3.1415926536))'%(k,k))
            elif kind=='uf' and info[1].args[0]=='WRAP':
                pi=px.atom(('t',world.pi.id),('pi',world.pi))
                rel.append('(and (>= a%d (- a%d)) (< a%d a%d))'%(k,pi,k,pi))
                try:
                    x=px.smt(px.of(info[1].args[3])); rel.append('(=> (and (>= %s (- a%d)) (< %s a%d)) (= a%d %s))'%(x,pi,x,pi,k,x))
                except TooBig: pass
            elif kind=='uf' and info[1].args[0]=='LN3' and info[1].args[2]==3:
                rel.append('(and (>= a%d 0.0) (<= a%d 3.1415926536))'%(k,k))
            elif kind=='acos':
                pi=px.atom(('t',world.pi.id),('pi',world.pi)); rel.append('(and (>= a%d 0.0) (<= a%d a%d))'%(k,k,pi))
    if model is not None:
        vs=[(k,i[1].args[0]) for k,i in px.atoms.items() if i[0]=='v']
        kinds={i[0] for i in px.atoms.values()}; model['#exact']=kinds<={'v','inv','sqrt','pi'}
    txt='(set-logic QF_NRA)\n'+'\n'.join(decl)+'\n'+'\n'.join('(assert %s)'%a for a in rel+ass)+'\n(check-sat)\n'
    if model is not None and solver=='z3' and vs:
        txt='(set-option :pp.decimal true)\n'+txt+'(get-value (%s))\n'%' '.join('a%d'%k for k,_ in vs)
    out=run_smt(txt,timeout,solver,raw=True)
    if out[0]=='sat' and model is not None and solver=='z3' and vs:
        nm={'a%d'%k:n for k,n in vs}
        for a,v in re.findall(r'\((a\d+) (\(- [^()]*\)|[^()\s]+|\(/ [^()]*\)|\(- \(/ [^()]*\)\))\)',' '.join(out[1])):
            x=numval(v)
            if x is not None and a in nm: model[nm[a]]=x
    return out[0]
def numval(v):
    v=v.replace('?','').strip()
    try:
        if v.startswith('(-'): return -numval(v[2:-1])
        if v.startswith('(/'):
            a,b=v[2:-1].split(); return float(a)/float(b)
        return float(v)
    except Exception: return None

STATS={'queries':0,'time':0.0}
def run_smt(txt,timeout=5,solver='z3',raw=False):
    t0=time.time(); STATS['queries']+=1
    cmd={'z3':['z3','-in','-T:%d'%int(math.ceil(timeout))],'cvc5':['cvc5','--lang=smt2','--tlimit=%d'%int(timeout*1000),'-']}[solver]
    try:
        r=subprocess.run(cmd,input=txt,capture_output=True,text=True,timeout=timeout+5)
        lines=r.stdout.strip().split('\n') if r.stdout else ['unknown']
    except subprocess.TimeoutExpired: lines=['unknown']
    out=lines[0] if lines[0] in('sat','unsat') else 'unknown'
    STATS['time']+=time.time()-t0
    return (out,lines[1:]) if raw else out
