"""Optimiser loops for any number of iterations: contracts of the loop functions against the contracts of what they call."""
from lib import *
from symexec import isint, Ptr
import loops
from c_opt import script, OF, OS
from c_graph import gscript, FS, GR, A_prof
# ---- any number of iterations: loop invariant over an arbitrary problem (error function, steps and fidelities are uninterpreted)
class Problem:
    """ghost state of an arbitrary problem: states are tokens with an arbitrary error each; a step leads to a new token"""
    def __init__(self,c,m,meth,M,la,tol):
        self.c=c; self.m=m; self.meth=meth; self.M=M; self.la=la; self.tol=tol; self.n=0; self.s=None; self.log=[]; self.i0=0; self.havocked=False; self.E={}; self.x='0'; self.fids=0
        self.err('0')
        h=m.contracts
        h['gh_error']=lambda m,a:self.err(self.x); h['gh_step']=self.step; h['gh_save']=self.save; h['gh_restore']=self.restore; h['gh_fid']=self.fid
    def err(self,t):
        if t not in self.E: self.E[t]=self.c.real('E'+t,1.0,special=(0,.1,.2,.5,1,2))
        return self.E[t]
    def step(self,m,a): self.log.append((a[1],a[0],self.x,self.s)); self.n+=1; self.x='s%d'%self.n; self.err(self.x)
    def save(self,m,a): self.s=self.x
    def restore(self,m,a):
        self.c.flag(self.c.const(int(self.s is not None)),1,'restores only a saved state')
        if self.s is not None: self.x=self.s
    def fid(self,m,a): self.fids+=1; return self.c.real('F%d'%self.fids,1.0)
    # invariant
    def reals(self): return {'error of the current state':self.err(self.x)}
    def arrived(self,m): self.c.flag(self.c.const(int(self.n==0 and self.x=='0')),1,'no step before the loop')
    def inv(self,m,i,when):
        c=self.c; d=self.M-1-i
        c.flag(c.const(int(isint(d) and d>=0 or not isint(d) and m.I.nonneg(d))),1,'fewer than maxIters iterations %s'%when)
        if self.meth: c.holds(self.err('0')-self.err(self.x),'>=','error of the current state is at most the initial one %s'%when)
    def havoc(self,m,i):
        self.havocked=True; self.i0=i; m.I.facts.append(self.M-1-i); self.x='H'; self.s='old'; self.err('old')
        if self.meth: self.c.assume(self.err('0')-self.err('H'),'>=')
def lmcheck(c,m,p,M,la,tol,done,out=None):
    """the steps of one path obey the Levenberg-Marquardt contract"""
    E=p.err; ok=lambda b,l:c.flag(c.const(int(b)),1,l); cur='H' if p.havocked else '0'; L=p.log
    for j,(l,u,x,s) in enumerate(L):
        ok(u==1,'damping used'); ok(s==x,'state saved before the step')
        if not j:
            c.holds(l,'>','damping stays positive'); ok(x==cur,'the step starts from the current state')
            if not p.havocked: c.eq(l,la,'first damping is the one supplied')
            continue
        y='s%d'%j; rej=c.decide(E(cur)-E(y),'<'); ok(x==(cur if rej else y),'the step starts from the %s state'%('restored' if rej else 'accepted'))
        if rej: c.holds(l-L[j-1][0],'>','damping grows after a rejection')
        else: c.holds(l,'>','damping stays positive'); c.holds(E(cur)-E(y)-tol,'>=','continues only when not converged'); cur=y
    if not done: return
    early=count(c,m,p,M,out); y='s%d'%p.n; rej=c.decide(E(cur)-E(y),'<'); fin=cur if rej else y; ok(p.x==fin,'ends at the best accepted state'); c.holds(E('0')-E(fin),'>=','final error is not larger than the initial one')
    if early: ok(not rej,'stops early only on an accepted step'); c.holds(E(cur)-E(y)-tol,'<','stops early only below the tolerance')
def nrcheck(c,m,p,M,la,tol,done,out=None):
    E=p.err; ok=lambda b,l:c.flag(c.const(int(b)),1,l); cur='H' if p.havocked else '0'
    for j,(l,u,x,s) in enumerate(p.log): ok(u==0,'no damping'); ok(x==cur,'Newton keeps every step'); last=cur; cur='s%d'%(j+1)
    if not done: return
    early=count(c,m,p,M,out); ok(p.x==cur,'final state is the last step')
    if early:
        for a in (E(last)-E(cur),E(cur)-E(last)): c.holds(a-tol,'<=','stops early only below the tolerance')
def count(c,m,p,M,out):
    n=p.i0+p.n; d=M-n; c.flag(c.const(int(p.n>=1)),1,'at least one iteration'); c.flag(c.const(int(m.I.true(IC('i>=',d)))),1,'at most the requested iterations')
    if out is not None: c.eq(out,m.itof(n) if not isint(n) else c.const(n),'the reported iterations are the steps made')
    return m.idecide(IC('i>=',d-1))
def anyit(meth):
    def f(c):
        c.nodiv=True; la=c.real('lambda',1.0,lo=F(1,10**6)); c.assume(la,'>'); tol=c.real('tol',.3,lo=F(1,10**9)); c.assume(tol,'>'); m=c.amachine(); M=m.isym('M',1,2**32-1)
        p=Problem(c,m,meth,M,la,tol); m.cut=loops.Cut(c,p,['Optimizer'])
        try:
            o=c.acall(m,'drv_cut_solve',[meth,M,[la,tol]],1); done=True
        except loops.CutEnd: done=False
        (lmcheck if meth else nrcheck)(c,m,p,M,la,tol,done,**({'out':o[0]} if done else {}))
        if not done: raise loops.CutEnd()
    return f
for _m,_n in((0,'Newton'),(1,'LM spherical'),(2,'LM elliptical')):
    contract('C19','%s, any number of iterations, arbitrary problem'%_n,OF('solve','optimize_newton_raphson','optimize_levenberg_marquardt'),OS,('cut.cpp','opt.cpp'),nonum=True,sized=('M',1,300,lambda n,_m=_m:script(_m,n,n+1)),assumptions=['virtual functions of the problem: calculate_error returns the error of the current state, a step leads to an arbitrary state, bookkeep_state / update_state_from_bookkeep save and restore it, calculate_model_fidelity returns any number; reals instead of doubles (NaN errors: native contract)'])(anyit(_m))

# ---- sparse Levenberg-Marquardt: the functions called in the loop are replaced by their contracts (proved separately: damped step, save/step/restore, chi2)
FGS='_ZN4mrob11FGraphSolve'
class Graph(Problem):
    def __init__(self,c,m,M,la,tol):
        Problem.__init__(self,c,m,1,M,la,tol); self.ev=None; self.pend=None; self.p=None; h=m.contracts
        h['gh_bind']=self.bind; h[FGS+'21optimize_gauss_newtonEb']=self.gn; h[FGS+'4chi2Eb']=self.chi2; h[FGS+'33synchronize_nodes_auxiliary_stateEv']=self.save; h[FGS+'12update_nodesEv']=self.upd; h[FGS+'23synchronize_nodes_stateEv']=self.restore
    def bind(self,m,a): self.p=a[:4]
    def gn(self,m,a):
        """solves (L + lambda I) dx = b at the current state: residuals evaluated there, dx, b, L overwritten"""
        self.c.flag(self.c.const(int(a[1]&1 if isint(a[1]) else 0)),1,'the step is damped'); self.ev=self.x; self.pend=(self.x,m.load(self.p[0],('double',))); self.g=getattr(self,'g',0)+1
        for i,p in enumerate(self.p[1:]): m.store(p,8,self.c.real('G%d_%d'%(self.g,i),1.0))
    def chi2(self,m,a):
        if not isint(a[1]): raise Unsupported('chi2 flag')
        if a[1]&1: self.ev=self.x
        if self.ev is None: raise Unsupported('chi2 before any evaluation')
        return self.err(self.ev)
    def upd(self,m,a):
        self.c.flag(self.c.const(int(self.pend is not None and self.pend[0]==self.x)),1,'the update is the step computed at the current state')
        l=self.pend[1] if self.pend else self.la; self.pend=None; self.step(m,[1,l])
    def havoc(self,m,i): Problem.havoc(self,m,i); self.ev='any'; self.err('any'); self.pend=None
def C18_any(c):
    c.nodiv=True; la=c.real('lambda',1.0,lo=F(1,10**6)); c.assume(la,'>'); tol=c.real('tol',.3,lo=F(1,10**9)); c.assume(tol,'>'); m=c.amachine(); M=m.isym('M',1,2**32-1)
    p=Graph(c,m,M,la,tol); m.cut=loops.Cut(c,p,['FGraphSolve'])
    try: c.acall(m,'drv_cut_lm',[M,[la,tol]],1); done=True
    except loops.CutEnd: done=False
    lmcheck(c,m,p,M,la,tol,done)
    if not done: raise loops.CutEnd()
contract('C18','LM, any number of iterations, arbitrary problem',FS('solve','optimize_levenberg_marquardt'),GR,('cutg.cpp','graph.cpp'),assume=[A_prof],nonum=True,sized=('M',1,300,lambda n:gscript(n,n+1)),assumptions=['contracts of optimize_gauss_newton, chi2, update_nodes, synchronize_nodes_auxiliary_state and synchronize_nodes_state used in the loop (decided separately, for graphs of bounded shape); reals instead of doubles (NaN errors: native contract)'])(C18_any)
