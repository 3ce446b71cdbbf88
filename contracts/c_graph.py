from lib import *
import random
GR=GEOM+['src/FGraph/node.cpp','src/FGraph/factor.cpp','src/FGraph/factor_graph.cpp','src/FGraph/factor_graph_solve.cpp','src/FGraph/factor_graph_solve_dense.cpp','src/common/optimizer.cpp','src/common/time_profiling.cpp']
D=('graph.cpp',)
def A_prof(c,m):
    def h(m,a): return None
    _install_=lambda d:d.startswith('mrob::TimeProfiling::')
    for mn,dn in c.ex.dem.items():
        if dn and _install_(dn): m.contracts[mn]=h
def spd(c,name,n):
    """symmetric positive definite symbols"""
    r=c.ex.rng; N=c.w.N; idx=[(i,j) for i in range(n) for j in range(i,n)]
    def gen():
        A=r.randn(N,n,n); M=A@A.transpose(0,2,1)+.5*np.eye(n); return [M[:,i,j] for i,j in idx]
    o=c.group(name,len(idx),gen,lambda:[tuple(c.w.rng.randrange(1,P) for _ in range(c.w.NP)) for _ in idx],norm=False)
    M=[[None]*n for _ in range(n)]
    for k,(i,j) in enumerate(idx): M[i][j]=M[j][i]=o[k]
    return M
class Gr:
    """a graph of given shape with symbolic contents.  nodes: (dim,anchor); factors: (dim,kernel,[node ids],nonlinear)"""
    def __init__(self,c,nodes,factors,w1=False):
        self.c=c; self.nodes=nodes; self.factors=factors
        self.x=[c.vec('x%d_'%i,d) for i,(d,a) in enumerate(nodes)]
        self.f=[]
        for k,(d,ker,ids,nl) in enumerate(factors):
            n=sum(nodes[i][0] for i in ids)
            W=[[c.const(int(i==j)) for j in range(d)] for i in range(d)] if w1 else spd(c,'W%d_'%k,d)
            self.f.append(dict(d=d,ker=ker,ids=ids,q=c.real('q%d'%k,.3) if nl else c.const(0),z=c.vec('z%d_'%k,d,1.5),J=c.mat('J%d_'%k,d,n),W=W))
        o=0; self.off={}
        for i,(d,a) in enumerate(nodes):
            if not a: self.off[i]=o; o+=d
        self.N=o; self.M=sum(f['d'] for f in self.f)
        if not c.ex.overrides and 'gr_special' not in c.w.__dict__:   # some samples: exact zeros (states and observations), so that whole blocks of the solution vanish
            r=c.ex.rng; N=c.w.N; m=r.rand(N)<.25; c.w.__dict__['gr_special']=1
            for x in self.x:
                for e in x: e.num=np.where(m,0.0,e.num)
            for f in self.f:
                k=m&(r.rand(N)<.6)
                for e in f['z']: e.num=np.where(k,0.0,e.num)
    def hist(self,mode,n1=None,f1=None):
        """the graph got its first n1 nodes and f1 factors earlier, with other states, was used (mode), and only then got its present states and the rest"""
        n1=len(self.nodes) if n1 is None else n1; f1=len(self.f) if f1 is None else f1
        f1=max([k for k in range(f1+1) if all(i<n1 for f in self.f[:k] for i in f['ids'])]); y=[self.c.vec('y%d_'%i,d) for i,(d,a) in enumerate(self.nodes[:n1])]
        return self.enc(range(n1),range(f1),y)+[mode]+[v for x in self.x[:n1] for v in x]+self.enc(range(n1,len(self.nodes)),range(f1,len(self.f)))
    def enc(self,ns=None,fs=None,x=None):
        ns=range(len(self.nodes)) if ns is None else ns; fs=range(len(self.f)) if fs is None else fs; v=[len(ns)]
        for i in ns: v+=[self.nodes[i][0],int(self.nodes[i][1])]+list((x or self.x)[i])
        v.append(len(fs))
        for k in fs:
            f=self.f[k]; v+=[f['d'],f['ker'],len(f['ids'])]+list(f['ids'])+[f['q']]+f['z']+flat(f['J'])+flat(f['W'])
        return v
    def lin(self,x=None):
        """per factor residual, Jacobian, chi2 at the states x"""
        c=self.c; x=x or self.x; r=[]
        for f in self.f:
            v=[e for i in f['ids'] for e in x[i]]; s=f['q']*dot(v,v)
            res=[a+s-z for a,z in zip(mv(f['J'],v),f['z'])]; J=[[f['J'][i][j]+2*f['q']*v[j] for j in range(len(v))] for i in range(f['d'])]
            r.append((res,J,F(1,2)*dot(res,mv(f['W'],res))))
        return r
    def weights(self,L):
        c=self.c; o=[]
        for f,(r,J,chi) in zip(self.f,L):
            if f['ker']==0: o.append(c.const(1)); continue
            u=c.sqrt(2*chi)
            if f['ker'] in(1,4) and c.mode=='num': c.assume((u-1)*(u-1)-F(1,10**12),'>')
            o.append({1:lambda:c.const(1) if c.decide(u-1,'<') else 1/u,2:lambda:1/(1+u*u),3:lambda:1/((1+u*u)*(1+u*u)),4:lambda:c.const(int(c.decide(u-1,'<')))}[f['ker']]())
        return o
    def system(self,robust=True,x=None):
        """A, block weights W, stacked r, L, b of the weighted normal equations, from the definition"""
        c=self.c; Z=c.const(0); L=self.lin(x); ws=self.weights(L) if robust else [c.const(1)]*len(L)
        A=[]; W=[[Z]*self.M for _ in range(self.M)]; r=[]; ro=0
        for f,(res,J,chi),w in zip(self.f,L,ws):
            for i in range(f['d']):
                row=[Z]*self.N; o=0
                for nid in f['ids']:
                    d,a=self.nodes[nid]
                    if not a:
                        for k in range(d): row[self.off[nid]+k]=row[self.off[nid]+k]+J[i][o+k]
                    o+=d
                A.append(row); r.append(res[i])
                for j in range(f['d']): W[ro+i][ro+j]=w*f['W'][i][j]
            ro+=f['d']
        Hm=[[Z]*self.N for _ in range(self.N)]; b=[Z]*self.N
        ro=0
        for f in self.f:
            d=f['d']; cols=[self.off[n]+k for n in f['ids'] if n in self.off for k in range(self.nodes[n][0])]
            WA={(i,j):sum((W[ro+i][ro+k]*A[ro+k][j] for k in range(1,d)),W[ro+i][ro]*A[ro][j]) for i in range(d) for j in cols}
            Wr=[dot(W[ro+i][ro:ro+d],r[ro:ro+d]) for i in range(d)]
            for a in cols:
                b[a]=b[a]+sum((A[ro+k][a]*Wr[k] for k in range(1,d)),A[ro][a]*Wr[0])
                for e in cols: Hm[a][e]=Hm[a][e]+sum((A[ro+k][a]*WA[k,e] for k in range(1,d)),A[ro][a]*WA[0,e])
            ro+=d
        return A,W,r,Hm,b,L
    def wst(self,x,a=None): return [v for i in range(len(self.nodes)) for v in list(x[i])+list((a or x)[i])]
# shapes: nodes (dim, anchor), factors (dim, kernel, ids, nonlinear)
SH=dict(
 one=([(2,0)],[(2,0,[0],1)]),
 two=([(1,0),(2,0)],[(2,0,[0,1],1),(1,0,[0],0)]),
 anchor_first=([(2,1),(1,0),(2,0)],[(1,0,[0,1],0),(2,0,[0,2],1),(2,0,[1,2],0)]),
 anchor_mid=([(1,0),(3,1),(2,0)],[(2,0,[0,1,2],1),(1,0,[1,2],0),(1,0,[0],0)]),
 anchor_last=([(2,0),(1,0),(2,1)],[(3,0,[0,1],0),(2,0,[1,2],0),(1,0,[0,2],1)]),
 parallel=([(1,0),(1,0)],[(1,0,[0,1],0),(1,0,[0,1],0),(2,0,[1],0),(1,0,[0],1)]),
 isolated=([(1,0),(2,0),(1,0)],[(1,0,[0],0),(2,0,[2],0)]),
 only_anchor_factor=([(1,1),(1,0)],[(1,0,[0],0),(1,0,[1],0)]),
 robust=([(1,0),(1,0)],[(2,1,[0],0),(1,2,[0,1],0),(1,3,[1],0)]),
 robust2=([(2,0)],[(1,4,[0],0),(2,1,[0],0),(1,0,[0],0)]))
def rshape(seed,big=True,robust=False):
    R=random.Random('g%d'%seed); n=R.randint(6,14) if big else R.randint(3,5)
    nodes=[(R.choice([1,2,3,4,6]),int(R.random()<.2)) for _ in range(n)]
    if all(a for d,a in nodes): nodes[0]=(nodes[0][0],0)
    fs=[]
    for i in range(n): fs.append((nodes[i][0],0,[i],0))
    for _ in range(R.randint(n,2*n)):
        k=R.choice([1,2,2,2,3]); ids=sorted(R.sample(range(n),min(k,n))); fs.append((R.choice([1,2,3,6]),R.choice([0,0,1,2,3]) if robust else 0,ids,int(R.random()<.3)))
    R.shuffle(fs); return nodes,fs
FS=lambda *x:['mrob::FGraphSolve::'+y for y in x]
def upper(c,a,e,label,tol):
    n=len(e)
    for i in range(n):
        for j in range(i,n): c.eq(a[i][j],e[i][j],'%s[%d][%d]'%(label,i,j),tol=tol)
def c16(shape,h=(1,)):
    def f(c):
        g=Gr(c,*shape); c.nodiv=True; A,W,r,H,b,L=g.system(); M,N=g.M,g.N
        o=c.call('drv_g_build',g.hist(*h),2+M*N+2+M*M+2+N*N+N+M+sum(2*d for d,a in g.nodes)); i=0
        c.eq(o[:2],[M,N],'A is observations x state',tol=0); c.eq(o[2:2+M*N],flat(A),'A: Jacobian rows and column blocks, zero elsewhere'); i=2+M*N
        c.eq(o[i:i+2],[M,M],'W dimensions',tol=0); upper(c,rows(o,M,M,i+2),W,'W = diag(robust weight * information)',1e-9); i+=2+M*M
        c.eq(o[i:i+2],[N,N],'L dimensions',tol=0); c.eq(o[i+2:i+2+N*N],flat(H),'L = A^T W A',tol=1e-8); i+=2+N*N
        c.eq(o[i:i+N],b,'b = A^T W r',tol=1e-8); i+=N; c.eq(o[i:i+M],r,'stacked residuals'); i+=M
        c.eq(o[i:],g.wst(g.x),'building does not change any state',tol=0)
    return f
for _n in SH: contract('C16','assembly, shape '+_n,FS('build_problem','build_adjacency','build_info_adjacency'),GR,D,assume=[A_prof],bounded='graph of shape %s, all values symbolic'%_n,numN=150)(c16(SH[_n]))
for _s in range(6): contract('C16','assembly, random shape %d'%_s,FS('build_problem'),GR,D,nosym=True,numN=12,bounded='native, random shape with random values')(c16(rshape(_s,robust=True),(_s%5,3+_s,4+_s)))
for _n in('parallel','anchor_mid'): contract('C16','assembly, grown graph '+_n,FS('build_problem','build_adjacency','build_info_adjacency'),GR,D,assume=[A_prof],bounded='graph of shape %s, last node and factors added after an earlier use'%_n,numN=150)(c16(SH[_n],(1,len(SH[_n][0])-1,1)))
def c17(shape,tol=1e-7,h=(1,),gen=False):
    def f(c):
        g=Gr(c,*shape); A,W,r,H,b,L=g.system(); N=g.N; c.posdef(H) if not gen or c.mode=='num' else c.generic()
        o=c.call('drv_g_gn',g.hist(*h),1+N+2+N*N+N+len(g.nodes)+sum(2*d for d,a in g.nodes)); c.eq(o[0],N,'dx dimension',tol=0); dx=o[1:1+N]
        c.eq(mv(H,dx),b,'L dx = b, L and b of the normal equations',tol=tol); i=1+N+2
        c.eq(o[i:i+N*N],flat(H),'information matrix reported',tol=1e-8); i+=N*N; c.eq(o[i:i+N],b,'b reported',tol=1e-8); i+=N
        c.eq(o[i:i+len(g.nodes)],[0 if a else 1 for d,a in g.nodes],'every non-anchor node updated once, anchors never',tol=0); i+=len(g.nodes)
        x=[list(v) if a else [u-dx[g.off[k]+j] for j,u in enumerate(v)] for k,((d,a),v) in enumerate(zip(g.nodes,g.x))]
        e=g.wst(x,g.x); 
        # principal states only (the saved state is free)
        p=[];q=[];k=0
        for d,a in g.nodes: p+=o[i+k:i+k+d]; q+=e[k:k+d]; k+=2*d
        c.eq(p,q,'x := x - dx for active nodes, anchors keep their state',tol=1e-12)
    return f
def dense_ok(shape):
    return shape
GN=dict(one=([(2,0)],[(2,0,[0],0)]),curved=([(2,0)],[(2,0,[0],1)]),chain=([(1,1),(1,0),(1,0),(1,0)],[(1,0,[0,1],0),(1,0,[1,2],0),(1,0,[2,3],0),(1,0,[1,3],0)]),mixed=([(1,0),(2,1),(2,0)],[(1,0,[0,1],0),(2,0,[1,2],0),(1,0,[0,2],0),(1,0,[0],1)]),robust=([(1,0),(1,0)],[(1,2,[0],0),(1,0,[0,1],0),(1,1,[1],0)]),split=([(1,0),(2,0),(1,0)],[(1,0,[0],0),(2,0,[1],0),(1,0,[2],0)]))
for _n in GN: contract('C17','Gauss-Newton step, shape '+_n,FS('solve','optimize_gauss_newton','update_nodes'),GR,D,assume=[A_prof],bounded='graph of shape %s, all values symbolic; pivots nonzero'%_n,numN=150)(c17(GN[_n],gen=_n not in("one","split")))
for _s in range(6): contract('C17','Gauss-Newton step, random shape %d'%_s,FS('solve'),GR,D,nosym=True,numN=10,bounded='native, random shape with random values')(c17(rshape(_s+20,robust=_s%2==1),h=(_s%5,2+_s,3+_s)))
# ---------------------------------------------------------------- C18
def damped(shape):
    def f(c):
        g=Gr(c,*shape); c.generic(); A,W,r,H,b,L=g.system(); N=g.N; la=c.real('lambda',1.0,lo=F(1,1000)); c.assume(la,'>')
        o=c.call('drv_g_damped',g.enc()+[la],2*N+2+N*N); dx=o[:N]
        c.eq([y+la*d for y,d in zip(mv(H,dx),dx)],b,'(L + lambda I) dx = b',tol=1e-7); c.eq(o[N:2*N],b,'b',tol=1e-8)
        c.eq(o[2*N+2:],[H[i][j]+(la if i==j else 0) for i in range(N) for j in range(N)],'L holds the damped matrix',tol=1e-8)
    return f
for _n in('one','chain','mixed'): contract('C18','damped step, shape '+_n,FS('optimize_gauss_newton'),GR,D,assume=[A_prof],bounded='graph of shape %s, all values symbolic; pivots nonzero'%_n,numN=150)(damped(GN[_n]))
for _s in range(3): contract('C18','damped step, random shape %d'%_s,FS('optimize_gauss_newton'),GR,D,nosym=True,numN=10,bounded='native, random shape')(damped(rshape(_s+40)))
def sync(shape):
    def f(c):
        g=Gr(c,*shape); dx=c.vec('dx',g.N); n=sum(2*d for d,a in g.nodes); o=c.call('drv_g_sync',g.enc()+dx,3*n)
        x=[list(v) if a else [u-dx[g.off[k]+j] for j,u in enumerate(v)] for k,((d,a),v) in enumerate(zip(g.nodes,g.x))]
        c.eq(o[:n],g.wst(g.x),'saving copies the state of every node',tol=0); c.eq(o[n:2*n],g.wst(x,g.x),'step: x - dx, saved state and anchors kept',tol=1e-14); c.eq(o[2*n:],g.wst(g.x),'a rejected step restores exactly the saved state',tol=0)
    return f
for _n in SH: contract('C18','save, step, restore, shape '+_n,FS('synchronize_nodes_auxiliary_state','synchronize_nodes_state','update_nodes'),GR,D,bounded='graph of shape %s'%_n,numN=100)(sync(SH[_n]))
def lm(shape,it,la,tol,q=1.0):
    def f(c):
        g=Gr(c,*shape); o=c.call('drv_g_lm',g.enc()+[it,c.const(la) if not hasattr(la,'__call__') else la(c),c.const(tol)],4+sum(2*d for d,a in g.nodes))
        c.close(o[0],sum((l[2] for l in g.lin()[1:]),g.lin()[0][2]),'initial error',ntol=1e-8)
        c.holds(o[0]-o[3],'>=','final error <= initial error',slack=1e-9); c.holds(o[2]-it,'<=','at most maxIters iterations',slack=0); c.holds(o[2]-1,'>=','at least one iteration',slack=0)
        i=4
        for k,(d,a) in enumerate(g.nodes):
            if a: c.eq(o[i:i+d],g.x[k],'anchor keeps its state',tol=0)
            i+=2*d
    return f
NL=dict(nl1=([(1,0)],[(1,0,[0],1),(1,0,[0],1)]),nl2=([(2,0),(1,1)],[(2,0,[0],1),(2,0,[0,1],1),(1,0,[0],1)]),nl3=([(1,0),(2,0),(1,0)],[(2,0,[0,1],1),(2,0,[1,2],1),(1,0,[0,2],1),(1,0,[0],1)]))
for _n in NL:
    for _i,_la in((1,1e-6),(2,1e-3),(20,1e-6),(50,10.)): contract('C18','LM on nonlinear graph %s, %d iterations, lambda %g'%(_n,_i,_la),FS('optimize_levenberg_marquardt','solve'),GR,D,nosym=True,numN=300,bounded='native: nonlinear mock graph %s'%_n)(lm(NL[_n],_i,_la,1e-8))
# ---------------------------------------------------------------- C20
def c20(shape,h=(1,)):
    def f(c):
        g=Gr(c,*shape); A,W,r,H,b,L=g.system(robust=False); N=g.N; n=sum(2*d for d,a in g.nodes); dx=c.vec('dx',N)
        o=c.call('drv_gd_all',g.hist(*h)+dx,1+1+N+2+N*N+3*n+len(g.nodes)); c.eq(o[0],sum((l[2] for l in L[1:]),L[0][2]),'total error'); c.eq(o[1],N,'gradient dimension',tol=0)
        c.eq(o[2:2+N],b,'gradient = sum J^T W r',tol=1e-8); i=2+N; c.eq(o[i:i+2],[N,N],'Hessian dimensions',tol=0); c.eq(o[i+2:i+2+N*N],flat(H),'Hessian = sum J^T W J',tol=1e-8); i+=2+N*N
        x=[list(v) if a else [u+dx[g.off[k]+j] for j,u in enumerate(v)] for k,((d,a),v) in enumerate(zip(g.nodes,g.x))]
        c.eq(o[i:i+n],g.wst(g.x),'bookkeep saves the state',tol=0); i+=n; c.eq(o[i:i+n],g.wst(x,g.x),'update adds the own segment, never touches anchors',tol=1e-14); i+=n
        c.eq(o[i:i+len(g.nodes)],[0 if a else 1 for d,a in g.nodes],'each active node updated once',tol=0); i+=len(g.nodes); c.eq(o[i:],g.wst(g.x),'restore brings back the saved state',tol=0)
    return f
FD=lambda *x:['mrob::FGraphSolveDense::'+y for y in x]
for _n in SH:
    if 'robust' in _n: continue
    contract('C20','gradient, Hessian, updates: shape '+_n,FD('calculate_error','calculate_gradient_hessian','update_state','bookkeep_state','update_state_from_bookkeep'),GR,D,bounded='graph of shape %s, all values symbolic'%_n,numN=150)(c20(SH[_n]))
for _s in range(6): contract('C20','gradient, Hessian, updates: random shape %d'%_s,FD('calculate_gradient_hessian'),GR,D,nosym=True,numN=12,bounded='native, random shape')(c20(rshape(_s+60),(_s%5,2+_s,3+_s)))
# ---------------------------------------------------------------- C19 on real graphs
def dsolve(shape,m,it,la):
    def f(c):
        g=Gr(c,*shape); c.generic(); o=c.call('drv_gd_solve',g.enc()+[m,it,c.const(la)],5+sum(2*d for d,a in g.nodes)); L=g.lin()
        c.close(o[0],sum((l[2] for l in L[1:]),L[0][2]),'initial error',ntol=1e-8)
        c.holds(o[1]-it,'<=','reports at most the requested iterations',slack=0); c.eq(o[1],o[3],'reports the number of iterations made',tol=0)
        if m>0: c.holds(o[0]-o[4],'>=','error never increases',slack=1e-9)
    return f
for _n in NL:
    for _m in(0,1,2):
        for _i,_la in((1,1e-5),(3,1e-2),(60,1e-5)):
            contract('C19','%s on nonlinear graph %s, %d iterations'%(('Newton','LM spherical','LM elliptical')[_m],_n,_i),['mrob::Optimizer::solve','mrob::Optimizer::optimize_levenberg_marquardt','mrob::Optimizer::optimize_newton_raphson'],GR,D,nosym=True,numN=200,bounded='native: nonlinear mock graph %s'%_n)(dsolve(NL[_n],_m,_i,_la))
# ---------------------------------------------------------------- C21
def c21(shape):
    def f(c):
        g=Gr(c,*shape); y=[c.vec('y%d_'%i,d) for i,(d,a) in enumerate(g.nodes)]; nf=len(g.f); nn=len(g.nodes); o=c.call('drv_g_report',g.enc()+[v for x in y for v in x],1+1+nf+1+nf+1+nf+1+sum(2+d for d,a in g.nodes))
        L=[l[2] for l in g.lin()]; L2=[l[2] for l in g.lin(y)]; S=lambda l:sum(l[1:],l[0])
        c.eq(o[0],S(L),'chi2(true) = sum of the factors'' errors at the current states'); c.eq(o[1],nf,'one entry per factor',tol=0); c.eq(o[2:2+nf],L,'entry i = error of factor i'); i=2+nf
        c.eq(o[i],S(L),'chi2(false) = errors as last evaluated'); c.eq(o[i+1:i+1+nf],L,'array as last evaluated'); i+=1+nf
        c.eq(o[i],S(L2),'re-evaluated at the new states'); c.eq(o[i+1:i+1+nf],L2,'array re-evaluated'); i+=1+nf
        c.eq(o[i],nn,'one state per node, anchors included',tol=0); i+=1
        for k,(d,a) in enumerate(g.nodes): c.eq(o[i:i+2],[d,1],'state %d shape'%k,tol=0); c.eq(o[i+2:i+2+d],y[k],'state of node %d'%k,tol=0); i+=2+d
    return f
for _n in SH: contract('C21','reports, shape '+_n,FS('chi2','get_chi2_array','get_estimated_state'),GR,D,bounded='graph of shape %s, all values symbolic'%_n,numN=100)(c21(SH[_n]))
for _s in range(3): contract('C21','reports, random shape %d'%_s,FS('chi2','get_chi2_array','get_estimated_state'),GR,D,nosym=True,numN=12,bounded='native, random shape')(c21(rshape(_s+80)))
# ---------------------------------------------------------------- C15
def book(script):
    def f(c):
        inp=[len(script)]; out=[]; nodes=[]; facs=[]; att=[]; cnt=0
        for op in script:
            if op[0]=='n':
                d,a=op[1:]; inp+=[0,d,a]+[c.const(0)]*d; nodes.append((d,a)); att.append([]); out.append(len(nodes)-1)
            elif op[0]=='f':
                d,ids=op[1:]; n=sum(nodes[i][0] for i in ids); inp+=[1,d,0,len(ids)]+list(ids)+[c.const(0)]*(1+d+d*n+d*d); facs.append((d,ids)); out.append(len(facs)-1)
                for i in ids: att[i].append(len(facs)-1)
            else:
                a,b=op[1:]; inp+=[2,a,b]; ok=b in att[a]; out.append(int(ok))
                if ok: att[a].remove(b)
            out+=[len(nodes),len(facs),sum(d for d,a in nodes if not a),sum(d for d,i in facs)]
        st=len(out)
        for i in range(len(nodes)): out+=[i,1,len(att[i])]+list(att[i])
        for i in range(len(facs)): out+=[i,1]
        act=[i for i,(d,a) in enumerate(nodes) if not a]; out+=[len(act)]+act
        o=c.call('drv_g_book',inp,len(out)); c.eq(o[:st],out[:st],'ids, counts and dimensions after each operation',tol=0); c.eq(o[st:],out[st:],'look-up, adjacency and active nodes',tol=0)
    return f
def rscript(seed):
    R=random.Random('b%d'%seed); s=[]; nodes=[]; fs=[]
    for _ in range(R.randint(12,60)):
        k=R.random()
        if not nodes or k<.35: nodes.append((R.choice([1,2,3,4,6]),int(R.random()<.25))); s.append(('n',)+nodes[-1])
        elif k<.75 or not fs: m=min(len(nodes),R.choice([1,1,2,2,3])); fs.append((R.choice([1,2,3,6]),sorted(R.sample(range(len(nodes)),m)))); s.append(('f',)+fs[-1])
        else:
            b=R.randrange(len(fs)); a=R.choice(fs[b][1]) if R.random()<.7 else R.randrange(len(nodes)); s.append(('r',a,b))
    return s
for _s in range(24): contract('C15','operation sequence %d'%_s,['mrob::FGraph::add_node','mrob::FGraph::add_factor','mrob::FGraph::get_node','mrob::FGraph::get_factor','mrob::Node::add_factor','mrob::Node::rm_factor'],GR,D,bounded='one operation sequence (random, up to 60 operations)',numN=1,N=4)(book(rscript(_s)))
def gscript(it,K,mode='generic'):
    def f(c):
        c.nodiv=True; la=c.real('lambda',1.0,lo=F(1,10**6)); tol=c.real('tol',.3,lo=F(1,10**9)); W=c.w; E=[c.real('E%d'%i,1.0,special=(0,.1,.2,.5,1,2)) for i in range(K+1)]
        if c.mode=='num' and mode=='nan':
            for i in range(1,K+1): E[i].num[c.ex.rng.rand(W.N)<.3]=np.nan
        o=c.call('drv_g_script',[it,la,tol,K]+E,4+2*K)
        if c.mode=='num':
            N=W.N; O=np.stack([x.num for x in o],1); Ev=np.stack([x.num for x in E],1); Ex=np.full((N,4+2*K),-7.0)
            for i in range(N):
                lam=la.num[i]; x=0; n=0; log=[]; e=Ev[i]
                while True:
                    log+=[lam,float(x)]; n+=1; d=e[x]-e[n]
                    if not d>=0: lam*=2
                    else:
                        x=n
                        if d<tol.num[i]: break
                        dx=1/(1+lam); fi=d/(dx-.5*dx*(1+lam)*dx)
                        if fi<.25: lam*=2
                        if fi>.8: lam*=.25
                    if n>=it: break
                Ex[i,:3]=n,x,n; Ex[i,4:4+len(log)]=log
            mk=lambda j:W._mk('spec',(j,),(),Ex[:,j])
            c.eq(o[0],mk(0),'steps made',tol=0); c.eq(o[1],mk(1),'final state',tol=0); c.eq(o[2],mk(2),'updates',tol=0)
            for j in range(K):
                c.eq(o[5+2*j],mk(5+2*j),'state before step',tol=0)
                if j==0: c.eq(o[4],la,'first damping is the one supplied',tol=0)
                else:
                    rej=(O[:,5+2*j]!=j)&(O[:,4+2*j]!=-7); c.holds(W._mk('g',(j,),(),np.where(rej,O[:,4+2*j]-O[:,2+2*j],1.)),'>','damping grows after a rejection',slack=-1e-300)
            return
        n=int(W.as_const(o[0])); fin=int(W.as_const(o[1])); c.flag(c.const(int(1<=n<=it)),1,'between one and the requested number of iterations'); c.eq(o[2],n,'one update per iteration'); cur=0; pl=None
        for j in range(n):
            l,x=o[4+2*j:6+2*j]; xi=int(W.as_const(x))
            if j==0: c.eq(l,la,'first damping is the one supplied'); c.flag(c.const(int(xi==0)),1,'starts at the initial state'); pl=l; continue
            rej=c.decide(E[cur]-E[j],'<'); c.flag(c.const(int(xi==(cur if rej else j))),1,'step %d starts from the %s state'%(j+1,'restored' if rej else 'accepted'))
            if rej: c.holds(l-pl,'>','damping grows after a rejection')
            else: c.holds(l,'>','damping stays positive'); c.holds(E[cur]-E[j]-tol,'>=','continues only when not converged'); cur=j
            pl=l
        rej=c.decide(E[cur]-E[n],'<'); c.flag(c.const(int(fin==(cur if rej else n))),1,'ends at the best accepted state'); c.holds(E[0]-E[fin],'>=','final error is not larger than the initial one')
        if n<it: c.flag(c.const(int(not rej)),1,'stops early only on an accepted step'); c.holds(E[cur]-E[n]-tol,'<','stops early only below the tolerance')
    return f
for _it in(1,2,3): contract('C18','LM, up to %d iterations, arbitrary error sequence'%_it,FS('solve','optimize_levenberg_marquardt'),GR,D,assume=[A_prof],bounded='%d iterations, errors, damping and tolerance symbolic'%_it,numN=300)(gscript(_it,_it+1))
for _it in(6,20,100): contract('C18','LM, up to %d iterations, arbitrary error sequence'%_it,FS('solve','optimize_levenberg_marquardt'),GR,D,nosym=True,bounded='native',numN=200)(gscript(_it,_it+1))
contract('C18','LM with NaN errors',FS('optimize_levenberg_marquardt'),GR,D,nosym=True,bounded='native',numN=200)(gscript(8,9,'nan'))
# ---------------------------------------------------------------- large graphs (native), oracle in numpy
def fresh_t(w,a):
    n=w.__dict__['nbig']=w.__dict__.get('nbig',0)+1
    return w._mk('big',(n,),(),np.ascontiguousarray(a))
class Big:
    def __init__(self,c,n,m,seed,robust=False,nl=True,arity=3,anchors=True,tree=False):
        self.c=c; R=random.Random('L%d'%seed); self.dim=[R.choice([1,2,3,6] if n<60 else [1,1,2]) for _ in range(n)]; self.anc=[int(anchors and R.random()<.15) for _ in range(n)]
        if all(self.anc): self.anc[0]=0
        self.f=[]
        ids=[[i] for i in range(n)]+[sorted(R.sample(range(n),min(n,R.choice([1,2,2,2,arity])))) for _ in range(m-n)]
        R.shuffle(ids)
        for l in ids: self.f.append((R.choice([1,2,3]) if len(l)>1 else self.dim[l[0]],R.choice([0,0,1,2,3]) if robust else 0,l,int(nl and R.random()<.3)))
        self.n=n; r=np.random.RandomState(seed+1000*c.ex.rng.randint(1<<20)); S=c.w.N; self.S=S
        self.x=[r.randn(S,d) for d in self.dim]; self.p=[]
        for d,k,l,q in self.f:
            w=sum(self.dim[i] for i in l); A=r.randn(S,d,d); self.p.append((.1*q*r.randn(S),1.5*r.randn(S,d),r.randn(S,d,w)+(3*np.eye(d,w) if len(l)==1 else 0),A@A.transpose(0,2,1)+.5*np.eye(d)))
        o=0; self.off={}
        for i in range(n):
            if not self.anc[i]: self.off[i]=o; o+=self.dim[i]
        self.N=o; self.M=sum(f[0] for f in self.f)
    def T(self,a): return fresh_t(self.c.w,a) if isinstance(a,np.ndarray) else self.c.const(a)
    def enc(self):
        v=[self.n]
        for d,a,x in zip(self.dim,self.anc,self.x): v+=[d,a]+[x[:,i] for i in range(d)]
        v.append(len(self.f))
        for (d,k,l,q),(qq,z,J,W) in zip(self.f,self.p): v+=[d,k,len(l)]+l+[qq]+[z[:,i] for i in range(d)]+[J[:,i,j] for i in range(d) for j in range(J.shape[2])]+[W[:,i,j] for i in range(d) for j in range(d)]
        return v
    def call(self,fn,inp,nout):
        o=self.c.call(fn,[self.T(a) for a in inp],nout); return np.stack([t.num for t in o],1)
    def lin(self,x=None):
        x=x or self.x; r=[]
        for (d,k,l,q),(qq,z,J,W) in zip(self.f,self.p):
            v=np.concatenate([x[i] for i in l],1); e=np.einsum('sij,sj->si',J,v)+(qq*(v*v).sum(1))[:,None]-z; Jn=J+2*qq[:,None,None]*v[:,None,:]; chi=.5*np.einsum('si,sij,sj->s',e,W,e); u=np.sqrt(2*chi)
            r.append((e,Jn,chi,{0:np.ones_like(u),1:np.where(u<1,1,1/np.maximum(u,1e-300)),2:1/(1+u*u),3:1/(1+u*u)**2}[k]))
        return r
    def system(self,robust=True,x=None):
        S=self.S; A=np.zeros((S,self.M,self.N)); W=np.zeros((S,self.M,self.M)); rr=np.zeros((S,self.M)); ro=0; L=self.lin(x)
        for (d,k,l,q),(e,J,chi,w),(qq,z,J0,Wf) in zip(self.f,L,self.p):
            o=0
            for i in l:
                if i in self.off: A[:,ro:ro+d,self.off[i]:self.off[i]+self.dim[i]]+=J[:,:,o:o+self.dim[i]]
                o+=self.dim[i]
            rr[:,ro:ro+d]=e; W[:,ro:ro+d,ro:ro+d]=Wf*(w if robust else np.ones_like(w))[:,None,None]; ro+=d
        WA=np.zeros_like(A); Wr=np.zeros_like(rr); ro=0
        for f in self.f: d=f[0]; WA[:,ro:ro+d]=W[:,ro:ro+d,ro:ro+d]@A[:,ro:ro+d]; Wr[:,ro:ro+d]=np.einsum('sij,sj->si',W[:,ro:ro+d,ro:ro+d],rr[:,ro:ro+d]); ro+=d
        return A,W,rr,A.transpose(0,2,1)@WA,np.einsum('sij,si->sj',A,Wr),L
    def cmp(self,got,exp,label,tol):
        """all entries of one block at once"""
        c=self.c; got=got.reshape(self.S,-1); exp=np.broadcast_to(exp,got.shape) if np.ndim(exp)==0 or exp.shape!=got.shape else exp
        with np.errstate(all='ignore'):
            sc=1+np.abs(exp).max(1); d=np.abs(got-exp); d=np.where(np.isfinite(got),d,np.inf); k=d.argmax(1); i=np.arange(self.S)
        mk=lambda a:fresh_t(c.w,a)
        c.eq(mk(got[i,k]),mk(np.ascontiguousarray(exp[i,k])),label,tol=tol,scale=sc)
    def st(self,x,a): return np.concatenate([v for i in range(self.n) for v in (x[i],a[i])],1)
    def step(self,dx,s): return [self.x[i]+s*dx[:,self.off[i]:self.off[i]+self.dim[i]] if i in self.off else self.x[i] for i in range(self.n)]
def big(kind,n,m,seed,**kw):
    def f(c):
        g=Big(c,n,m,seed,**kw); S=g.S; M,N=g.M,g.N; ns=2*sum(g.dim)
        if kind=='C16':
            o=g.call('drv_g_build',g.enc()+[0]+[x[:,i] for x in g.x for i in range(x.shape[1])]+[0,0],2+M*N+2+M*M+2+N*N+N+M+ns); A,W,r,H,b,L=g.system(); i=2
            g.cmp(o[:,i:i+M*N],A.reshape(S,-1),'A',1e-9); i+=M*N+2; iu=np.triu_indices(M); g.cmp(o[:,i:i+M*M].reshape(S,M,M)[:,iu[0],iu[1]],W[:,iu[0],iu[1]],'W',1e-8); i+=M*M+2
            g.cmp(o[:,i:i+N*N],H.reshape(S,-1),'L = A^T W A',1e-8); i+=N*N; g.cmp(o[:,i:i+N],b,'b = A^T W r',1e-8); i+=N; g.cmp(o[:,i:i+M],r,'residuals',1e-9); i+=M; g.cmp(o[:,i:],g.st(g.x,g.x),'states unchanged',0)
        elif kind=='C17':
            o=g.call('drv_g_gn',g.enc()+[0]+[x[:,i] for x in g.x for i in range(x.shape[1])]+[0,0],1+N+2+N*N+N+n+ns); A,W,r,H,b,L=g.system(); dx=o[:,1:1+N]
            g.cmp(np.einsum('sij,sj->si',H,dx),b,'L dx = b',1e-6); i=1+N+2+N*N+N; g.cmp(o[:,i:i+n],np.array([[float(not a) for a in g.anc]]*S),'every non-anchor node updated once',0); i+=n
            x=g.step(dx,-1); e=np.concatenate([np.concatenate([x[k],0*x[k]],1) for k in range(n)],1); w=np.concatenate([np.concatenate([1+0*x[k],0*x[k]],1) for k in range(n)],1); g.cmp(o[:,i:]*w,e*w,'x - dx',1e-12)
        elif kind=='C18':
            dx=np.random.RandomState(seed).randn(S,N); o=g.call('drv_g_sync',g.enc()+[dx[:,i] for i in range(N)],3*ns); x=g.step(dx,-1)
            g.cmp(o[:,:ns],g.st(g.x,g.x),'saving copies the state of every node',0); g.cmp(o[:,ns:2*ns],g.st(x,g.x),'step',1e-13); g.cmp(o[:,2*ns:],g.st(g.x,g.x),'a rejected step restores exactly the saved state',0)
        elif kind=='C20':
            dx=np.random.RandomState(seed).randn(S,N); o=g.call('drv_gd_all',g.enc()+[0]+[x[:,i] for x in g.x for i in range(x.shape[1])]+[0,0]+[dx[:,i] for i in range(N)],1+1+N+2+N*N+3*ns+n); A,W,r,H,b,L=g.system(robust=False)
            g.cmp(o[:,:1],sum(l[2] for l in L)[:,None],'total error',1e-9); i=2; g.cmp(o[:,i:i+N],b,'gradient',1e-8); i+=N+2; g.cmp(o[:,i:i+N*N],H.reshape(S,-1),'Hessian',1e-8); i+=N*N
            x=g.step(dx,1); g.cmp(o[:,i:i+ns],g.st(g.x,g.x),'bookkeep saves the state',0); i+=ns; g.cmp(o[:,i:i+ns],g.st(x,g.x),'update adds the own segment',1e-13); i+=ns; g.cmp(o[:,i:i+n],np.array([[float(not a) for a in g.anc]]*S),'each active node once',0); i+=n; g.cmp(o[:,i:],g.st(g.x,g.x),'restore',0)
        elif kind=='C21':
            y=[np.random.RandomState(seed+i).randn(S,d) for i,d in enumerate(g.dim)]; nf=len(g.f); o=g.call('drv_g_report',g.enc()+[v[:,i] for v in y for i in range(v.shape[1])],1+1+nf+1+nf+1+nf+1+sum(2+d for d in g.dim))
            a=np.stack([l[2] for l in g.lin()],1); b=np.stack([l[2] for l in g.lin(y)],1); e=np.concatenate([a.sum(1)[:,None],np.full((S,1),nf),a,a.sum(1)[:,None],a,b.sum(1)[:,None],b,np.full((S,1),n)],1); g.cmp(o[:,:e.shape[1]]/np.maximum(1,np.abs(e)),e/np.maximum(1,np.abs(e)),'errors',1e-9)
            g.cmp(o[:,e.shape[1]:],np.concatenate([np.concatenate([np.full((S,1),d),np.ones((S,1)),v],1) for d,v in zip(g.dim,y)],1),'states in id order',0)
    return f
_f=dict(C16=FS('build_problem'),C17=FS('solve'),C18=FS('synchronize_nodes_auxiliary_state','synchronize_nodes_state','update_nodes'),C20=FD('calculate_error','calculate_gradient_hessian','update_state'),C21=FS('chi2','get_chi2_array','get_estimated_state'))
for _k in _f:
    for _n,_m in ((20,45),(40,70),(75,140),(140,250),(220,400))+(((1100,2300),(2200,4000)) if _k in('C18','C21') else ()):
        contract(_k,'large graph, %d nodes, %d factors'%(_n,_m),_f[_k],GR,D,nosym=True,numN=3 if _n<100 else 1,N=3 if _n<100 else 1,bounded='native, %d nodes'%_n)(big(_k,_n,_m,_n,robust=_k in('C16','C17')))
def wide(drv,n,sign):
    def f(c):
        x0=c.real('x0',1.0); d0=c.real('d0',1.0); W=(1,2,3,6); ks=[k*(n-1)//63 for k in range(64)]; off=[0]
        for i in range(n): off.append(off[-1]+(0 if i%7==3 else W[i%4]))
        S=sum(W[k%4] for k in ks); o=c.call(drv,[n,x0,d0],1+3*S); c.eq(o[0],off[-1],'state dimension'); p=1
        for k in ks:
            for j in range(W[k%4]): c.eq(o[p],x0 if k%7==3 else x0+sign*(d0+float(off[k]+j)),'own segment of the step'); c.eq(o[p+S],x0,'saved state'); c.eq(o[p+2*S],x0,'restored state'); p+=1
    return f
def widesolve(n,lm):
    def f(c):
        x0=c.real('x0',1.0); W=(1,2,3,6); ks=[k*(n-1)//63 for k in range(64)]; S=sum(W[k%4] for k in ks); o=c.call('drv_g_widesolve',[n,lm,x0],4+S)
        c.eq(o[0],sum(0 if i%7==3 else W[i%4] for i in range(n)),'state dimension'); c.eq(o[1],sum(W[i%4] for i in range(n))+n-1,'dimension of the observations'); c.close(o[2],0.,'minimum reached',1e-6); c.eq(o[3],n,'all states'); p=4
        for k in ks:
            for j in range(W[k%4]): c.close(o[p],((7*k+j)%101)/10.,'solution of the consistent problem',1e-5); p+=1
    return f
WB=dict(nosym=True,numN=2,N=2,bounded='native, 26000 nodes, dimension above 65536')
contract('C17','update_nodes, state dimension above 65536',FS('update_nodes'),GR,D,**WB)(wide('drv_g_wide',26000,-1))
contract('C18','save, step, restore, state dimension above 65536',_f['C18'],GR,D,**WB)(wide('drv_g_wide',26000,-1))
contract('C20','update_state, bookkeep_state, update_state_from_bookkeep, state dimension above 65536',FD('update_state','bookkeep_state','update_state_from_bookkeep'),GR,D,**WB)(wide('drv_gd_wide',26000,1))
def widebook(n):
    def f(c):
        o=c.call('drv_g_widebook',[n],4+64*8); e=[n,n,n,n]
        for k in range(64): i=k*(n-1)//63; e+=[i,i,i,i,1,1,2 if i<n-1 else 1,2 if i else 1]
        for a,b in zip(o,e): c.eq(a,b,'ids, look-up and adjacency')
    return f
contract('C15','more than 65536 nodes and factors',['mrob::FGraph::add_node','mrob::FGraph::add_factor','mrob::FGraph::get_node','mrob::FGraph::get_factor'],GR,D,nosym=True,numN=1,N=1,bounded='native, 70000 nodes and factors')(widebook(70000))
for _p,_l in (('C16',0),('C17',0),('C18',1),('C21',0)): contract(_p,'consistent problem of dimension above 65536',_f[_p],GR,D,**WB)(widesolve(26000,_l))
def lscript(seed,n):
    R=random.Random('B%d'%seed); s=[]; nodes=0; fs=[]
    for _ in range(n):
        k=R.random()
        if not nodes or k<.4: s.append(('n',R.choice([1,2,3,6]),int(R.random()<.25))); nodes+=1
        elif k<.85 or not fs: m=min(nodes,R.choice([1,1,2,2,3])); fs.append((R.choice([1,2,3,6]),sorted(R.sample(range(nodes),m) if R.random()<.7 else ([0] if m==1 else [0]+R.sample(range(1,nodes),m-1))))); s.append(('f',)+fs[-1])
        else:
            b=R.randrange(len(fs)); a=R.choice(fs[b][1]) if R.random()<.8 else R.randrange(nodes); s.append(('r',a,b))
    return s
for _s,_n in enumerate((150,400,1000,3000)): contract('C15','long operation sequence, %d operations'%_n,['mrob::FGraph::add_node','mrob::FGraph::add_factor','mrob::FGraph::get_node','mrob::FGraph::get_factor','mrob::Node::add_factor','mrob::Node::rm_factor'],GR,D,bounded='one operation sequence (random, %d operations)'%_n,nosym=True,numN=1,N=1)(book(lscript(_s,_n)))
