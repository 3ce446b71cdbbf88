"""Spec-level mathematics and the contracts of the geometry functions used at call sites."""
import numpy as np, math
from loops import IC
from fractions import Fraction
from terms import T, Unsupported, P, meq
from explore import flat
from symexec import Ptr, UNDEF
F=Fraction
REG={}      # property -> list of contract specs
# properties whose deciding obligations are bounded in a size (number of points, nodes, planes, iterations): symbolic in all values, claimed at level 'other'
BOUNDED_PROPS={'C15','C16','C17','C18','C19','C20','C21','C25'}
def contract(prop,name,funcs,sources=(),drivers=('geom.cpp',),**kw):
    def deco(f):
        s=dict(prop=prop,name=name,funcs=funcs,sources=list(sources),drivers=list(drivers),fn=f); s.update(kw)
        REG.setdefault(prop,[]).append(s); return f
    return deco
GEOM=['src/geometry/SO3.cpp','src/geometry/SE3.cpp','src/geometry/SE3cov.cpp']
# ---- matrices as nested lists -------------------------------------------------
def eye(n): return [[1 if i==j else 0 for j in range(n)] for i in range(n)]
def mm(A,B): return [[sum((A[i][k]*B[k][j] for k in range(1,len(B))),A[i][0]*B[0][j]) for j in range(len(B[0]))] for i in range(len(A))]
def mv(A,v): return [sum((A[i][k]*v[k] for k in range(1,len(v))),A[i][0]*v[0]) for i in range(len(A))]
def tr(A): return [list(r) for r in zip(*A)]
def madd(A,B,s=1): return [[x+s*y for x,y in zip(r,q)] for r,q in zip(A,B)]
def mscale(k,A): return [[k*x for x in r] for r in A]
def dot(a,b): return sum((x*y for x,y in zip(a[1:],b[1:])),a[0]*b[0])
def vadd(a,b,s=1): return [x+s*y for x,y in zip(a,b)]
def hat(w): return [[0,-w[2],w[1]],[w[2],0,-w[0]],[-w[1],w[0],0]]
def cross(a,b): return [a[1]*b[2]-a[2]*b[1],a[2]*b[0]-a[0]*b[2],a[0]*b[1]-a[1]*b[0]]
def hom(R,t): return [list(R[i])+[t[i]] for i in range(3)]+[[0,0,0,1]]
def unhom(M): return [r[:3] for r in M[:3]],[r[3] for r in M[:3]]
def rows(v,n,m,o=0): return [list(v[o+i*m:o+(i+1)*m]) for i in range(n)]
def minv(M):
    R,t=unhom(M); Rt=tr(R); return hom(Rt,[-x for x in mv(Rt,t)])
def adj(M):
    R,t=unhom(M); A=mm(hat(t),R); return [list(R[i])+[0,0,0] for i in range(3)]+[list(A[i])+list(R[i]) for i in range(3)]
def hat6(x): return [r+[x[3+i]] for i,r in enumerate(hat(x[:3]))]+[[0,0,0,0]]
def vee6(X): return [X[2][1],X[0][2],X[1][0],X[0][3],X[1][3],X[2][3]]
def rot_cs(c,s,n):
    return [[(c if i==j else 0)+(1-c)*n[i]*n[j]+s*hat(n)[i][j] for j in range(3)] for i in range(3)]
def Rot(c,n,th): return rot_cs(c.cos(th),c.sin(th),n)
def Vmat(c,n,th):
    """left Jacobian: (sin/th) I + (1-sin/th) nn^T + (1-cos)/th hat(n)"""
    h=c.sin(th*c.const(F(1,2))); a=c.sin(th)/th; b=2*h*h/th; N=hat(n)
    return [[(a if i==j else 0)+(1-a)*n[i]*n[j]+b*N[i][j] for j in range(3)] for i in range(3)]
def quatR(q):
    """rotation matrix of the (not necessarily unit) quaternion q=(x,y,z,w)"""
    x,y,z,w=q; n=x*x+y*y+z*z+w*w
    M=[[w*w+x*x-y*y-z*z,2*(x*y-w*z),2*(x*z+w*y)],[2*(x*y+w*z),w*w-x*x+y*y-z*z,2*(y*z-w*x)],[2*(x*z-w*y),2*(y*z+w*x),w*w-x*x-y*y+z*z]]
    return [[v/n for v in r] for r in M]
# ---- ghosts ------------------------------------------------------------------
def unitquat(c,name):
    """four symbols on the unit 3-sphere"""
    w=c.w; r=c.ex.rng; N=w.N
    def gen():
        q=r.randn(N,4)
        sp=np.array([[0,0,0,1],[1,0,0,0],[0,1,0,0],[0,0,1,0],[1,1,0,0],[1,0,1,0],[0,1,1,0],[1,0,0,1],[0,1,0,1],[0,0,1,1],[1,1,1,1],[1,-1,1,-1],[1,-1,0,0],[1,0,-1,0],[0,1,-1,0],[1,1,1,0],[1e-9,0,0,1],[0,1e-5,0,1],[1,0,0,1e-9],[1,2,0,1e-4],[-1,0,0,0],[1,1,1,-1],[.5,.5,.5,-.5]],float)
        k=r.randint(0,len(sp),N); q=np.where((r.rand(N)<.4)[:,None],sp[k],q)
        q/=np.sqrt((q*q).sum(1))[:,None]; return [q[:,i] for i in range(4)]
    def mods():
        o=[[],[],[],[]]
        for _ in range(w.NP):
            a,b,d=[w.rng.randrange(1,P) for _ in range(3)]; i=pow(1+a*a+b*b+d*d,-1,P)
            for k,v in enumerate((2*a,2*b,2*d,a*a+b*b+d*d-1)): o[k].append(v*i%P)
        return [tuple(x) for x in o]
    q=c.group(name,4,gen,mods)
    for i in range(4): w.bounds['%s%d'%(name,i)]=(F(-1),F(1))
    w.sqrules[name+'3']=w.one-q[0]*q[0]-q[1]*q[1]-q[2]*q[2]
    return q
def rotq(c,name):
    """a generic rotation matrix (all of SO(3)), as a polynomial in a unit quaternion"""
    x,y,z,w=unitquat(c,name)
    return [[1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y)],[2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x)],[2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)]]
def pose(c,name,scale=1.0): return hom(rotq(c,name+'q'),c.vec(name+'t',3,scale))
# ---- opaque functions --------------------------------------------------------
def _rotmods(w):
    def f():
        o=[[] for _ in range(9)]
        for _ in range(w.NP):
            q=[w.rng.randrange(1,P) for _ in range(4)]; x,y,z,s=q; i=pow(sum(v*v for v in q)%P,-1,P)
            M=[s*s+x*x-y*y-z*z,2*(x*y-s*z),2*(x*z+s*y),2*(x*y+s*z),s*s-x*x+y*y-z*z,2*(y*z-s*x),2*(x*z-s*y),2*(y*z+s*x),s*s-x*x-y*y+z*z]
            for k in range(9): o[k].append(M[k]*i%P)
        return [tuple(t) for t in o]
    return f
def np_exp3(w0,w1,w2):
    o2=w0*w0+w1*w1+w2*w2; o=np.sqrt(o2); sm=o<1e-4
    with np.errstate(all='ignore'):
        a=np.where(sm,1-o2/6+o2*o2/120,np.sin(o)/o); b=np.where(sm,.5-o2/24+o2*o2/720,2*np.sin(o/2)**2/o2); d=np.where(sm,1/6-o2/120,(o-np.sin(o))/(o2*o))
    W=np.array([[0*w0,-w2,w1],[w2,0*w0,-w0],[-w1,w0,0*w0]]); W2=np.einsum('ij...,jk...->ik...',W,W)
    I=np.eye(3).reshape(3,3,*([1]*np.ndim(w0)))
    return I+a*W+b*W2, I+b*W+d*W2
def np_ln3(R):
    """R (3,3,N) -> w (3,N), theta in [0,pi]; accurate near 0 and pi (via quaternion)"""
    t=R[0,0]+R[1,1]+R[2,2]
    K=np.array([[R[0,0]-R[1,1]-R[2,2],R[0,1]+R[1,0],R[0,2]+R[2,0],R[2,1]-R[1,2]],[R[0,1]+R[1,0],R[1,1]-R[0,0]-R[2,2],R[1,2]+R[2,1],R[0,2]-R[2,0]],[R[0,2]+R[2,0],R[1,2]+R[2,1],R[2,2]-R[0,0]-R[1,1],R[1,0]-R[0,1]],[R[2,1]-R[1,2],R[0,2]-R[2,0],R[1,0]-R[0,1],t]])/3.
    K=np.moveaxis(K,-1,0); bad=~np.isfinite(K).all((1,2)); K=np.where(bad[:,None,None],np.eye(4),K)
    v,q=np.linalg.eigh(K); q=q[:,:,3]; q=np.where((q[:,3]<0)[:,None],-q,q)
    s=np.sqrt((q[:,:3]**2).sum(1)); th=2*np.arctan2(s,q[:,3])
    with np.errstate(all='ignore'): k=np.where(s<1e-300,2.,th/np.where(s==0,1,s))
    w=(q[:,:3]*k[:,None]).T; w=np.where(bad,np.nan,w); return w,np.where(bad,np.nan,th)
def EXP3(c,w):
    """the rotation exp(hat w): opaque, except for hinted tangent vectors and zero"""
    W=c.w; w=[W.lift(x) for x in w]
    if all(W.zero_p(x) for x in w): return [[W.lift(x) for x in r] for r in eye(3)]
    for (tw,R) in getattr(W,'exp3_hints',[]):
        if all(W.eq(a,b) for a,b in zip(tw,w)): return R
    o=W.uf('EXP3',w,9,lambda a,b,d:[np_exp3(a,b,d)[0][i//3,i%3] for i in range(9)],_rotmods(W) if W.NP else (lambda:[()]*9))
    return rows(o,3,3)
def np_exp6(*x):
    E,V=np_exp3(*x[:3]); v=np.array(x[3:]); t=np.einsum('ij...,j...->i...',V,v)
    return [E[i//3,i%3] for i in range(9)]+[t[i] for i in range(3)]
def EXP6(c,xi):
    W=c.w; xi=[W.lift(x) for x in xi]
    for (tw,M) in getattr(W,'exp6_hints',[]):
        if all(W.eq(a,b) for a,b in zip(tw,xi)): return M
    if all(W.zero_p(x) for x in xi): return [[W.lift(v) for v in r] for r in eye(4)]
    R=EXP3(c,xi[:3])
    if all(W.zero_p(x) for x in xi[:3]): t=xi[3:]
    else: t=W.uf('EXP6t',xi,3,lambda *x:np_exp6(*x)[9:],None if W.NP else (lambda:[()]*3))
    return hom(R,t)
def LN3(c,R):
    """tangent vector and angle of a rotation matrix (precondition: R is a rotation)"""
    W=c.w; R=[[W.lift(x) for x in r] for r in R]
    if all(W.eq(R[i][j],W.lift(int(i==j))) for i in range(3) for j in range(3)): return [W.zero]*3,W.zero
    for (M,tw,th) in getattr(W,'ln3_hints',[]):
        if all(W.eq(M[i][j],R[i][j]) for i in range(3) for j in range(3)): return tw,th
    def f(*a):
        w,th=np_ln3(np.array(a).reshape(3,3,-1)); return [w[0],w[1],w[2],th]
    # mod points: theta with theta^2=|w|^2 : scale a sphere point
    def mods():
        if not W.NP: return [()]*4
        o=[[],[],[],[]]
        for _ in range(W.NP):
            a,b,t=[W.rng.randrange(1,P) for _ in range(3)]; i=pow(1+a*a+b*b,-1,P)
            for k,v in enumerate((2*a,2*b,a*a+b*b-1)): o[k].append(v*i*t%P)
            o[3].append(t)
        return [tuple(x) for x in o]
    o=W.uf('LN3',flat(R),4,f,mods)
    l=W.__dict__.setdefault('ln3_out',[])
    if all(o[3] is not x[1] for x in l):
        l.append((R,o[3])); W.hints_sq.append(o[3]); W.__dict__.setdefault('exp3_hints',[]).append((o[:3],R))
        W.__dict__.setdefault('nonneg_ids',set()).add(o[3].id)
    return o[:3],o[3]
def LN6(c,M):
    W=c.w
    for (A,xi) in getattr(W,'ln6_hints',[]):
        if all(W.eq(W.lift(a),W.lift(b)) for a,b in zip(flat(A),flat(M))): return xi
    R,t=unhom(M)
    w,th=LN3(c,R)
    if all(W.zero_p(x) for x in w): return list(w)+[W.lift(x) for x in t]
    def f(*a):
        a=np.array(a); w=a[:3]; t=a[3:]
        E,V=np_exp3(*w); Vm=np.moveaxis(V,-1,0); ok=np.isfinite(Vm).all((1,2)); Vm=np.where(ok[:,None,None],Vm,np.eye(3))
        try: v=np.linalg.solve(Vm,t.T[:,:,None])[:,:,0]
        except np.linalg.LinAlgError: v=np.full(t.T.shape,np.nan)
        return [v[:,0],v[:,1],v[:,2]]
    v=W.uf('LN6v',list(w)+[W.lift(x) for x in t],3,f,None if W.NP else (lambda:[()]*3))
    xi=list(w)+list(v)
    h=W.__dict__.setdefault('exp6_hints',[])
    if all(any(a is not b for a,b in zip(xi,x[0])) for x in h): h.append((xi,[[W.lift(x) for x in r] for r in M]))
    return xi
# ---- memory access of objects -------------------------------------------------
def ldm(m,p,n,k):
    """n x k row-major double matrix (mrob::Mat) at p -> rows"""
    D=('double',)
    return [[m.num(m.load(Ptr(p.o,p.off+8*(j+k*i)),D)) for j in range(k)] for i in range(n)]
def stm(m,p,M):
    n,k=len(M),len(M[0])
    for j in range(k):
        for i in range(n): m.store(Ptr(p.o,p.off+8*(j+k*i)),8,m.w.lift(M[i][j]))
def is_rot(c,R):
    W=c.w; RR=mm(R,tr(R))
    return all(W.eq(W.lift(RR[i][j]),W.lift(int(i==j))) for i in range(3) for j in range(3))
class Pre(Unsupported): pass
# call-site contracts.  a handler factory takes (ctx, machine) and installs itself
def _install(m,c,pred,h):
    for mn,dn in c.ex.dem.items():
        if dn and pred(dn): m.contracts[mn]=h
def A_SO3_exp(c,m):
    def h(m,a):
        this,wh=a; H=ldm(m,wh,3,3)
        if not all(c.w.zero_p(H[i][j]+H[j][i]) for i in range(3) for j in range(3)): raise Pre('SO3::exp precondition: skew-symmetric argument')
        stm(m,this,EXP3(c,[H[2][1],H[0][2],H[1][0]]))
    _install(m,c,lambda d:d.startswith('mrob::SO3::exp('),h)
def A_SO3_ln(c,m):
    def h(m,a):
        sret,this,po=a; R=ldm(m,this,3,3)
        if not is_rot(c,R): raise Pre('SO3::ln precondition: rotation matrix')
        w,th=LN3(c,R); stm(m,sret,hat(w))
        if po.o is not None: m.store(po,8,th)
    _install(m,c,lambda d:d.startswith('mrob::SO3::ln(double*) const'),h)
def A_SE3_exp(c,m):
    def h(m,a):
        this,p=a; H=ldm(m,p,4,4)
        if not all(c.w.zero_p(H[i][j]+H[j][i]) for i in range(3) for j in range(3)): raise Pre('SE3::exp precondition: se(3) argument')
        stm(m,this,EXP6(c,vee6(H)))
    _install(m,c,lambda d:d.startswith('mrob::SE3::exp('),h)
def A_SE3_ln(c,m):
    def h(m,a):
        sret,this=a; M=ldm(m,this,4,4)
        if not is_rot(c,unhom(M)[0]): raise Pre('SE3::ln precondition: rigid transform')
        stm(m,sret,hat6(LN6(c,M)))
    _install(m,c,lambda d:d.startswith('mrob::SE3::ln() const'),h)
def A_wrap(c,m):
    def h(m,a): return c.w.wrap(m.num(a[0]))
    _install(m,c,lambda d:d.startswith('mrob::wrap_angle('),h)

# ---- contracts assumed on Eigen (dependency): inverses are opaque functions of the matrix
def INVn(c,A):
    n=len(A)
    def f(*x):
        M=np.moveaxis(np.array([np.broadcast_to(v,x[0].shape) for v in x]).reshape(n,n,-1),-1,0); ok=np.isfinite(M).all((1,2)); M=np.where(ok[:,None,None],M,np.eye(n))
        try: I=np.linalg.inv(M)
        except np.linalg.LinAlgError: I=np.linalg.pinv(M)
        I=np.where(ok[:,None,None],I,np.nan); return [I[:,i//n,i%n] for i in range(n*n)]
    return rows(c.w.uf('INV%d'%n,flat(A),n*n,f,None if c.w.NP else (lambda:[()]*(n*n))),n,n)
def E_invX(c,m):
    """MatX::inverse() of an n x n matrix (compute_inverse<MatX,MatX>::run): the inverse matrix"""
    def h(m,a):
        p,q=a[0],a[1]; n=m.load(Ptr(p.o,p.off+8),('i',64)); D=m.load(p,('ptr',)); R=m.load(q,('ptr',))
        if m.load(Ptr(q.o,q.off+8),('i',64))!=n: raise Unsupported('inverse result size')
        stm(m,R,INVn(c,ldm(m,D,n,n)))
    for mn,dn in c.ex.dem.items():
        if mn.startswith('_ZN5Eigen8internal15compute_inverseINS_6MatrixIdLin1ELin1ELi1ELin1ELin1EEES3_Lin1EE3runE'): m.contracts[mn]=h
