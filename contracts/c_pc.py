from lib import *
def fresh_t(w,a):
    n=w.__dict__['nspec']=w.__dict__.get('nspec',0)+1
    return w._mk('spec',(n,),(),np.asarray(a,float))
R_='src/PCRegistration/'
PC=GEOM+['src/FGraph/node.cpp','src/FGraph/factor.cpp','src/common/optimizer.cpp','src/common/time_profiling.cpp']+[R_+x+'.cpp' for x in('arun','gicp','weight_point','estimate_plane','plane','plane_registration')]
D=('pc.cpp',)
# ------------------------------------------------------------- contracts assumed on Eigen (dependency)
def _layout(c,m):
    if not hasattr(c.ex,'layout'):
        from symexec import Machine
        q=Machine(c.ex.mod,c.w,None,c.path.decide); b=q.alloc(8*16,'lay'); q.call('drv_layout',[q.alloc(8,'x'),b])
        c.ex.layout=[int(c.w.as_const(q.load(Ptr(b.o,8*i),('double',)))) for i in range(16)]
    return c.ex.layout
def E_inv6(c,m):
    """Mat6::inverse(): the inverse matrix (opaque INV6 of its argument; a partial function, defined on invertible matrices)"""
    def h(m,a):
        A=ldm(m,a[0],6,6); stm(m,a[1],INV6(c,A))
    for mn,dn in c.ex.dem.items():
        if dn and dn.startswith('void Eigen::internal::compute_inverse<Eigen::Matrix<double, 6, 6') or mn.startswith('_ZN5Eigen8internal15compute_inverseINS_6MatrixIdLi6ELi6ELi1'): m.contracts[mn]=h
def INV6(c,A):
    def f(*x):
        M=np.moveaxis(np.array([np.broadcast_to(v,x[0].shape) for v in x]).reshape(6,6,-1),-1,0); ok=np.isfinite(M).all((1,2)); M=np.where(ok[:,None,None],M,np.eye(6))
        try: I=np.linalg.inv(M)
        except np.linalg.LinAlgError: I=np.linalg.pinv(M)
        I=np.where(ok[:,None,None],I,np.nan); return [I[:,i//6,i%6] for i in range(36)]
    return rows(c.w.uf('INV6',flat(A),36,f,None if c.w.NP else (lambda:[()]*36)),6,6)
def _eig(c,name,A):
    """SelfAdjointEigenSolver: ascending eigenvalues and orthonormal eigenvectors of a symmetric matrix, opaque"""
    n=len(A)
    def f(*x):
        M=np.moveaxis(np.array([np.broadcast_to(v,x[0].shape) for v in x]).reshape(n,n,-1),-1,0); ok=np.isfinite(M).all((1,2)); M=np.where(ok[:,None,None],M,np.eye(n))
        e,v=np.linalg.eigh(M); return [v[:,i//n,i%n] for i in range(n*n)]+[e[:,i] for i in range(n)]
    o=c.w.uf(name,flat(A),n*n+n,f,None if c.w.NP else (lambda:[()]*(n*n+n)))
    return rows(o,n,n),o[n*n:]
def E_eig(c,m):
    L=_layout(c,m)
    def mk(n,ov,oe,ini,ok,info):
        def h(m,a):
            A=ldm(m,a[1],n,n); W=c.w
            # the solver reads the lower triangle only
            S=[[A[max(i,j)][min(i,j)] for j in range(n)] for i in range(n)]
            V,e=_eig(c,'EIG%d'%n,S); stm(m,Ptr(a[0].o,a[0].off+ov),tr(V))   # eigenvectors are stored column-major
            for i in range(n): m.store(Ptr(a[0].o,a[0].off+oe+8*i),8,e[i])
            m.store(Ptr(a[0].o,a[0].off+ini),1,1); m.store(Ptr(a[0].o,a[0].off+ok),1,1); m.store(Ptr(a[0].o,a[0].off+info),4,0)
            return a[0]
        return h
    for mn in c.ex.dem:
        if mn.startswith('_ZN5Eigen22SelfAdjointEigenSolverINS_6MatrixIdLi3ELi3ELi1') and '13computeDirectE' in mn: m.contracts[mn]=mk(3,L[3],L[4],L[10],L[11],L[12])
        if mn.startswith('_ZN5Eigen22SelfAdjointEigenSolverINS_6MatrixIdLi3ELi3ELi1') and '7computeI' in mn: m.contracts[mn]=mk(3,L[3],L[4],L[10],L[11],L[12])
        if mn.startswith('_ZN5Eigen22SelfAdjointEigenSolverINS_6MatrixIdLi4ELi4ELi1') and '7computeI' in mn: m.contracts[mn]=mk(4,L[5],L[6],L[13],L[14],L[15])
def _orth(W,sg):
    f=_rotmods_sg(W,sg); return f
def _rotmods_sg(W,sg):
    g=__import__('lib')._rotmods(W)
    def f():
        u=g(); return [tuple(sg*x%P for x in col) if sg<0 and i%3==2 else col for i,col in enumerate(u)]
    return f
def SVD3(c,H,sg):
    """full SVD H = U diag(s) V^T, s descending, det(U V^T) = sg (ghost)"""
    W=c.w
    def f(*x):
        M=np.moveaxis(np.array([np.broadcast_to(v,x[0].shape) for v in x]).reshape(3,3,-1),-1,0); ok=np.isfinite(M).all((1,2)); M=np.where(ok[:,None,None],M,np.eye(3))
        u,s,vt=np.linalg.svd(M); v=vt.transpose(0,2,1); return [u[:,i//3,i%3] for i in range(9)]+[v[:,i//3,i%3] for i in range(9)]+[s[:,i] for i in range(3)]
    def mods():
        if not W.NP: return [()]*21
        return _rotmods_sg(W,sg)()+_rotmods_sg(W,1)()+[tuple(W.rng.randrange(1,P) for _ in range(W.NP)) for _ in range(3)]
    o=W.uf('SVD3%d'%sg,flat(H),21,f,mods); return rows(o,3,3),rows(o[9:],3,3),o[18:]
def E_svd(c,m):
    L=_layout(c,m)
    def h(m,a):
        A=[[m.num(m.load(Ptr(a[1].o,a[1].off+8*(i+3*j)),('double',))) for j in range(3)] for i in range(3)]   # column-major argument
        U,V,s=SVD3(c,A,c.svd_sign); st=lambda o,M:[m.store(Ptr(a[0].o,a[0].off+o+8*(i+3*j)),8,M[i][j]) for i in range(3) for j in range(3)]
        st(L[0],U); st(L[1],V)
        for i in range(3): m.store(Ptr(a[0].o,a[0].off+L[2]+8*i),8,s[i])
        m.store(Ptr(a[0].o,a[0].off+L[7]),1,1); m.store(Ptr(a[0].o,a[0].off+L[8]),1,1); m.store(Ptr(a[0].o,a[0].off+L[9]),1,1)
        return a[0]
    for mn in c.ex.dem:
        if mn.startswith('_ZN5Eigen9JacobiSVDINS_6MatrixIdLi3ELi3ELi0') and '7computeE' in mn: m.contracts[mn]=h
def E_gemm(c,m):
    """Eigen's general matrix product kernel: res += alpha lhs rhs (sizes below the switch to it are executed, not assumed)"""
    import re
    def blk(m,a): return None        # blocking sizes only affect speed
    for mn in c.ex.dem:
        if mn.startswith('_ZN5Eigen8internal27computeProductBlockingSizes'): m.contracts[mn]=blk
        g=re.match(r'_ZN5Eigen8internal29general_matrix_matrix_productIldLi(\d)ELb0EdLi(\d)ELb0ELi(\d)ELi1EE3run',mn)
        if g:
            def h(m,a,lo=int(g.group(1)),ro=int(g.group(2)),so=int(g.group(3))):
                R,C,K,L,ls,Rh,rs,D,inc,ds,al=a[:11]
                if not(isinstance(R,int) and isinstance(C,int)): raise Unsupported('gemm result of symbolic size')
                ld=lambda p,o: m.num(m.load(Ptr(p.o,p.off+8*o),('double',)))
                def term(k): return [ld(L,(i*ls+k) if lo else (k*ls+i))*ld(Rh,(k*rs+j) if ro else (j*rs+k)) for i in range(R) for j in range(C)]
                v=m.sum(K,term) if hasattr(m,'sum') else [sum(x[1:],x[0]) for x in zip(*[term(k) for k in range(K)])]
                for i in range(R):
                    for j in range(C):
                        o=i*ds+j if so else i+j*ds; m.store(Ptr(D.o,D.off+8*o),8,ld(D,o)+m.num(al)*v[i*C+j])
            m.contracts[mn]=h
A_GEMM='Eigen general matrix product kernel (used from 14 points on) computes res += alpha lhs rhs (contract assumed); its size arithmetic is executed'
def rows3(m,X,n):
    """generic row of an n x 3 input array"""
    return lambda k: [X.o.lazy.get(m,3*k+j) for j in range(3)]
def mean(P_,n): return [sum((p[k] for p in P_[1:]),P_[0][k])*F(1,n) for k in range(3)]
def outer_sum(A,B): 
    return [[sum((a[i]*b[j] for a,b in zip(A[1:],B[1:])),A[0][i]*B[0][j]) for j in range(3)] for i in range(3)]
# ------------------------------------------------------------- C22
def c22(n):
    def f(c):
        if c.mode=='num': return
        X=[c.vec('x%d_'%i,3) for i in range(n)]; Y=[c.vec('y%d_'%i,3) for i in range(n)]; T0=[[c.real('T%d%d'%(i,j)) for j in range(4)] for i in range(3)]+[[0,0,0,1]]
        cx,cy=mean(X,n),mean(Y,n); H=outer_sum([vadd(x,cx,-1) for x in X],[vadd(y,cy,-1) for y in Y])
        sd=c.w.uf('SVDSIGN',flat(H),1,lambda *x:[_svdsign(x)])[0]; c.svd_sign=1 if c.decide(sd,'>') else -1
        U,V,s=SVD3(c,H,c.svd_sign); c.assume(s[2],'>='); c.assume(s[1]-s[2],'>='); c.assume(s[0]-s[1],'>='); c.assume(s[1],'>='); c.assume(s[0],'>=')
        o=c.call('drv_arun',[n]+flat(T0)+flat(X)+flat(Y),17); ok=c.w.as_const(o[0])
        if ok==0:
            c.holds(s[1]-s[0]*F(1,10**6),'<=','failure only for collinear points (second singular value vanishes)'); c.eq(o[1:],flat(T0),'a failure leaves the transform untouched',tol=0); return
        c.flag(o[0],1,'status is 0 or 1'); c.holds(s[1],'>','success only for non-collinear points')
        Rm=mm([[v[0],v[1],v[2]*c.svd_sign] for v in V],tr(U)); t=vadd(cy,mv(Rm,cx),-1)
        c.eq(o[1:],flat(hom(Rm,t)),'T = (V diag(1,1,det) U^T, cy - R cx): the proper rotation of Umeyama/Arun')
    return f
def _svdsign(x):
    M=np.moveaxis(np.array([np.broadcast_to(v,x[0].shape) for v in x]).reshape(3,3,-1),-1,0); ok=np.isfinite(M).all((1,2)); M=np.where(ok[:,None,None],M,np.eye(3))
    u,s,vt=np.linalg.svd(M); return np.sign(np.linalg.det(u)*np.linalg.det(vt))
for _n in(3,4,6): contract('C22','arun, %d points'%_n,['mrob::PCRegistration::arun'],PC,D,assume=[E_svd],nonum=True,bounded='%d points, all coordinates symbolic'%_n,assumptions=['Eigen::JacobiSVD<Matrix3d>::compute returns a full SVD (contract assumed)'])(c22(_n))
@contract('C22','lemma: the rotation of the SVD maximises tr(R H) over all rotations',['(lemma)'],PC,D,nonum=True)
def c22_lemma(c):
    s2=c.real('s2',lo=0); d1=c.real('d1',lo=0); d0=c.real('d0',lo=0); s1=s2+d1; s0=s1+d0
    q=unitquat(c,'q'); Q=[[1-2*(q[1]*q[1]+q[2]*q[2])],[1-2*(q[0]*q[0]+q[2]*q[2])],[1-2*(q[0]*q[0]+q[1]*q[1])]]; M=[r[0] for r in Q]; x,y,z,w=q
    # det(V^T Q U) = +1: V^T Q U is a rotation with diagonal M
    c.eq(s0+s1+s2-(s0*M[0]+s1*M[1]+s2*M[2]),2*s0*(y*y+z*z)+2*s1*(x*x+z*z)+2*s2*(x*x+y*y),'optimal value minus any value is a sum of nonnegative terms (det +1)')
    # det = -1: V^T Q U = -(rotation), diagonal -M; optimum s0+s1-s2
    c.eq(s0+s1-s2+(s0*M[0]+s1*M[1]+s2*M[2]),2*(s0-s2)*(x*x+w*w)+2*(s1-s2)*(y*y+w*w)+4*s2*w*w,'optimal value minus any value is a sum of nonnegative terms (det -1)')
@contract('C22','lemma: objective decomposes into translation part and trace (every number of points)',['(lemma)'],PC,('abs.cpp','pc.cpp'),nonum=True,npts=6)
def c22_lemma2(c):
    m=c.amachine(); N=m.isym('N',3,10**7); X=m.array('X',N*3); Y=m.array('Y',N*3); x=rows3(m,X,N); y=rows3(m,Y,N); n=m.itof(N); Q=rotq(c,'q'); t=c.vec('t',3)
    cx=[s/n for s in m.sum(N,x)]; cy=[s/n for s in m.sum(N,y)]; qx=lambda k:vadd(x(k),cx,-1); qy=lambda k:vadd(y(k),cy,-1)
    H=rows(m.sum(N,lambda k: (lambda p,q:[p[i]*q[j] for i in range(3) for j in range(3)])(qx(k),qy(k))),3,3)
    obj=m.sum(N,lambda k:(lambda e:[dot(e,e)])(vadd(vadd(y(k),mv(Q,x(k)),-1),t,-1)))[0]; d=vadd(vadd(cy,mv(Q,cx),-1),t,-1)
    QH=mm(Q,H); trc=QH[0][0]+QH[1][1]+QH[2][2]; spread=m.sum(N,lambda k:[dot(qx(k),qx(k))+dot(qy(k),qy(k))])[0]
    c.eq(obj,spread-2*trc+n*dot(d,d),'sum |y-Qx-t|^2 = const - 2 tr(Q H) + n |cy - Q cx - t|^2')
@contract('C22','arun, every number of points',['mrob::PCRegistration::arun'],PC,('abs.cpp','pc.cpp'),assume=[E_svd,E_gemm],nonum=True,npts=6,sized=('N',3,5000,lambda n:c22n('noisy',n)),assumptions=['Eigen::JacobiSVD<Matrix3d>::compute returns a full SVD (contract assumed)',A_GEMM])
def c22_all(c):
    m=c.amachine(); N=m.isym('N',3,10**7); X=m.array('X',N*3); Y=m.array('Y',N*3); x=rows3(m,X,N); y=rows3(m,Y,N); n=m.itof(N)
    T0=[[c.real('T%d%d'%(i,j)) for j in range(4)] for i in range(3)]+[[0,0,0,1]]
    cx=[s/n for s in m.sum(N,x)]; cy=[s/n for s in m.sum(N,y)]
    H=rows(m.sum(N,lambda k: (lambda p,q:[p[i]*q[j] for i in range(3) for j in range(3)])(vadd(x(k),cx,-1),vadd(y(k),cy,-1))),3,3)
    sd=c.w.uf('SVDSIGN',flat(H),1,lambda *x:[_svdsign(x)])[0]; c.svd_sign=1 if c.decide(sd,'>') else -1
    U,V,s=SVD3(c,H,c.svd_sign); c.assume(s[2],'>='); c.assume(s[1]-s[2],'>='); c.assume(s[0]-s[1],'>='); c.assume(s[1],'>='); c.assume(s[0],'>=')
    o=c.acall(m,'drv_abs_arun',[X,Y,N,flat(T0)],17); ok=c.w.as_const(o[0])
    if ok==0:
        c.holds(s[1]-s[0]*F(1,10**6),'<=','failure only for collinear points (second singular value vanishes)'); c.eq(o[1:],flat(T0),'a failure leaves the transform untouched',tol=0); return
    c.flag(o[0],1,'status is 0 or 1'); c.holds(s[1],'>','success only for non-collinear points')
    Rm=mm([[v[0],v[1],v[2]*c.svd_sign] for v in V],tr(U)); t=vadd(cy,mv(Rm,cx),-1)
    c.eq(o[1:],flat(hom(Rm,t)),'T = (V diag(1,1,det) U^T, cy - R cx): the proper rotation of Umeyama/Arun')
SETS=dict(square=[[1,1,0],[-1,1,0],[-1,-1,0],[1,-1,0]],cube=[[a,b,d] for a in(-1,1) for b in(-1,1) for d in(-1,1)],tetra=[[1,1,1],[1,-1,-1],[-1,1,-1],[-1,-1,1]],triangle=[[1,0,0],[0,1,0],[0,0,1]],octa=[[1,0,0],[-1,0,0],[0,1,0],[0,-1,0],[0,0,1],[0,0,-1]],rect=[[2,1,0],[-2,1,0],[-2,-1,0],[2,-1,0]],two_plus=[[0,0,0],[1,0,0],[0,1,0]])
def c22n(kind,size=None):
    def f(c):
        r=c.ex.rng; N=c.w.N; n=size or {'gen3':3,'gen10':10,'planar':7,'flat':12,'col':5,'col3':3,'same':4,'coloff':6,'noisy':8,'mirror':6,'thin':8,'needle':7,'random':5}.get(kind) or len(SETS[kind])
        sc=10.**np.where(r.rand(N)<.6,r.uniform(-3,3,N),r.uniform(-11,8,N))[:,None,None]; off=r.randn(N,1,3)*sc*np.where(r.rand(N)<.5,1,20 if kind!='needle' else 1)[:,None,None]
        if kind in SETS: B=np.broadcast_to(np.array(SETS[kind],float),(N,n,3))+0
        elif kind in('col','col3','coloff'): B=r.randn(N,n,1)*r.randn(N,1,3)
        elif kind=='same': B=np.zeros((N,n,3))
        else: B=r.randn(N,n,3)
        if kind in('planar','flat'): B[:,:,2]=0
        if kind=='thin': B[:,:,1]*=.02; B[:,:,2]*=.02
        if kind=='needle': a=10.**r.uniform(-3.3,-1.5,N)[:,None]; B[:,0,1]=1; B[:,1,1]=-1; B[:,:,1]*=a; B[:,:,2]*=a   # the thin direction still gives sv(1) of about a^2 sv(0), well above rounding
        q0=r.randn(N,4); q0/=np.linalg.norm(q0,axis=1)[:,None]; q1=r.randn(N,4)
        sp=np.array([[0,0,0,1],[1,0,0,0],[0,1,0,0],[0,0,1,0],[1,1,0,0],[0,1,1,0]],float); q1=np.where((r.rand(N)<.4)[:,None],sp[r.randint(0,6,N)],q1); q1/=np.linalg.norm(q1,axis=1)[:,None]
        def RR(q):
            x,y,z,w=q.T; return np.moveaxis(np.array([[1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y)],[2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x)],[2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)]]),-1,0)
        if kind not in('planar',): B=np.einsum('nij,nkj->nki',RR(q0),B)
        X=B*sc+off; Rt=RR(q1); t=r.randn(N,3)*sc[:,:,0]*3; Y=np.einsum('nij,nkj->nki',Rt,X)+t[:,None,:]
        if kind=='noisy': Y=Y+sc*r.randn(N,n,3)*10.**r.uniform(-3,.5,N)[:,None,None]
        if kind=='random': Y=sc*r.randn(N,n,3)
        if kind=='mirror': Y=X*np.array([1,1,-1.]); 
        T0=r.randn(N,12)
        xs=c.group('X',3*n,lambda:[X.reshape(N,-1)[:,i] for i in range(3*n)],None,norm=False); ys=c.group('Y',3*n,lambda:[Y.reshape(N,-1)[:,i] for i in range(3*n)],None,norm=False)
        X=np.stack([x.num for x in xs],1).reshape(N,n,3); Y=np.stack([x.num for x in ys],1).reshape(N,n,3)
        t0=c.group('T',12,lambda:[T0[:,i] for i in range(12)],None,norm=False); o=c.call('drv_arun',[n]+t0+[0,0,0,1]+xs+ys,17)
        O=np.stack([x.num for x in o],1); M=O[:,1:].reshape(N,4,4); S=float
        mk=lambda a:fresh_t(c.w,a)
        if kind in('col','col3','same','coloff'):
            c.eq(o[0],c.const(0),'collinear points: failure reported',tol=0); c.eq(o[1:],t0+[c.const(0)]*3+[c.const(1)],'transform untouched',tol=0); return
        c.eq(o[0],c.const(1),'success for non-collinear points',tol=0)
        cx=X.mean(1,keepdims=True); cy=Y.mean(1,keepdims=True); H=np.einsum('nki,nkj->nij',X-cx,Y-cy); ok=np.isfinite(H).all((1,2)); H=np.where(ok[:,None,None],H,np.eye(3)); u,s,vt=np.linalg.svd(H)
        d=np.sign(np.linalg.det(u)*np.linalg.det(vt)); best=s[:,0]+s[:,1]+d*s[:,2]; got=np.einsum('nij,nji->n',M[:,:3,:3],H)
        c.holds(mk((best-got)/s[:,0]-1e-7),'<=','optimal rotation',slack=0)
        I=np.einsum('nij,nkj->nik',M[:,:3,:3],M[:,:3,:3]); c.eq([mk(I[:,i,j]) for i in range(3) for j in range(3)],flat([[c.const(int(i==j)) for j in range(3)] for i in range(3)]),'proper rotation',tol=1e-9); c.eq(mk(np.linalg.det(np.where(np.isfinite(M[:,:3,:3]),M[:,:3,:3],0))),c.const(1),'determinant +1',tol=1e-9)
        tt=cy[:,0]-np.einsum('nij,nj->ni',M[:,:3,:3],cx[:,0]); scl=1e-9*(np.abs(cx).max((1,2))+np.abs(cy).max((1,2))+1e-300)
        c.holds(mk(np.abs(M[:,:3,3]-tt).max(1)/scl-1),'<=','translation aligns the centroids',slack=0); c.eq(o[13:],[c.const(x) for x in(0,0,0,1)],'last row',tol=0)
        if kind not in('noisy','random','mirror'):
            e=np.abs(Y-np.einsum('nij,nkj->nki',M[:,:3,:3],X)-M[:,None,:3,3]).max((1,2)); c.holds(mk(e/(1e-6*(np.abs(X-cx).max((1,2))+1e-300)+1e-12*(np.abs(X).max((1,2))+np.abs(Y).max((1,2))))-1),'<=','noise-free data: points mapped onto each other',slack=0)
    return f
for _k in['gen3','gen10','planar','flat','col','col3','same','coloff','noisy','mirror','thin','needle','random']+list(SETS): contract('C22','arun on real data: '+_k,['mrob::PCRegistration::arun'],PC,D,nosym=True,numN=400,bounded='native samples')(c22n(_k))
# ------------------------------------------------------------- C23
def gn_terms(c,T,X,Y,L):
    """J and H of sum r^T L r over the left perturbation of T"""
    Rm,t=unhom(T); J=None;H=None
    for x,y,l in zip(X,Y,L):
        p=vadd(mv(Rm,x),t); r=vadd(y,p,-1); Jr=[hat(p)[i]+[-int(i==j) for j in range(3)] for i in range(3)]
        Jr=[[c.w.lift(v) for v in q] for q in Jr]; LJ=mm(l,Jr); g=mv(tr(LJ),r) if True else 0; h=mm(tr(Jr),LJ)
        g=[dot([q[k] for q in LJ],r) for k in range(6)]
        J=g if J is None else vadd(J,g); H=h if H is None else madd(H,h)
    return J,H
def inv3(M):
    a,b,d=M; cf=[[b[1]*d[2]-b[2]*d[1],a[2]*d[1]-a[1]*d[2],a[1]*b[2]-a[2]*b[1]],[b[2]*d[0]-b[0]*d[2],a[0]*d[2]-a[2]*d[0],a[2]*b[0]-a[0]*b[2]],[b[0]*d[1]-b[1]*d[0],a[1]*d[0]-a[0]*d[1],a[0]*b[1]-a[1]*b[0]]]
    det=a[0]*cf[0][0]+a[1]*cf[1][0]+a[2]*cf[2][0]; return [[x/det for x in r] for r in cf]
def spd(c,name):
    """any symmetric matrix; samples positive definite"""
    N=c.w.N; Z=c.ex.rng.randn(N,3,3)*.3; A=np.einsum('nij,nkj->nik',Z,Z)+.2*np.eye(3); ix=[(0,0),(0,1),(0,2),(1,1),(1,2),(2,2)]
    v=c.group(name,6,lambda:[A[:,i,j] for i,j in ix],lambda:[tuple(c.w.rng.randrange(1,P) for _ in range(c.w.NP)) for _ in range(6)],norm=False)
    return [[v[0],v[1],v[2]],[v[1],v[3],v[4]],[v[2],v[4],v[5]]]
def c23(kind,n,iters):
    def f(c):
        c.nodiv=True; c.w.opaque_sqrt=True; T=pose(c,'T'); X=[c.vec('x%d_'%i,3) for i in range(n)]; Y=[c.vec('y%d_'%i,3) for i in range(n)]; tol=c.real('tol',lo=F(1,10**9),special=(.05,.5,5,50,500,5000)); T0=T
        if kind=='w': w=[c.real('w%d'%i,lo=F(1,100)) for i in range(n)]; ex=w; L=lambda T:[[[w[i] if a==b else c.const(0) for b in range(3)] for a in range(3)] for i in range(n)]
        else:
            A=[spd(c,'A%d_'%i) for i in range(n)]; B=[spd(c,'B%d_'%i) for i in range(n)]; ex=flat(A)+flat(B)
            L=lambda T:[inv3(madd(B[i],mm(mm(unhom(T)[0],A[i]),tr(unhom(T)[0])))) for i in range(n)]
        k=0
        while True:
            J,H=gn_terms(c,T,X,Y,L(T)); I=INV6(c,H); d=[-dot(r,J) for r in I]; T=mm(EXP6(c,d),T); k+=1
            more=c.decide(c.sqrt(dot(d,d))-tol,'>') if k<iters else False
            if k==iters: c.assume(c.sqrt(dot(d,d))-tol,'<=')
            if not more: break
        o=c.call('drv_gicp' if kind=='g' else 'drv_wpoint',[n,tol]+flat(T0)+flat(X)+flat(Y)+ex,17)
        c.eq(o[0],k,'number of iterations until the step is below the tolerance',tol=0); c.eq(o[1:],flat(T),'T = exp(-H^-1 J) ... T0, all points contributing')
    return f
for _k,_nm,_fn in(('w','weighted_point','mrob::PCRegistration::weighted_point'),('g','gicp','mrob::PCRegistration::gicp')):
    for _n,_it in((3,1),(3,2),(5,1)): contract('C23','%s: %d points, up to %d iterations'%(_nm,_n,_it),[_fn],PC,D,assume=[E_inv6,A_SE3_exp],nonum=True,bounded='%d points, %d iterations, all values symbolic'%(_n,_it),npts=4,N=96,assumptions=['Eigen 6x6 inverse() assumed to be the matrix inverse'])(c23(_k,_n,_it))
def c23_all(kind,iters):
    def f(c):
        c.nodiv=True; c.w.opaque_sqrt=True; m=c.amachine(); N=m.isym('N',3,10**7); X=m.array('X',N*3); Y=m.array('Y',N*3); x=rows3(m,X,N); y=rows3(m,Y,N)
        T=pose(c,'T'); T0=T; tol=c.real('tol',lo=F(1,10**9))
        if kind=='w':
            W=m.array('W',N); ex=[W]; L=lambda Rm,k:(lambda w:[[w if a==b else c.const(0) for b in range(3)] for a in range(3)])(W.o.lazy.get(m,k))
        else:
            A=m.array('A',N*9); B=m.array('B',N*9); ex=[A,B]; g=lambda Z,k:[[Z.o.lazy.get(m,9*k+3*a+b) for b in range(3)] for a in range(3)]
            L=lambda Rm,k:inv3(madd(g(B,k),mm(mm(Rm,g(A,k)),tr(Rm))))
        k=0
        while True:
            Rm,t=unhom(T)
            def term(i):
                p=vadd(mv(Rm,x(i)),t); r=vadd(y(i),p,-1); Jr=[[c.w.lift(v) for v in hat(p)[a]+[-int(a==b) for b in range(3)]] for a in range(3)]; LJ=mm(L(Rm,i),Jr); h=mm(tr(Jr),LJ)
                return [dot([q[a] for q in LJ],r) for a in range(6)]+flat(h)
            s=m.sum(N,term); J=s[:6]; H=rows(s[6:],6,6); I=INV6(c,H); d=[-dot(r,J) for r in I]; T=mm(EXP6(c,d),T); k+=1
            if k==20: break
            c.assume(c.sqrt(dot(d,d))-tol,'<=' if k==iters else '>')
            if k==iters: break
        o=c.acall(m,'drv_abs_gicp' if kind=='g' else 'drv_abs_wpoint',[X,Y]+ex+[N,[tol]+flat(T0)],17)
        c.eq(o[0],k,'number of iterations until the step is below the tolerance, at most 20',tol=0); c.eq(o[1:],flat(T),'T = exp(-H^-1 J) ... T0, all points contributing')
    return f
for _k,_nm,_fn in(('w','weighted_point','mrob::PCRegistration::weighted_point'),('g','gicp','mrob::PCRegistration::gicp')):
    for _it in range(20,0,-1): contract('C23',_nm+', every number of points, '+('%d iterations'%_it if _it<20 else 'stopped after 20 iterations'),[_fn],PC,('abs.cpp','pc.cpp'),assume=[E_inv6,A_SE3_exp,E_gemm],nonum=True,npts=4,N=64,sized=('N',3,2000,lambda n,_k=_k:c23n(_k,n,'exact')) if _it in(1,2,20) else True,assumptions=['Eigen 6x6 inverse() assumed to be the matrix inverse',A_GEMM])(c23_all(_k,_it))
def _cond(H):
    s=np.sqrt(np.einsum('nii->ni',H)); H=H/(s[:,:,None]*s[:,None,:]); ok=np.isfinite(H).all((1,2)); return np.where(ok,np.linalg.cond(np.where(ok[:,None,None],H,np.eye(H.shape[1]))),np.inf)
def np_gn(kind,X,Y,W,A,B,T,tol):
    N=len(X); it=np.zeros(N,int); act=np.ones(N,bool); border=np.zeros(N,bool); T=T.copy(); norms=[]; Hs=[]
    for k in range(20):
        R=T[:,:3,:3]; t=T[:,:3,3]; p=np.einsum('nij,nkj->nki',R,X)+t[:,None]; r=Y-p
        Jr=np.zeros(X.shape[:2]+(3,6)); x,y,z=p[...,0],p[...,1],p[...,2]
        Jr[...,0,1]=-z;Jr[...,0,2]=y;Jr[...,1,0]=z;Jr[...,1,2]=-x;Jr[...,2,0]=-y;Jr[...,2,1]=x
        for i in range(3): Jr[...,i,3+i]=-1
        if kind=='w': L=W[...,None,None]*np.eye(3)
        else: L=np.linalg.inv(B+np.einsum('nij,nkjl,nml->nkim',R,A,R))
        J=np.einsum('nki,nkij,nkjl->nl',r,L,Jr); H=np.einsum('nkil,nkij,nkjm->nlm',Jr,L,Jr)
        d=-np.linalg.solve(H,J[:,:,None])[:,:,0]
        E,V=np_exp3(*d[:,:3].T); E=np.moveaxis(E,-1,0); tv=np.einsum('ijn,nj->ni',V,d[:,3:])
        Tn=T.copy(); Tn[:,:3,:3]=E@R; Tn[:,:3,3]=np.einsum('nij,nj->ni',E,t)+tv
        T[act]=Tn[act]; it[act]+=1; n=np.linalg.norm(d,axis=1); border|=act&(np.abs(n-tol)<1e-6*tol+1e-13)|act&(_cond(H)>1e7); act&=(n>tol)
    return T,it,border
def c23n(kind,n,mode):
    def f(c):
        r=c.ex.rng; N=c.w.N; X=r.randn(N,n,3)*10.**r.uniform(-.5,1,N)[:,None,None]
        q=r.randn(N,6)*(.3 if mode!='fix' else 1); E,V=np_exp3(*q[:,:3].T); T=np.zeros((N,4,4)); T[:,3,3]=1; T[:,:3,:3]=np.moveaxis(E,-1,0); T[:,:3,3]=q[:,3:]
        G=r.randn(N,6)*.5; E2,_=np_exp3(*G[:,:3].T); R2=np.moveaxis(E2,-1,0); Y=np.einsum('nij,nkj->nki',R2,X)+G[:,None,3:]
        if mode=='fix': Y=np.einsum('nij,nkj->nki',T[:,:3,:3],X)+T[:,None,:3,3]
        if mode=='noisy': Y=Y+.1*r.randn(N,n,3)
        if mode=='far': Y=r.randn(N,n,3)*3
        W=r.uniform(.1,3,(N,n)); 
        if mode=='zero': W=W*(r.rand(N,n)<.6); W[:,:3]+=.1
        Z=r.randn(N,n,3,3); A=Z@Z.transpose(0,1,3,2)*.1+.01*np.eye(3); Z=r.randn(N,n,3,3); B=Z@Z.transpose(0,1,3,2)*.1+.01*np.eye(3)
        if mode=='nocov': A=A*0
        if mode=='weights': W=W*10.**r.uniform(-10,8,N)[:,None]*10.**r.uniform(-1,1,(N,n)); cs=10.**r.uniform(-10,6,N)[:,None,None,None]; A=A*cs; B=B*cs
        if mode=='outliers': Y=Y+r.randn(N,n,3)*np.where(r.rand(N,n)<.3,10.**r.uniform(0,6,(N,n)),0)[...,None]
        if mode=='large': f=10.**r.uniform(1,5,N)[:,None,None]; X=X*f; Y=Y*f; T[:,:3,3]*=f[:,:,0]
        tol=10.**r.uniform(-8,-1,N) if mode!='tight' else np.zeros(N)+1e-30
        g=lambda nm,a:c.group(nm,a.reshape(N,-1).shape[1],lambda:[a.reshape(N,-1)[:,i] for i in range(a.reshape(N,-1).shape[1])],None,norm=False)
        xs,ys,ts,to=g('X',X),g('Y',Y),g('T',T),g('tol',tol); ex=g('W',W) if kind=='w' else g('A',A)+g('B',B)
        a=lambda l,s:np.stack([x.num for x in l],1).reshape(s)
        X,Y,T,tol=a(xs,X.shape),a(ys,Y.shape),a(ts,T.shape),a(to,(N,))
        with np.errstate(all='ignore'):
            try:
                Te,it,bd=np_gn(kind,X,Y,W,A,B,T,tol); T2=T.copy(); T2[:,:3,3]+=1e-11; Te2,it2,_=np_gn(kind,X,Y,W,A,B,T2,tol); bd=bd|(it!=it2)|~(np.abs(Te-Te2).max((1,2))<1e-8)   # chaotic starts: not comparable in floating point
            except np.linalg.LinAlgError: return
        c.path.mask=c.path.mask&~bd&np.isfinite(Te).all((1,2))
        if mode in('tight',): c.path.mask=c.path.mask
        o=c.call('drv_gicp' if kind=='g' else 'drv_wpoint',[n]+to+ts+xs+ys+ex,17); mk=lambda v:fresh_t(c.w,np.asarray(v,float))
        if mode=='tight': c.eq(o[0],c.const(20),'at most 20 iterations',tol=0) if False else c.holds(o[0]-20,'<=','at most 20 iterations',slack=0)
        else: c.eq(o[0],mk(it),'number of iterations',tol=0)
        c.eq(o[1:],[mk(Te[:,i//4,i%4]) for i in range(16)],'iterated Gauss-Newton',tol=1e-6)
        if mode=='fix': c.eq(o[1:],ts,'the exact transform of noise-free data is a fixed point',tol=1e-8)
    return f
for _k,_nm,_fn in(('w','weighted_point','mrob::PCRegistration::weighted_point'),('g','gicp','mrob::PCRegistration::gicp')):
    for _m,_n in(('exact',10),('noisy',4),('fix',6),('far',12),('tight',8),('zero',9),('nocov',7),('noisy',64),('weights',8),('outliers',9),('large',6)):
        if (_m=='zero' and _k=='g') or (_m=='nocov' and _k=='w'): continue
        contract('C23','%s on real data: %s, %d points'%(_nm,_m,_n),[_fn],PC,D,nosym=True,numN=200,bounded='native samples')(c23n(_k,_n,_m))
# ------------------------------------------------------------- C24
def c24(n):
    def f(c):
        X=[c.vec('x%d_'%i,3) for i in range(n)]; m=mean(X,n); Q=[vadd(x,m,-1) for x in X]; C=outer_sum(Q,Q)
        V,e=_eig(c,'EIG3',C); nv=[r[0] for r in V]; o=c.call('drv_estplane',[n]+flat(X),10)
        if c.mode=='num':
            c.path.mask=c.path.mask&(e[1].num-e[0].num>1e-3*e[2].num); nv=o[:3]; c.eq(dot(nv,nv),c.const(1),'unit normal',tol=1e-8); c.eq(mv(C,nv),[e[0]*x for x in nv],'normal is an eigenvector of the smallest eigenvalue',tol=1e-7)
        c.eq(o[:3],nv,'normal = unit eigenvector of the smallest eigenvalue of the scatter matrix'); c.eq(o[3],-dot(m,nv),'the plane passes through the centroid'); c.eq(o[4:7],nv,'estimate_normal is that normal',tol=0); c.eq(o[7:],m,'centroid = mean of all rows')
    return f
for _n in(3,4,5,8): contract('C24','estimate plane, normal, centroid: %d points'%_n,['mrob::estimate_plane','mrob::estimate_normal','mrob::estimate_centroid'],PC,D,assume=[E_eig],nonum=True,bounded='%d points, all coordinates symbolic'%_n,assumptions=['Eigen::SelfAdjointEigenSolver<Mat3>::computeDirect returns ascending eigenvalues and orthonormal eigenvectors (contract assumed)'])(c24(_n))
@contract('C24','estimate plane, normal, centroid: every number of points',['mrob::estimate_plane','mrob::estimate_normal','mrob::estimate_centroid'],PC,('abs.cpp','pc.cpp'),assume=[E_eig,E_gemm],nonum=True,npts=6,sized=('N',3,5000,lambda n:c24n('noisy',n)),assumptions=['Eigen::SelfAdjointEigenSolver<Mat3>::computeDirect returns ascending eigenvalues and orthonormal eigenvectors (contract assumed)',A_GEMM])
def c24_all(c):
    m=c.amachine(); N=m.isym('N',3,10**7); X=m.array('X',N*3); x=rows3(m,X,N); n=m.itof(N)
    S=m.sum(N,x); mu=[s/n for s in S]
    C=rows(m.sum(N,lambda k: (lambda q:[q[i]*q[j] for i in range(3) for j in range(3)])(vadd(x(k),mu,-1))),3,3)
    V,e=_eig(c,'EIG3',C); nv=[r[0] for r in V]; o=c.acall(m,'drv_abs_plane',[X,N],10)
    c.eq(o[:3],nv,'normal = unit eigenvector of the smallest eigenvalue of the scatter matrix'); c.eq(o[3],-dot(mu,nv),'the plane passes through the centroid'); c.eq(o[4:7],nv,'estimate_normal is that normal',tol=0); c.eq(o[7:],mu,'centroid = mean of all rows')
def c24n(kind,n):
    def f(c):
        r=c.ex.rng; N=c.w.N; B=r.randn(N,n,3); sc=10.**np.where(r.rand(N)<.6,r.uniform(-2,2,N),r.uniform(-9,8,N))[:,None,None]
        if kind in('plane','off'): B[:,:,2]=0
        if kind=='aspect': B[:,:,2]=0; B[:,:,0]*=20
        if kind=='noisy': B[:,:,2]*=10.**r.uniform(-3,-.5,N)[:,None]
        nv=r.randn(N,3); sp=np.array([[0,0,1],[1,0,0],[0,1,0],[1,1,0],[0,-1,0],[0,0,-1]],float); nv=np.where((r.rand(N)<.3)[:,None],sp[r.randint(0,6,N)],nv); nv/=np.linalg.norm(nv,axis=1)[:,None]
        h=r.randn(N,3); a=np.cross(nv,h); a/=np.linalg.norm(a,axis=1)[:,None]; b=np.cross(nv,a); X=(B[:,:,:1]*a[:,None]+B[:,:,1:2]*b[:,None]+B[:,:,2:]*nv[:,None])*sc
        if kind!='plane': X=X+r.randn(N,1,3)*sc*5
        xs=c.group('X',3*n,lambda:[X.reshape(N,-1)[:,i] for i in range(3*n)],None,norm=False); X=np.stack([x.num for x in xs],1).reshape(N,n,3)
        o=c.call('drv_estplane',[n]+xs,10); O=np.stack([x.num for x in o],1); mk=lambda v:fresh_t(c.w,np.asarray(v,float))
        m=X.mean(1); Q=X-m[:,None]; C=np.einsum('nki,nkj->nij',Q,Q); ok=np.isfinite(C).all((1,2)); C=np.where(ok[:,None,None],C,np.eye(3)); w,V=np.linalg.eigh(C); c.path.mask=c.path.mask&(w[:,1]-w[:,0]>1e-3*w[:,2])&ok
        c.eq(mk((O[:,:3]**2).sum(1)),c.const(1),'unit normal',tol=1e-8); v=O[:,:3]; res=np.einsum('ni,nij,nj->n',v,C,v)
        c.holds(mk((res-w[:,0])/w[:,2]-1e-9),'<=','normal minimises the sum of squared distances',slack=0)
        c.holds(mk(np.abs(np.einsum('ni,ni->n',v,m)+O[:,3])/(1e-9*(np.abs(X).max((1,2))+1e-300))-1),'<=','plane through the centroid',slack=0); c.eq(o[4:7],o[:3],'estimate_normal',tol=1e-12); c.holds(mk(np.abs(O[:,7:]-m).max(1)/(1e-10*(np.abs(X).max((1,2))+1e-300))-1),'<=','centroid',slack=0)
        if kind in('plane','off','aspect'): c.holds(mk(np.abs(np.einsum('nki,ni->nk',X,v)+O[:,3:4]).max(1)/(1e-6*np.abs(Q).max((1,2))+1e-12*np.abs(X).max((1,2)))-1),'<=','points on a plane: recovered exactly',slack=0)
    return f
for _k,_n in(('plane',3),('plane',10),('off',5),('off',100),('aspect',12),('noisy',8),('noisy',50)): contract('C24','estimation on real data: %s, %d points'%(_k,_n),['mrob::estimate_plane'],PC,D,nosym=True,numN=300,bounded='native samples')(c24n(_k,_n))
# very many points: the rows from 65536 on are of another kind, so that losing or repeating any block of rows shows
def _gen(i,j,s):
    M=np.uint64(0xffffffff); h=((i.astype(np.uint64)*np.uint64(3)+j.astype(np.uint64))*np.uint64(7919)+np.uint64(s*104729+1))*np.uint64(2654435761)&M
    h^=h>>np.uint64(15); h=h*np.uint64(2246822519)&M; h^=h>>np.uint64(13); h=h*np.uint64(3266489917)&M; h^=h>>np.uint64(16); return h/4294967296.-.5
def bigX(n,s):
    i,j=np.meshgrid(np.arange(n),np.arange(3),indexing='ij'); g=_gen(i,j,s); return np.where(i<65536,g,g*8+np.where(j==1,4,1))
def bigY(X,s):
    n=len(X); i,j=np.meshgrid(np.arange(n),np.arange(3),indexing='ij'); g=_gen(i,j,s+1); return X[:,[1,2,0]]+g*np.where(i<65536,.1,6)+np.where(i<65536,0,j)
def bigC(n,s):
    i,j=np.meshgrid(np.arange(n),np.arange(3),indexing='ij'); v=_gen(i,j,s); return v[:,:,None]*v[:,None,:]+.05*np.eye(3)
def big(fn,n):
    def f(c):
        N=c.w.N; r=c.ex.rng; sd=c.group('seed',1,lambda:[np.floor(r.uniform(0,1000,N))],None,norm=False); mk=lambda v:fresh_t(c.w,np.asarray(v,float)); a=[]; S=sd[0].num
        if fn in('wpoint','gicp'):
            e,_=np_exp3(*(r.randn(3,N)*.1)); T=np.zeros((N,4,4)); T[:,3,3]=1; T[:,:3,:3]=np.moveaxis(e,-1,0)@np.array([[0,1,0],[0,0,1],[1,0,0.]]); T[:,:3,3]=r.randn(N,3)*.3; T=T.reshape(N,16); tol=10.**r.uniform(-8,-3,N)
            a=c.group('tol',1,lambda:[tol],None,norm=False)+c.group('T',16,lambda:[T[:,i] for i in range(16)],None,norm=False)
        o=c.call('drv_big_'+fn,[n]+sd+a,17 if fn!='estplane' else 10); R=[]; ok=np.ones(N,bool)
        for k in range(N):
            s=int(S[k]); X=bigX(n,s); Y=bigY(X,s)
            if fn=='estplane':
                X[:,2]*=.05; m=X.mean(0); q=X-m; w,V=np.linalg.eigh(q.T@q); v=V[:,0]; v=v*(np.sign(v@np.array([o[i].num[k] for i in range(3)])) or 1); R.append(list(v)+[-v@m]+list(v)+list(m))
            elif fn=='arun':
                cx,cy=X.mean(0),Y.mean(0); u,_,vt=np.linalg.svd((X-cx).T@(Y-cy)); Q=vt.T@np.diag([1,1,np.linalg.det(u)*np.linalg.det(vt)])@u.T; M=np.eye(4); M[:3,:3]=Q; M[:3,3]=cy-Q@cx; R.append([1]+list(M.ravel()))
            else:
                w=_gen(np.arange(n),np.zeros(n,int),s+5)+.6; T=np.stack([x.num[k] for x in a[1:]]).reshape(1,4,4)
                Te,it,bd=np_gn('w' if fn=='wpoint' else 'g',X[None],Y[None],w[None],bigC(n,s+7)[None] if fn=='gicp' else None,bigC(n,s+9)[None] if fn=='gicp' else None,T,np.array([a[0].num[k]])); ok[k]=not bd[0]; R.append([it[0]]+list(Te.ravel()))
        c.path.mask=c.path.mask&ok; R=np.array(R).T; c.eq(o,[mk(x) for x in R],'the result of all %d points'%n,tol=1e-6)
    return f
for _p,_fn,_f in(('C22','arun','mrob::PCRegistration::arun'),('C23','wpoint','mrob::PCRegistration::weighted_point'),('C23','gicp','mrob::PCRegistration::gicp'),('C24','estplane','mrob::estimate_plane')): contract(_p,_fn+', 70000 points',[_f],PC,D,nosym=True,numN=4 if _fn in('arun','estplane') else 2,bounded='native samples')(big(_fn,70000))
# ------------------------------------------------------------- C25
def LI(c,M): return [[c.w.lift(v) for v in r] for r in M]
def mm4(A,B): return mm(A,B)
GEN=[]
for _i in range(6):
    _x=[0]*6; _x[_i]=1; GEN.append(hat6(_x))
def qf(p,M): return dot(p,mv(M,p))
def c25(tl,pushes,poses=None):
    def f(c):
        Ts=[pose(c,'T%d_'%t) for t in range(tl)]; P_=[c.vec('p%d_'%i,3) for i in range(len(pushes))]; per=[[p for p,t in zip(P_,pushes) if t==k] for k in range(tl)]; S=[];Q=[]
        for k in range(tl):
            h=[[c.w.lift(v) for v in p]+[c.const(1)] for p in per[k]]; Z=c.const(0)
            S.append([[sum((v[i]*v[j] for v in h),Z) for j in range(4)] for i in range(4)]); Tk=[[c.w.lift(v) for v in r] for r in Ts[k]]; Q.append(mm(mm(Tk,S[k]),tr(Tk)))
        A=Q[0]
        for q in Q[1:]: A=madd(A,q)
        V,e=_eig(c,'EIG4',A); pi=[r[0] for r in V]
        inp=[tl]+flat(Ts)+[len(pushes)]
        for p,t in zip(P_,pushes): inp+=[t]+p
        o=c.call('drv_plane',inp,1+4+1+1+16+tl*(1+16+16+6+36)+3*sum(map(len,per)))
        if c.mode=='sym':
            c.eq(o[0],e[0],'error = smallest eigenvalue of the sum of transformed moments'); c.eq(o[1:5],pi,'plane = its unit eigenvector')
        else:
            pi=o[1:5]; c.eq(o[0],e[0],'error = smallest eigenvalue',tol=1e-8); c.eq(mv(A,pi),[o[0]*x for x in pi],'plane is an eigenvector',tol=1e-8); c.eq(dot(pi,pi),c.const(1),'unit',tol=1e-9)
        c.eq(o[5],o[0],'get_error',tol=0); c.eq(o[6],sum(map(len,per)),'number of points kept',tol=0); c.eq(o[7:23],flat(A),'accumulated moments'); i=23
        for k in range(tl):
            c.eq(o[i],len(per[k]),'points at time %d'%k,tol=0); c.eq(o[i+1:i+17],flat(S[k]),'S_%d = sum p p^T'%k); c.eq(o[i+17:i+33],flat(Q[k]),'Q_%d = T S T^T'%k); i+=33
            dQ=[madd(mm(G,Q[k]),tr(mm(G,Q[k]))) for G in GEN]
            c.eq(o[i:i+6],[qf(pi,d) for d in dQ],'gradient = pi^T dQ pi',tol=1e-8); i+=6
            for a in range(6):
                for b in range(a,6):
                    Bm=mscale(F(1,2),madd(mm(GEN[a],GEN[b]),mm(GEN[b],GEN[a]))); D_=madd(mm(Bm,Q[k]),mm(mm(GEN[a],Q[k]),tr(GEN[b])))
                    c.eq(o[i+6*a+b],qf(pi,madd(D_,tr(D_))),'Hessian[%d][%d] = pi^T ddQ pi'%(a,b),tol=1e-8)
            i+=36
        for k in range(tl):
            for p in per[k]: c.eq(o[i:i+3],p,'stored point',tol=0); i+=3
    return f
PLF=['mrob::Plane::'+x for x in('push_back_point','get_points','estimate_plane','calculate_all_matrices_S','calculate_all_matrices_Q','calculate_gradient','calculate_hessian')]
for _i,(_t,_p) in enumerate([(1,[0,0,0]),(2,[0,1,0,1,1]),(3,[0,2,2,1,0]),(3,[2,0,2,0]),(2,[1,1,5,0,2,1])]): contract('C25','eigen-factor plane, %d times, pushes %s'%(_t,_p),PLF,PC,D,assume=[E_eig],numN=100,N=96,npts=6,bounded='%d times, pushes %s, all values symbolic'%(_t,_p),assumptions=['Eigen::SelfAdjointEigenSolver<Mat4> returns ascending eigenvalues and orthonormal eigenvectors (contract assumed)'])(c25(_t,_p))
@contract('C25','eigen-factor plane, every number of points',PLF,PC,('abs.cpp','pc.cpp'),assume=[E_eig],nonum=True,npts=6,sized=('N0',0,3000,lambda n:c25(2,[0]*n+[1,0,1])),assumptions=['Eigen::SelfAdjointEigenSolver<Mat4> returns ascending eigenvalues and orthonormal eigenvectors (contract assumed)'])
def c25_all(c):
    m=c.amachine(); N=[m.isym('N0',1,10**6),m.isym('N1',1,10**6)]; X=[m.array('P0',N[0]*3),m.array('P1',N[1]*3)]; Ts=[pose(c,'T%d_'%t) for t in range(2)]; x=c.vec('x',3)
    S=[];Q=[]
    for k in range(2):
        g=rows3(m,X[k],N[k])
        S.append(rows(m.sum(N[k],lambda i:(lambda h:[h[a]*h[b] for a in range(4) for b in range(4)])(g(i)+[c.const(1)])),4,4)); Tk=LI(c,Ts[k]); Q.append(mm(mm(Tk,S[k]),tr(Tk)))
    A=madd(Q[0],Q[1]); V,e=_eig(c,'EIG4',A); pi=[r[0] for r in V]
    for i in m.any_index('i',N[0]+1):
        for j in m.any_index('j',N[1]):
            o=c.acall(m,'drv_abs_planeS',[X[0],N[0],X[1],N[1],i,j,flat(Ts)+x],1+4+16+2*(16+16+6+36)+9+2)
            c.eq(o[0],e[0],'error = smallest eigenvalue of the sum of transformed moments'); c.eq(o[1:5],pi,'plane = its unit eigenvector'); c.eq(o[5:21],flat(A),'accumulated moments'); q=21
            for k in range(2):
                c.eq(o[q:q+16],flat(S[k]),'S_%d = sum p p^T over all points'%k); c.eq(o[q+16:q+32],flat(Q[k]),'Q_%d = T S T^T'%k); q+=32
                dQ=[madd(mm(G,Q[k]),tr(mm(G,Q[k]))) for G in GEN]; c.eq(o[q:q+6],[qf(pi,d) for d in dQ],'gradient = pi^T dQ pi'); q+=6
                for a in range(6):
                    for b in range(a,6):
                        Bm=mscale(F(1,2),madd(mm(GEN[a],GEN[b]),mm(GEN[b],GEN[a]))); D_=madd(mm(Bm,Q[k]),mm(mm(GEN[a],Q[k]),tr(GEN[b])))
                        c.eq(o[q+6*a+b],qf(pi,madd(D_,tr(D_))),'Hessian[%d][%d] = pi^T ddQ pi'%(a,b))
                q+=36
            last=not m.idecide(IC('i>=',N[0]-1-i))
            c.eq(o[q:q+3],x if last else rows3(m,X[0],N[0])(i),'point i at time 0 after a push: kept, the new one last',tol=0); c.eq(o[q+3:q+6],rows3(m,X[1],N[1])(j),'the other time is untouched',tol=0)
            c.eq(o[q+6:q+9],x,'pushed point is the last one',tol=0); c.eq(o[q+9],m.itof(N[0]+1),'one point more at time 0',tol=0); c.eq(o[q+10],m.itof(N[1]),'number of points at time 1',tol=0)
@contract('C25','clear_points empties every time index',['mrob::Plane::clear_points','mrob::Plane::push_back_point'],PC,D,numN=50)
def c25c(c):
    v=c.vec('p',9); o=c.call('drv_plane_clear',v,7); c.eq(o[:4],[0,0,1,1],'counts',tol=0); c.eq(o[4:],v[6:],'point pushed after clearing',tol=0)
@contract('C25','error after a pose change',['mrob::Plane::get_error_incremental','mrob::Plane::estimate_plane'],PC,D,assume=[E_eig],numN=100,N=96,npts=6,bounded='two times, four points')
def c25i(c):
    Ts=[pose(c,'T%d_'%t) for t in range(3)]; P_=[c.vec('p%d_'%i,3) for i in range(4)]; L=lambda M:[[c.w.lift(v) for v in r] for r in M]
    def err(ts):
        A=None
        for k,T in enumerate(ts):
            h=[[c.w.lift(v) for v in p]+[c.const(1)] for p in P_[2*k:2*k+2]]; S=[[h[0][i]*h[0][j]+h[1][i]*h[1][j] for j in range(4)] for i in range(4)]; q=mm(mm(L(T),S),tr(L(T))); A=q if A is None else madd(A,q)
        return _eig(c,'EIG4',A)[1][0]
    a,b=err([Ts[0],Ts[1]]),err([Ts[0],Ts[2]]); o=c.call('drv_plane_incr',flat(Ts)+flat(P_),4); c.eq(o,[b,a,b,b],'errors before / after the pose change',tol=1e-8)
def moments(c,pts,tl):
    S=[]; Z=c.const(0)
    for k in range(tl):
        h=[[c.w.lift(v) for v in p]+[c.const(1)] for p,t in pts if t==k]; S.append([[sum((v[i]*v[j] for v in h),Z) for j in range(4)] for i in range(4)])
    return S
def accum(c,Ts,S):
    A=None
    for T,s in zip(Ts,S): T=[[c.w.lift(v) for v in r] for r in T]; q=mm(mm(T,s),tr(T)); A=q if A is None else madd(A,q)
    return A
def c25life(tl,b1,b2,b3,b4):
    def f(c):
        Ts=[pose(c,'T%d_'%t) for t in range(tl)]; Ns=[pose(c,'N%d_'%t) for t in range(tl)]; B=[[(c.vec('p%d_%d_'%(j,i),3),t) for i,t in enumerate(b)] for j,b in enumerate((b1,b2,b3,b4))]
        low=lambda A:_eig(c,'EIG4',A)[1][0]; enc=lambda b:[len(b)]+sum(([t]+p for p,t in b),[])
        o=c.call('drv_plane_life',[tl]+flat(Ts)+flat(Ns)+sum((enc(b) for b in B),[]),1+tl+1+16+tl+16+1+32*tl+3*tl+4+1+16*tl+1+tl+16*tl+2); i=0
        S=moments(c,B[0],tl); A=accum(c,Ts,S); e=low(A); c.eq(o[0],e,'error',tol=1e-8)
        for t in range(tl): c.eq(o[1+t],low(accum(c,Ts[:t]+[Ns[t]]+Ts[t+1:],S)),'error if pose %d changed'%t,tol=1e-8)
        c.eq(o[1+tl],o[0],'error unchanged by asking',tol=0); c.eq(o[2+tl:18+tl],flat(A),'moments unchanged by asking'); i=18+tl
        for t in range(tl): c.eq(o[i+t],low(accum(c,Ns[:t+1]+Ts[t+1:],S)),'error after pose %d has changed'%t,tol=1e-8)
        i+=tl; c.eq(o[i:i+16],flat(accum(c,Ns,S)),'moments after all poses have changed'); i+=16
        S=moments(c,B[0]+B[1],tl); c.eq(o[i],low(accum(c,Ns,S)),'error with the further points',tol=1e-8); i+=1
        for r in range(2):
            for t in range(tl): c.eq(o[i:i+16],flat(S[t]),'moments at time %d with the further points'%t); i+=16
        for t in range(tl):
            n=sum(u==t for _,u in B[0]+B[1])
            if n: c.eq(o[i:i+3],[sum(c.w.lift(p[k]) for p,u in B[0]+B[1] if u==t)*F(1,n) for k in range(3)],'mean at time %d'%t)
            i+=3
        c.eq(o[i:i+4],[0]*4,'no plane after a reset',tol=0); i+=4; S=moments(c,B[0]+B[1]+B[2],tl); c.eq(o[i],low(accum(c,Ns,S)),'error after a reset and further points',tol=1e-8); i+=1
        for t in range(tl): c.eq(o[i:i+16],flat(S[t]),'moments at time %d after a reset'%t); i+=16
        c.eq(o[i:i+1+tl],[0]*(1+tl),'no points after clearing',tol=0); i+=1+tl; c.eq(o[i:i+16*tl],[0]*(16*tl),'no moments after clearing',tol=0); i+=16*tl
        c.eq(o[i],low(accum(c,Ns,moments(c,B[3],tl))),'error of the points pushed after clearing',tol=1e-8); c.eq(o[i+1],sum(t<tl for t in b4),'number of points pushed after clearing',tol=0)
    return f
PLL=['mrob::Plane::'+x for x in('estimate_plane','estimate_plane_incrementally','get_error_incremental','calculate_all_matrices_S','get_mean_point','reset','clear_points')]
for _t,_b in ((2,([0,0,1],[1,0],[1],[0,1])),(3,([0,1,2,0],[2,1],[0,0],[2]))): contract('C25','a life of a plane, %d times'%_t,PLL,PC,D,assume=[E_eig],numN=100,N=64,npts=4,bounded='%d times, fixed numbers of points'%_t,assumptions=['Eigen::SelfAdjointEigenSolver<Mat4> returns ascending eigenvalues and orthonormal eigenvectors (contract assumed)'])(c25life(_t,*_b))
for _t in (6,17,40): contract('C25','a life of a plane, %d times'%_t,PLL,PC,D,nosym=True,numN=20,N=20,bounded='native, %d times'%_t)(c25life(_t,*[[(7*i*i+3*i+j)%_t for i in range(_n)] for j,_n in enumerate((5*_t,2*_t,_t,2*_t))]))
for _t in (6,17,40): contract('C25','eigen-factor plane, %d times'%_t,PLF,PC,D,nosym=True,numN=20,N=20,bounded='native, %d times'%_t)(c25(_t,[(7*i*i+3*i)%_t for i in range(4*_t)]))
def c25reg(n,planes):
    def f(c):
        L=[pose(c,'L%d_'%i) for i in range(2)]; P=[[(c.vec('p%d_%d_'%(k,i),3),t) for i,t in enumerate(b)] for k,b in enumerate(planes)]; I=LI(c,eye(4)); inp=[n,len(planes)]+flat(L)
        for b in P: inp+=[len(b)]+sum(([t]+p for p,t in b),[])
        o=c.call('drv_pgrad',inp,2*44)
        for r in range(2):
            if c.mode=='num': c.path.mask=c.path.mask&(LN3(c,unhom(LI(c,L[r]))[0])[1].num<math.pi-1e-3)
            xi=LN6(c,LI(c,L[r])); T=[I]+[EXP6(c,[x*F(t,n-1) for x in xi]) for t in range(1,n)]; g=[c.const(0)]*6; H=[[c.const(0)]*6 for _ in range(6)]; e=c.const(0)
            for b in P:
                S=moments(c,b,n); Q=[mm(mm(t,s),tr(t)) for t,s in zip(T,S)]; A=accum(c,T,S); V,ev=_eig(c,'EIG4',A); pi=[x[0] for x in V]; e=e+ev[0]
                if c.mode=='num': c.path.mask=c.path.mask&((ev[1]-ev[0]).num>1e-2*ev[3].num)
                for t in range(1,n):
                    w=F(t,n-1); g=[x+w*qf(pi,madd(mm(G,Q[t]),tr(mm(G,Q[t])))) for x,G in zip(g,GEN)]
                    for a in range(6):
                        for b_ in range(a,6):
                            Bm=mscale(F(1,2),madd(mm(GEN[a],GEN[b_]),mm(GEN[b_],GEN[a]))); D_=madd(mm(Bm,Q[t]),mm(mm(GEN[a],Q[t]),tr(GEN[b_]))); v=w*qf(pi,madd(D_,tr(D_))); H[a][b_]=H[a][b_]+v
                            if b_>a: H[b_][a]=H[b_][a]+v
            q=o[44*r:44*r+44]; c.eq(q[:6],g,'gradient of the registration = sum of t/(n-1) times the gradients of all planes and times',tol=1e-6); c.eq(q[6:42],flat(H),'Hessian of the registration, symmetric',tol=1e-6); c.eq(q[42],e,'error of the registration = sum over the planes',tol=1e-7); c.eq(q[43],sum(t<n for b in planes for t in b),'number of points',tol=0)
    return f
PRF=['mrob::PlaneRegistration::'+x for x in('calculate_error','calculate_gradient_hessian','calculate_total_number_points','add_new_plane','plane_push_back_point')]
PR0=[[0,1,2,0,1,2,1],[2,2,1,0,0,1]]
contract('C25','objective of the registration, 3 poses, 2 planes',PRF,PC,D,assume=[E_eig,A_SE3_exp,A_SE3_ln],numN=100,N=48,npts=4,bounded='3 poses, 2 planes, 13 points, all values symbolic',assumptions=['Eigen::SelfAdjointEigenSolver<Mat4> returns ascending eigenvalues and orthonormal eigenvectors (contract assumed)'])(c25reg(3,PR0))
for _t in (2,5,12,30): contract('C25','objective of the registration, %d poses'%_t,PRF,PC,D,nosym=True,numN=20,N=20,bounded='native, %d poses'%_t)(c25reg(_t,[[(7*i*i+3*i+j)%_t for i in range(3*_t+5)] for j in range(3 if _t<20 else 9)]))
# ------------------------------------------------------------- C26
def c26(n):
    def f(c):
        L=pose(c,'L'); d=c.vec('d',6,.5); I=LI(c,eye(4)); lift=lambda v:[c.w.lift(x) for x in v]
        def traj(last):
            xi=LN6(c,last); return [I if t==0 else last if t==n-1 else EXP6(c,[x*F(t,n-1) for x in xi]) for t in range(n)]+[last if n>1 else I]
        L1=mm(EXP6(c,d),LI(c,L)); k=16*(n+1)
        if c.mode=='num':
            # away from half turns, where the logarithm jumps
            for M in (LI(c,L),L1): c.path.mask=c.path.mask&(LN3(c,unhom(M)[0])[1].num<math.pi-1e-3)
        a=traj(LI(c,L)); b=traj(L1); o=c.call('drv_traj',[n]+flat(L)+d,4*k)
        c.eq(o[:k],flat(a),'set_last_pose: pose t = exp(t/(n-1) ln T_last), first pose identity, last pose as set',tol=1e-7); c.eq(o[k:2*k],flat(b),'update_state: last pose updated on the left, trajectory re-interpolated',tol=1e-7)
        c.eq(o[2*k:3*k],flat(a),'undo restores the trajectory',tol=1e-7); c.eq(o[3*k-16:3*k],o[k-16:k],'undo restores the last pose exactly',tol=0); c.eq(o[3*k:],flat([I]*(n+1)),'reset: identity',tol=0)
    return f
TF=['mrob::PlaneRegistration::'+x for x in('set_last_pose','update_state','bookkeep_state','update_state_from_bookkeep','get_trajectory','reset_solution')]
for _n in(2,3,4,6): contract('C26','trajectory of %d poses'%_n,TF,PC,D,assume=[A_SE3_exp,A_SE3_ln],numN=200,N=128,npts=6,bounded='%d poses, all values symbolic'%_n)(c26(_n))
for _n in(1,9,25): contract('C26','trajectory of %d poses'%_n,TF,PC,D,nosym=True,numN=100,bounded='native, %d poses'%_n)(c26(_n) if _n>1 else (lambda c:c.eq(c.call('drv_traj',[1]+flat(pose(c,'L'))+c.vec('d',6,.5),128)[:16],flat(LI(c,eye(4))),'single pose stays at identity',tol=0)))
def c26r(n):
    def f(c):
        c.w.opaque_sqrt=True; A=[pose(c,'A%d_'%i) for i in range(n)]; B=[pose(c,'B%d_'%i) for i in range(n)]; s=c.const(0)
        for a,b in zip(A,B):
            M=mm(LI(c,a),LI(c,minv(b))); xi=LN6(c,M); s=s+dot(xi,xi)
            if c.mode=='num': c.path.mask=c.path.mask&(LN3(c,unhom(M)[0])[1].num<math.pi-1e-3)
        o=c.call('drv_rmse',[n]+flat(A)+flat(B),1); c.eq(o[0],c.sqrt(s*F(1,n)),'rmse = sqrt(1/n sum |ln(T G^-1)|^2)',tol=1e-6)
    return f
for _n in range(1,9): contract('C26','rmse of %d poses'%_n,['mrob::PlaneRegistration::calculate_poses_rmse'],PC,D,assume=[A_SE3_ln],numN=200,N=128,npts=6,bounded='%d poses, all values symbolic'%_n)(c26r(_n))

def c26s(n):
    def f(c):
        r=c.ex.rng; N=c.w.N; sc=10.**r.uniform(-14,9,N); V=r.randn(N,2*n,3)*sc[:,None,None]; v=c.group('t',6*n,lambda:[V.reshape(N,-1)[:,i] for i in range(6*n)],None,norm=False); h=lambda k:[[c.const(float(i==j)) if j<3 else c.const(1.) if i==3 else v[3*k+i] for j in range(4)] for i in range(4)]
        o=c.call('drv_rmse',[n]+sum((flat(h(k)) for k in range(2*n)),[]),1); s=c.const(0)
        for k in range(n):
            for i in range(3): e=v[3*k+i]-v[3*(n+k)+i]; s=s+e*e
        c.eq(o[0],c.sqrt(s*F(1,n)),'rmse of translations, every scale',tol=1e-7,scale=np.maximum(c.sqrt(s*F(1,n)).num,1e-300))
    return f
for _n in (1,3,50): contract('C26','rmse of translations at every scale, %d poses'%_n,['mrob::PlaneRegistration::calculate_poses_rmse'],PC,D,nosym=True,numN=100,bounded='native, %d poses'%_n)(c26s(_n))
@contract('C26','trajectory, every number of poses',TF,PC,('abs.cpp','pc.cpp'),assume=[A_SE3_exp,A_SE3_ln],nonum=True,npts=6,sized=('N',9,200,lambda n:c26(n)))
def c26_all(c):
    m=c.amachine(); N=m.isym('N',9,10**6); L=LI(c,pose(c,'L')); d=c.vec('d',6,.5); I=LI(c,eye(4)); n1=m.itof(N-1); L1=mm(EXP6(c,d),L)
    for i in m.any_index('i',N):
        def at(last):
            xi=LN6(c,last)
            if not m.idecide(IC('i>=',i-1)): return I
            if not m.idecide(IC('i>=',N-2-i)): return last
            return EXP6(c,[x*m.itof(i)/n1 for x in xi])
        o=c.acall(m,'drv_abs_traj',[N,i,flat(L)+d],16*8); g=lambda k:o[16*k:16*k+16]
        a,b=flat(at(L)),flat(at(L1))
        c.eq(g(0),a,'set_last_pose: pose t = exp(t/(n-1) ln T_last), first pose identity, last pose as set'); c.eq(g(1),flat(L),'last pose as set')
        c.eq(g(2),b,'update_state: last pose updated on the left, trajectory re-interpolated'); c.eq(g(3),flat(L1),'last pose updated')
        c.eq(g(4),a,'undo restores the trajectory'); c.eq(g(5),flat(L),'undo restores the last pose exactly',tol=0)
        c.eq(g(6)+g(7),flat(I)*2,'reset: identity',tol=0)

@contract('C26','rmse, every number of poses',['mrob::PlaneRegistration::calculate_poses_rmse'],PC,('abs.cpp','pc.cpp'),assume=[A_SE3_ln],nonum=True,npts=6,sized=('N',9,300,lambda n:c26r(n)))
def c26r_all(c):
    c.w.opaque_sqrt=True; m=c.amachine(); N=m.isym('N',9,10**6); A=m.poses('A',N); B=m.poses('B',N); g=lambda Z,k:[[Z.o.lazy.get(m,16*k+4*i+j) for j in range(4)] for i in range(4)]
    def term(k):
        b=g(B,k); xi=LN6(c,mm(g(A,k),minv(b))); return dot(xi,xi)
    o=c.acall(m,'drv_abs_rmse',[A,B,N],1); c.eq(o[0],c.sqrt(m.sum(N,term)/m.itof(N)),'rmse = sqrt(1/n sum |ln(T G^-1)|^2)')
