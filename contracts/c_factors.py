from lib import *
FACT=NODES_F=GEOM+['src/FGraph/node.cpp','src/FGraph/factor.cpp']+['src/FGraph/factors/node%s.cpp'%x for x in('Pose2d','Pose3d','Landmark2d','Landmark3d','Plane4d')]+['src/FGraph/factors/factor%s.cpp'%x for x in('1Pose2d','1Pose3d','2Poses2d','2Poses3d','1Pose1Landmark2d','1Pose1Landmark3d','1Pose1Plane4d')]+['src/PCRegistration/factors/factor1PosePoint2Plane.cpp']
D=('factors.cpp',); AS=[A_SE3_exp,A_SE3_ln,A_wrap]
# ---- dual numbers: derivative of the specified residual, by forward differentiation of the specification -------
class Du:
    __slots__=('v','d')
    def __init__(self,v,d): self.v=v; self.d=d
    def __add__(a,b): return Du(a.v+b.v,[x+y for x,y in zip(a.d,b.d)]) if isinstance(b,Du) else Du(a.v+b,a.d)
    __radd__=__add__
    def __neg__(a): return Du(-a.v,[-x for x in a.d])
    def __sub__(a,b): return a+(-b)
    def __rsub__(a,b): return (-a)+b
    def __mul__(a,b): return Du(a.v*b.v,[x*b.v+a.v*y for x,y in zip(a.d,b.d)]) if isinstance(b,Du) else Du(a.v*b,[x*b for x in a.d])
    __rmul__=__mul__
def val(x): return x.v if isinstance(x,Du) else x
class Op:
    def __init__(self,c): self.c=c
    def cos(self,x): return Du(self.c.cos(x.v),[-self.c.sin(x.v)*d for d in x.d]) if isinstance(x,Du) else self.c.cos(x)
    def sin(self,x): return Du(self.c.sin(x.v),[self.c.cos(x.v)*d for d in x.d]) if isinstance(x,Du) else self.c.sin(x)
    def sqrt(self,x):
        if not isinstance(x,Du): return self.c.sqrt(x)
        r=self.c.sqrt(x.v); return Du(r,[d/(2*r) for d in x.d])
    def atan2(self,y,x):
        if not isinstance(x,Du): return self.c.w.atan2(y,x) if self.c.mode=='sym' else self.c.w._mk('at2',(y,x),(),np.arctan2(y.num,x.num))
        q=x.v*x.v+y.v*y.v; return Du(Op(self.c).atan2(y.v,x.v),[(x.v*b-y.v*a)/q for a,b in zip(x.d,y.d)])
def ez(c,n,k): return [c.const(int(i==k)) for i in range(n)]
def dvec(c,x,n,o): return [Du(c.w.lift(v),ez(c,n,o+i)) for i,v in enumerate(x)]
def dpose(c,X,n,o):
    """left perturbation (I + hat(e)) X"""
    Z=[[Du(c.w.lift(X[i][j]),[c.const(0)]*n) for j in range(4)] for i in range(4)]
    for k in range(6):
        G=mm(hat6([int(i==k) for i in range(6)]),X)
        for i in range(4):
            for j in range(4):
                g=G[i][j]
                if not(isinstance(g,int) and g==0): Z[i][j].d[o+k]=Z[i][j].d[o+k]+g
    return Z
# ---- measurement models (documented): nodes in the factor's argument order -> residual before wrapping, angular rows -------
def h_prior2(c,op,X,z): return [a-b for a,b in zip(X[0],z)],[2]
def h_rel2(c,op,X,z):
    o,t=X; cs,sn=op.cos(o[2]),op.sin(o[2]); dx,dy=t[0]-o[0],t[1]-o[1]
    return [cs*dx+sn*dy-z[0],cs*dy-sn*dx-z[1],t[2]-o[2]-z[2]],[2]
def h_odom(c,op,X,z):
    o,t=X; a=o[2]+z[0]
    return [o[0]+op.cos(a)*z[1]-t[0],o[1]+op.sin(a)*z[1]-t[1],a+z[2]-t[2]],[2]
def h_land2(c,op,X,z):
    p,l=X; dx,dy=l[0]-p[0],l[1]-p[1]
    return [op.sqrt(dx*dx+dy*dy)-z[0],op.atan2(dy,dx)-p[2]-z[1]],[1]
def h_land3(c,op,X,z):
    T,l=X; R,t=unhom(T); return [a-b for a,b in zip(mv(tr(R),[x-y for x,y in zip(l,t)]),z)],[]
def h_plane(c,op,X,z):
    T,p=X; q=mv(tr(T),p); s=1 if c.decide(val(q[3]),'<') else -1
    return [a+s*b for a,b in zip(q,z)],[]
def h_pt(c,op,X,z):
    R,t=unhom(X[0]); x,y,n=z[:3],z[3:6],z[6:]
    p=[a+b for a,b in zip(mv(R,x),t)]; return [dot([u-v for u,v in zip(p,y)],n)],[]
def p2(c,k):
    x=c.vec(k,2,2.0); return x+[c.angle(k+'h',-math.pi,math.pi-1e-9)]
def pl(c,k): return c.unit(k+'n')+[c.real(k+'d')]
K=dict(  # kind: driver, flags, node kinds, dims, observation, model, functions
 prior2=dict(drv='drv_f_pose2d',fl=[],nodes=['p2'],z=lambda c:c.vec('z',2,2.0)+[c.angle('zh',-7.,7.)],m=3,h=h_prior2,cls='Factor1Pose2d'),
 rel2=dict(drv='drv_f_2pose2d',fl=['rev','upd'],nodes=['p2','p2'],z=lambda c:c.vec('z',2,2.0)+[c.angle('zh',-7.,7.)],m=3,h=h_rel2,cls='Factor2Poses2d'),
 odom=dict(drv='drv_f_odom',fl=['rev','upd'],nodes=['p2','p2'],z=lambda c:[c.angle('za',-7.,7.),c.real('zt',2.0),c.angle('zb',-7.,7.)],m=3,h=h_odom,cls='Factor2Poses2dOdom',norev=True),
 land2=dict(drv='drv_f_land2d',fl=['rev','upd'],nodes=['p2','l2'],z=lambda c:[c.real('zr',2.0,lo=F(1,100)),c.angle('zb',-7.,7.)],m=2,h=h_land2,cls='Factor1Pose1Landmark2d'),
 land3=dict(drv='drv_f_land3d',fl=['rev','upd'],nodes=['p3','l3'],z=lambda c:c.vec('z',3,2.0),m=3,h=h_land3,cls='Factor1Pose1Landmark3d'),
 plane=dict(drv='drv_f_plane',fl=['rev'],nodes=['p3','pl'],z=lambda c:pl(c,'z'),m=4,h=h_plane,cls='Factor1Pose1Plane4d'),
 pt2pl=dict(drv='drv_f_pt2plane',fl=[],nodes=['p3'],z=lambda c:c.vec('x',3)+c.vec('y',3)+c.unit('m'),m=1,h=h_pt,cls='Factor1PosePoint2Plane'),
 prior3=dict(drv='drv_f_pose3d',fl=['se3'],nodes=['p3'],z=lambda c:pose(c,'z'),m=6,h=None,cls='Factor1Pose3d'),
 rel3=dict(drv='drv_f_2pose3d',fl=['rev','upd','se3'],nodes=['p3','p3'],z=lambda c:pose(c,'z'),m=6,h=None,cls='Factor2Poses3d'))
MK=dict(p2=(p2,3,3),p3=(lambda c,k:pose(c,k),16,6),l2=(lambda c,k:c.vec(k,2,2.0),2,2),l3=(lambda c,k:c.vec(k,3,2.0),3,3),pl=(pl,4,4))
def states(c,k): return [MK[n][0](c,'ab'[i]) for i,n in enumerate(K[k]['nodes'])]
def info(c,m): return c.symm('W',m)
class Out: pass
def run(c,k,X,z,W,rev=0,upd=0,se3=0):
    s=K[k]; fl=[dict(rev=rev,upd=upd,se3=se3)[x] for x in s['fl']]; m=s['m']; dims=[MK[n][2] for n in s['nodes']]; nd=sum(dims); ss=[MK[n][1] for n in s['nodes']]; nn=len(ss)
    o=c.call(s['drv'],fl+[y for x in X for y in flat(x)]+flat(z)+flat(W),sum(ss)+1+nn+2+1+m+2+m*nd+1+m*m)
    r=Out(); r.m=m; r.nd=nd; r.dims=dims[::-1] if rev else dims; i=0; r.X=[]
    for q in ss: r.X.append(o[i:i+q]); i+=q
    r.n=o[i]; r.ids=o[i+1:i+1+nn]; i+=1+nn; r.dim,r.all=o[i:i+2]; i+=2; r.rr=o[i]; r.r=o[i+1:i+1+m]; i+=1+m; r.jr,r.jc=o[i:i+2]; i+=2
    r.J=rows(o,m,nd,i); i+=m*nd; r.chi2=o[i]; r.W=o[i+1:i+1+m*m]; return r
def ang(c,o,e,label,tol=1e-9):
    """o = e wrapped into [-pi,pi)"""
    if c.mode=='num':
        c.eq([c.cos(o),c.sin(o)],[c.cos(e),c.sin(e)],label,tol=tol); c.holds(o+c.pi,'>=',label+' in [-pi,pi)',slack=1e-9); c.holds(o-c.pi,'<',label+' in [-pi,pi)',slack=1e-9)
    else: c.eq(o,c.wrap(e),label)
def shape(c,k,o,rev):
    nn=len(K[k]['nodes']); c.eq([o.n,o.dim,o.all,o.rr,o.jr,o.jc],[nn,o.m,o.nd,o.m,o.m,o.nd],'dimensions reported',tol=0)
def resid(c,k,X,z):
    c.op=Op(c); return K[k]['h'](c,c.op,X,z)
def lnpre(c,M):
    w,th=LN3(c,unhom(M)[0])
    if c.mode=='num': c.assume(c.w.pi-th-c.const(F(1,10**5)),'>')
    return LN6(c,M)
def tr3(k,X,z,rev):
    if k=='prior3': return mm(X[0],minv(z))
    return mm(mm(X[1],minv(z)),minv(X[0])) if rev else mm(mm(X[0],z),minv(X[1]))
def prep(c,k):
    X=states(c,k); z=K[k]['z'](c)
    if k=='land2':
        dx,dy=X[1][0]-X[0][0],X[1][1]-X[0][1]; c.assume(dx*dx+dy*dy-F(1001,10**9),'>')
    if k=='plane' and c.mode=='num':   # stay off the documented sign discontinuity
        q=mv(tr(X[0]),X[1])[3]; c.assume(q*q-F(1,10**12),'>')
    return X,z
def variants(k):
    s=K[k]; r=[dict(rev=a,se3=b) for a in((0,1) if 'rev' in s['fl'] and not s.get('norev') else(0,)) for b in((0,1) if 'se3' in s['fl'] else (0,))]
    return r
def vn(v): return ''.join(', '+n for f,n in(('rev','target created first'),('se3','SE3 overload'),('upd','initialising')) if v.get(f))
for _k,_s in K.items():
    for _v in variants(_k):
        def _c11(c,k=_k,v=_v):
            X,z=prep(c,k); s=K[k]; W=[[c.const(int(i==j)) for j in range(s['m'])] for i in range(s['m'])]
            o=run(c,k,X,z,W,**v); shape(c,k,o,v['rev'])
            if s['h'] is None:
                c.eq(o.r,lnpre(c,tr3(k,X,z,v['rev'])),'residual = ln of the relative error transform',tol=5e-6); return
            r,an=resid(c,k,X,z)
            for i in range(s['m']):
                if i in an: ang(c,o.r[i],r[i],'residual[%d] = h(x) - z, wrapped'%i)
                else: c.eq(o.r[i],r[i],'residual[%d] = h(x) - z'%i)
        contract('C11',_s['cls']+vn(_v),['mrob::%s::evaluate_residuals'%_s['cls'],'mrob::%s::%s'%(_s['cls'],_s['cls'])],FACT,D,assume=AS)(_c11)
        def _c12(c,k=_k,v=_v):
            X,z=prep(c,k); s=K[k]; W=[[c.const(int(i==j)) for j in range(s['m'])] for i in range(s['m'])]
            o=run(c,k,X,z,W,**v); dims=[MK[n][2] for n in s['nodes']]; nd=sum(dims); off=[0,dims[0]] if not v['rev'] else [dims[1],0]
            XD=[(dpose if n=='p3' else dvec)(c,x,nd,off[i]) for i,(n,x) in enumerate(zip(s['nodes'],X))]
            if s['h'] is None:
                if k=='prior3': TD=mm(XD[0],minv(z))
                else:
                    A,B,Z=(XD[1],X[0],minv(z)) if v['rev'] else (XD[0],X[1],z); Bd=XD[0] if v['rev'] else XD[1]
                    TD=mm(mm(A,Z),dinv(c,Bd))
                T0=[[val(e) for e in r] for r in TD]; Ti=minv(T0); c.eq(o.r,lnpre(c,T0),'residual',tol=5e-6)
                E=[]
                for q in range(nd): E.append(vee6(mm([[e.d[q] if isinstance(e,Du) else c.const(0) for e in r] for r in TD],Ti)))
                exp=tr(E)
            else:
                r,an=resid(c,k,XD,z); exp=[e.d for e in r]
                for i in range(s['m']):   # the Jacobian below is the derivative of the residual the factor reports
                    if i in an: ang(c,o.r[i],val(r[i]),'residual[%d]'%i)
                    else: c.eq(o.r[i],val(r[i]),'residual[%d]'%i)
            for i in range(s['m']):
                for j in range(nd): c.eq(o.J[i][j],exp[i][j],'J[%d][%d] = d r_%d / d x_%d'%(i,j,i,j),tol=5e-9 if k!='land2' else 1e-7)
        contract('C12',_s['cls']+vn(_v),['mrob::%s::evaluate_jacobians'%_s['cls']],FACT,D,assume=AS)(_c12)
        def _c13(c,k=_k,v=_v):
            X,z=prep(c,k); s=K[k]; W=info(c,s['m']); o=run(c,k,X,z,W,**v); c.eq(o.W,flat(W),'information matrix kept',tol=0)
            if s['h'] is None: c.nodiv=True
            c.eq(o.chi2,F(1,2)*dot(o.r,mv(W,o.r)),'chi2 = 1/2 r^T W r',tol=1e-9)
        contract('C13',_s['cls']+' error'+vn(_v),['mrob::%s::evaluate_chi2'%_s['cls'],'mrob::%s::get_information_matrix'%_s['cls']],FACT,D,assume=AS)(_c13)
def dinv(c,M):
    R,t=unhom(M); Rt=tr(R); tt=mv(Rt,t); Z=Du(c.const(0),[c.const(0)]*len(R[0][0].d)); O=Du(c.const(1),Z.d)
    return [list(Rt[i])+[-tt[i]] for i in range(3)]+[[Z,Z,Z,O]]
# ---------------------------------------------------------------- C11: the residual follows the current state of its nodes; consistent states give zero
@contract('C11','residual is evaluated at the current states',['mrob::Factor2Poses2d::evaluate_residuals'],FACT,D,assume=AS)
def C11_follow(c):
    a=p2(c,'a'); b=p2(c,'b'); z=c.vec('z',3); W=info(c,3); a2=p2(c,'p'); b2=p2(c,'q')
    o=c.call('drv_f_follow',a+b+z+flat(W)+a2+b2,4); r,_=h_rel2(c,Op(c),[a2,b2],z); c.eq(o[:2],r[:2],'residual at the new states'); ang(c,o[2],r[2],'residual at the new states, heading')
    c.eq(o[3],F(1,2)*dot(o[:3],mv(W,o[:3])),'chi2 at the new states')
def consistent(k):
    def f(c):
        s=K[k]; X=states(c,k); z=None; m=s['m']; W=eye(m)
        if k=='prior2': z=list(X[0])
        elif k=='prior3': z=X[0]
        elif k=='rel3': z=mm(minv(X[0]),X[1])
        elif k=='plane':
            z=mv(tr(X[0]),X[1]); c.assume(z[3],'>'); c.hint_sq(c.const(1))
        elif k=='pt2pl':
            x=c.vec('x',3); n=c.unit('m'); u=c.vec('u',3); R,t=unhom(X[0]); p=vadd(mv(R,x),t); d=cross(n,u); z=x+vadd(p,d)+n
        o=run(c,k,X,z,W); c.close(o.r,[0]*m,'residual is zero',tol=1e-12,ntol=2e-6 if k in('rel3','prior3') else 1e-9)
    return f
for _k in('prior2','prior3','rel3','plane','pt2pl'):
    contract('C11',K[_k]['cls']+': zero for consistent states',['mrob::%s::evaluate_residuals'%K[_k]['cls']],FACT,D,assume=AS)(consistent(_k))
# ---------------------------------------------------------------- C13 robust kernels
KER=[lambda c,u:c.const(1),lambda c,u:c.const(1) if c.decide(u-1,'<') else 1/u,lambda c,u:1/(1+u*u),lambda c,u:1/((1+u*u)*(1+u*u)),lambda c,u:c.const(int(c.decide(u-1,'<')))]
def rk(i,nm):
    def f(c):
        u=c.real('u',2.0,lo=0,wide=True,special=(0,1,.999,1.001)); v=u+c.real('d',1.0,lo=0,wide=True,special=(0,))
        o=c.call('drv_robust',[i,u,v],2); c.eq(o[0],KER[i](c,u),'weight of the documented kernel',tol=1e-12); c.eq(o[1],KER[i](c,v),'weight of the documented kernel (2)',tol=1e-12)
        for x in o: c.holds(x,'>=','weight >= 0',slack=0); c.holds(x-1,'<=','weight <= 1',slack=0)
        c.holds(o[0]-o[1],'>=','weight never increases with u',slack=1e-15)
    contract('C13','robust weight '+nm,['mrob::Factor::evaluate_robust_weight'],FACT,D)(f)
for _i,_n in enumerate(('QUADRATIC','HUBER','CAUCHY','MCCLURE','RANSAC')): rk(_i,_n)
# ---------------------------------------------------------------- C14
def order(k):
    s=K[k]; dims=[MK[n][2] for n in s['nodes']]
    def f(c):
        X,z=prep(c,k); W=info(c,s['m'])
        if s['h'] is None:
            xi=lnpre(c,tr3(k,X,z,0)); c.w.__dict__.setdefault('ln6_hints',[]).append((tr3(k,X,z,1),[-x for x in xi])); c.nodiv=True   # ln(M^-1) = -ln(M)
        a=run(c,k,X,z,W,rev=0); b=run(c,k,X,z,W,rev=1)
        c.eq(a.ids,[3,7],'nodes listed by increasing id',tol=0); c.eq(b.ids,[3,7],'nodes listed by increasing id (target first)',tol=0)
        c.eq(a.X[0]+a.X[1],b.X[0]+b.X[1],'states untouched',tol=0)
        c.eq(b.chi2,a.chi2,'same error for either order',tol=1e-6 if s['h'] is None else 1e-9); c.eq(b.r,a.r if s['h'] else [-x for x in a.r],'equivalent residual',tol=1e-6 if s['h'] is None else 1e-9)
        if s['h']:
            d=dims[0]; c.eq([r[dims[1]:]+r[:dims[1]] for r in b.J],a.J,'Jacobian blocks follow the node list')
        else:  # residual changes sign: J_rev = -Adj-transported blocks; compare through the linearisation at the same point
            Ai=minv(tr3(k,X,z,0)); A=adj(Ai); c.eq([r[6:]+r[:6] for r in b.J],mscale(-1,mm(A,a.J)),'Jacobian blocks follow the node list',tol=1e-7)
    return f
for _k in('rel2','land2','land3','plane','rel3'):
    contract('C14',K[_k]['cls'],['mrob::%s::%s'%(K[_k]['cls'],x) for x in(K[_k]['cls'],'evaluate_residuals','evaluate_jacobians','evaluate_chi2')],FACT,D,assume=AS)(order(_k))
# ---------------------------------------------------------------- C28
def initc(k,rev,upd,se3=0):
    s=K[k]
    def f(c):
        X=states(c,k); z=s['z'](c); W=eye(s['m'])
        if not upd and k=='land2': dx,dy=X[1][0]-X[0][0],X[1][1]-X[0][1]; c.assume(dx*dx+dy*dy-F(1001,10**9),'>')
        if k=='land2': c.hint_sq(z[0]); a=c.wrap(z[1]+X[0][2]); c.hint_atan2((a,z[0]))
        o=run(c,k,X,z,W,rev=rev,upd=upd,se3=se3); c.eq(o.X[0],flat(X[0]),'origin keeps its state',tol=0)
        if not upd: c.eq(o.X[1],flat(X[1]),'target keeps its state',tol=0); return
        op=Op(c); p=X[0]
        if k=='rel2': e=[p[0]+op.cos(p[2])*z[0]-op.sin(p[2])*z[1],p[1]+op.sin(p[2])*z[0]+op.cos(p[2])*z[1],p[2]+z[2]]
        elif k=='odom': a=p[2]+z[0]; e=[p[0]+op.cos(a)*z[1],p[1]+op.sin(a)*z[1],a+z[2]]
        elif k=='land2': a=p[2]+z[1]; e=[p[0]+z[0]*op.cos(a),p[1]+z[0]*op.sin(a)]
        elif k=='land3': e=vadd(mv(unhom(p)[0],z),unhom(p)[1])
        elif k=='rel3': e=flat(mm(p,z))
        if k in('rel2','odom'): c.eq(o.X[1][:2],e[:2],'target = predicted state'); ang(c,o.X[1][2],e[2],'target heading = predicted heading')
        else: c.eq(o.X[1],e,'target = predicted state',tol=1e-6 if k=='rel3' else 1e-9)
        if c.mode=='num' and s['m']>1 and k in('rel2','odom','land2'):
            i={'rel2':2,'odom':2,'land2':1}[k]; c.close([x for j,x in enumerate(o.r) if j!=i],[0]*(s['m']-1),'residual is zero',ntol=1e-9); c.close(c.sin(o.r[i]),0,'angular residual is zero',ntol=1e-8); c.close(c.cos(o.r[i]),1,'angular residual is zero',ntol=1e-8)
        else: c.close(o.r,[0]*s['m'],'residual is zero',tol=1e-12,ntol=2e-6 if k=='rel3' else 1e-9)
    contract('C28',s['cls']+vn(dict(rev=rev,upd=upd,se3=se3)),['mrob::%s::%s'%(s['cls'],s['cls']),'mrob::%s::evaluate_residuals'%s['cls']],FACT,D,assume=AS)(f)
for _k in('rel2','odom','land2','land3','rel3'):
    for _r in ((0,) if _k=='odom' else (0,1)):
        for _u in(0,1):
            for _e in ((0,1) if _k=='rel3' else (0,)): initc(_k,_r,_u,_e)
# ---------------------------------------------------------------- native companions: residuals of every magnitude, and histories of states
def _rmot(r,N,lo,hi,vlo,vhi):
    a=r.randn(3,N); a/=np.sqrt((a*a).sum(0)); return np.concatenate([a*10.**r.uniform(lo,hi,N),r.randn(3,N)*10.**r.uniform(vlo,vhi,N)])
def _M(x):
    E=np_exp6(*x); M=np.zeros((4,4,x.shape[1])); M[:3,:3]=np.asarray(E[:9]).reshape(3,3,-1); M[:3,3]=np.asarray(E[9:12]).reshape(3,-1); M[3,3]=1; return M
def _mul(*a):
    M=a[0]
    for b in a[1:]: M=np.einsum('ijn,jkn->ikn',M,b)
    return M
def _inv(M):
    R=M[:3,:3].transpose(1,0,2); o=0*M; o[:3,:3]=R; o[:3,3]=-np.einsum('ijn,jn->in',R,M[:3,3]); o[3,3]=1; return o
def _g(c,name,A):
    A=np.asarray(A,float).reshape(-1,c.w.N); return c.group(name,len(A),lambda:[A[i] for i in range(len(A))],None,norm=False)
_n4=[0]
def _tn(c,a): _n4[0]+=1; return c.w._mk('auxf',(_n4[0],),(),np.asarray(a,float))
def _bd(c,err,bound,label): c.holds(_tn(c,np.nan_to_num(np.abs(np.asarray(err)).reshape(-1,c.w.N).max(0),nan=1e300)/bound-1),'<=',label,slack=0)
def _num(l): return np.stack([x.num+np.zeros(1) for x in l])
def near(k,rev,mode):
    """the target differs from the predicted one by an error of any magnitude; mode: residual, or initialisation of the target"""
    def f(c):
        r=c.ex.rng; N=c.w.N; s=K[k]; th=lambda:r.uniform(-3.1,3.1,N); sc=10.**r.uniform(-1,4,N)*np.where(r.rand(N)<.2,0,1); e=10.**r.uniform(-12,6,N); eh=r.choice([-1,1],N)*10.**r.uniform(-12,.45,N)
        if k in('rel3','prior3'):
            A=_M(_rmot(r,N,-6,.39,-3,4)); Z=_M(_rmot(r,N,-6,.39,-3,4)); x=_rmot(r,N,-12,.39,-12,6)
            if k=='prior3': X=[_mul(_M(x),Z)]; mag=np.abs(X[0][:3,3]).max(0)+np.abs(Z[:3,3]).max(0)
            else: A0=_mul(A,Z); X=[A,_mul(_M(x) if rev else _M(-x),A0)]; mag=np.abs(X[1][:3,3]).max(0)+np.abs(A[:3,3]).max(0)+np.abs(Z[:3,3]).max(0)
            XS=[rows(_g(c,'X%d'%i,m),4,4) for i,m in enumerate(X)]; zs=rows(_g(c,'Z',Z),4,4); o=run(c,k,XS,zs,eye(6),rev=rev,upd=int(mode=='init'),se3=0)
            if mode=='init': _bd(c,_num(o.X[1])-A0.reshape(16,-1),1e-13*(1+mag),'target = predicted state, however close or far it was'); return
            q=_num(o.r); _bd(c,q[:3]-x[:3],1e-12,'rotation part of the residual, at every magnitude'); _bd(c,q[3:]-x[3:],1e-9*np.abs(x[3:]).max(0)+1e-12*(1+mag),'translation part of the residual, at every magnitude'); return
        a=np.stack([r.randn(N)*sc,r.randn(N)*sc,th()]); W=eye(s['m'])
        if k=='land3':
            A=_M(_rmot(r,N,-6,.39,-3,4)); z=r.randn(3,N)*10.**r.uniform(-3,3,N); d=r.randn(3,N)*e; p=np.einsum('ijn,jn->in',A[:3,:3],z)+A[:3,3]; X=[A,p+d]; ex=np.einsum('jin,jn->in',A[:3,:3],d); mag=np.abs(p).max(0)+np.abs(A[:3,3]).max(0)+np.abs(d).max(0)
        elif k=='land2':
            z=np.stack([10.**r.uniform(-2.99,5,N),th()]); p=a[:2]+z[0]*np.stack([np.cos(a[2]+z[1]),np.sin(a[2]+z[1])]); D=10.**r.uniform(-2.99,5,N); b=th(); l=p if mode!='init' and rev==2 else a[:2]+D*np.stack([np.cos(b+a[2]),np.sin(b+a[2])]); dd=l-a[:2]; X=[a,l]; q=np.sqrt((dd**2).sum(0)); ok=q>1.01e-3
            ex=np.stack([q-z[0],np.arctan2(dd[1],dd[0])-a[2]-z[1]]); mag=np.abs(l).max(0)+np.abs(a).max(0)+z[0]
            if mode!='init': c.path.mask=c.path.mask&ok
        elif k=='prior2': z=np.stack([r.randn(N)*sc,r.randn(N)*sc,th()]); d=np.concatenate([r.randn(2,N)*e,eh[None]]); X=[z+d]; ex=d; mag=np.abs(z).max(0)+np.abs(d).max(0)
        else:
            z=np.stack([r.randn(N)*sc,r.randn(N)*sc,th()]) if k=='rel2' else np.stack([th(),r.randn(N)*sc,th()]); d=np.concatenate([r.randn(2,N)*e,eh[None]])
            if k=='rel2': C,S=np.cos(a[2]),np.sin(a[2]); p=np.stack([a[0]+C*z[0]-S*z[1],a[1]+S*z[0]+C*z[1],a[2]+z[2]]); ex=np.stack([C*d[0]+S*d[1],C*d[1]-S*d[0],d[2]])
            else: t=a[2]+z[0]; p=np.stack([a[0]+np.cos(t)*z[1],a[1]+np.sin(t)*z[1],t+z[2]]); ex=-d
            X=[a,p+d]; mag=np.abs(X[1]).max(0)+np.abs(a).max(0)+np.abs(z).max(0)
        XS=[rows(_g(c,'X%d'%i,m),4,4) if np.ndim(m)==3 else _g(c,'X%d'%i,m) for i,m in enumerate(X)]; zs=_g(c,'Z',z); o=run(c,k,XS,zs,W,rev=int(rev==1),upd=int(mode=='init'))
        if mode=='init':
            q=_num(o.X[1])-p
            if len(p)==3 and k!='land3': q[2]=np.sin(q[2]/2)
            _bd(c,q,1e-13*(1+mag),'target = predicted state, however close or far it was'); return
        q=_num(o.r)-ex
        for i in {'land2':[1],'rel2':[2],'odom':[2],'prior2':[2]}.get(k,[]): q[i]=np.sin(q[i]/2)
        b=1e-12*(1+mag); b=b+(1e-13*mag/np.maximum(1e-3,np.sqrt(((X[1]-X[0][:2])**2).sum(0))) if k=='land2' else 0); _bd(c,q,b,'residual at every magnitude')
    return f
for _k in('prior2','rel2','odom','land2','land3','prior3','rel3'):
    for _r in ((0,1,2) if _k=='land2' else (0,1) if _k in('rel2','land3','rel3') else (0,)): contract('C11','%s: residuals of every magnitude%s'%(K[_k]['cls'],['',', target created first',', consistent'][_r]),['mrob::%s::evaluate_residuals'%K[_k]['cls']],FACT,D,nosym=True,numN=2000,bounded='native samples')(near(_k,_r,'res'))
    for _r in ((0,1) if _k in('rel2','land2','land3','rel3') else (0,)):
        if _k[:5]!='prior': contract('C28','%s: target at any distance from the prediction%s'%(K[_k]['cls'],['',', target created first'][_r]),['mrob::%s::%s'%(K[_k]['cls'],K[_k]['cls'])],FACT,D,nosym=True,numN=1500,bounded='native samples')(near(_k,_r,'init'))
@contract('C11','Factor1Pose1Plane4d: observations of any length describe the plane with the normalised normal',['mrob::Factor1Pose1Plane4d::Factor1Pose1Plane4d'],FACT,D,assume=AS)
def C11_planez(c):
    X,z=prep(c,'plane'); q=c.real('s',1.0,lo=F(1,1000),wide=True,special=(1,1.0005,.9995,1.00001)); c.assume(q,'>'); c.hint_sq(q)
    o=run(c,'plane',X,[q*v for v in z[:3]]+[z[3]],eye(4)); e,_=resid(c,'plane',X,z); c.eq(o.r,e,'residual for the normalised observation')
HK=['prior2','rel2','odom','land2','land3','plane','pt2pl','prior3','rel3']
def hist(k,rev,what):
    def f(c):
        r=c.ex.rng; N=c.w.N; s=K[k]; m=s['m']; nd=sum(MK[n][2] for n in s['nodes']); S1,S2=[],[]; u=10.**r.uniform(-9,.3,N); part=r.randint(0,5,N)
        for i,n in enumerate(s['nodes']):
            h=u*np.where((part==i),0,1)   # sometimes only one of the nodes moves
            if n=='p3':
                A=_M(_rmot(r,N,-3,.3,-1,1)); d=r.randn(6,N)*h; d[:3]*=np.where(part==3,0,1); d[3:]*=np.where(part==4,0,1); S1.append(A); S2.append(_mul(_M(d),A))
            elif n=='pl': a=r.randn(4,N); a[:3]/=np.sqrt((a[:3]**2).sum(0)); b=a+r.randn(4,N)*h; b[:3]/=np.sqrt((b[:3]**2).sum(0)); S1.append(a); S2.append(b)
            else:
                a=r.randn({'p2':3,'l2':2,'l3':3}[n],N)*2
                if n=='p2': a[2]=r.uniform(-3,3,N)
                b=a+r.randn(*a.shape)*h
                if n=='p2': b[2]=np.clip(b[2],-3.1,3.1)
                S1.append(a); S2.append(b)
        if k in('prior3','rel3'):
            z=_M(_rmot(r,N,-3,.3,-1,1)); fit=r.rand(N)<.4; t=_mul(_M(_rmot(r,N,-12,-3,-12,-3)*np.where(r.rand(N)<.5,0,1)),z if k=='prior3' else _mul(S2[0],z)); S2[-1]=np.where(fit,t,S2[-1])
        elif k=='pt2pl': z=r.randn(9,N); z[6:]/=np.sqrt((z[6:]**2).sum(0))
        elif k=='plane': z=r.randn(4,N); z[:3]/=np.sqrt((z[:3]**2).sum(0))
        else: z=r.randn({'land2':2}.get(k,3),N)
        S=[_g(c,'S%d'%i,a) for i,a in enumerate(S1+S2)]; n=m+m*nd+1; o=_num(c.call('drv_f_hist',[HK.index(k),rev]+[x for a in S for x in a]+_g(c,'Z',z),2*n)).reshape(2,n,-1); d=o[0]-o[1]; mx=lambda a:np.abs(a).reshape(-1,N).max(0)
        if k in('prior3','rel3'): c.path.mask=c.path.mask&(np.sqrt((o[1][:3]**2).sum(0))<3.1)
        if k=='plane': q=np.einsum('ijn,in->jn',S2[0],S2[1])[3]; c.path.mask=c.path.mask&(np.abs(q)>1e-9)
        if k=='land2': c.path.mask=c.path.mask&(((S2[1]-S2[0][:2])**2).sum(0)>1e-2)
        if what=='r': _bd(c,d[:m],1e-11*(1+mx(o[1][:m])),'residual depends on the current states only')
        elif what=='J': _bd(c,d[m:m+m*nd],1e-11*(1+mx(o[1][m:m+m*nd])),'Jacobian depends on the current states only')
        else: _bd(c,d[-1],1e-11*(1+mx(o[1][-1])),'chi2 depends on the current states only')
    return f
for _k in HK:
    for _r in ((0,1) if _k in('rel2','land2','land3','plane','rel3') else (0,)):
        for _p,_w,_n in(('C11','r','evaluate_residuals'),('C12','J','evaluate_jacobians'),('C13','c','evaluate_chi2')): contract(_p,'%s after a history of states%s'%(K[_k]['cls'],['',', target created first'][_r]),['mrob::%s::%s'%(K[_k]['cls'],_n)],FACT,D,nosym=True,numN=1500,bounded='native samples')(hist(_k,_r,_w))
