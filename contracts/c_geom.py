from lib import *
SO3=SE3=GEOM
# ---------------------------------------------------------------- C01
def _w(c,hi=None):
    n=c.unit('n'); th=c.angle('th',0,hi); c.hint_sq(th); return n,th,[th*x for x in n]
def C01_so3(drv):
    def f(c):
        n,th,w=_w(c)
        R=c.call(drv,w,9)
        c.close(rows(R,3,3),Rot(c,n,th),'R = Rodrigues rotation of w',tol=1e-12,ntol=1e-12)
    return f
contract('C01','SO3::exp',['mrob::SO3::exp','mrob::vee3','mrob::hat3'],SO3)(C01_so3('drv_so3_exp'))
contract('C01','SO3::SO3(w)',['mrob::SO3::SO3(Mat31)'],SO3)(C01_so3('drv_so3_ctor_w'))
@contract('C01','SE3::SE3(xi)',['mrob::SE3::exp','mrob::SE3::SE3(Mat61)','mrob::hat6','mrob::vee6','mrob::SE3::R','mrob::SE3::t'],SE3,assume=[A_SO3_exp])
def C01_se3(c):
    n,th,w=_w(c); v=c.vec('v',3)
    if c.decide(th,'>'):
        c.w.exp3_hints=[(w,Rot(c,n,th))]; t=mv(Vmat(c,n,th),v)
    else: t=v; th=c.const(0); w=[th]*3
    o=c.call('drv_se3_ctor_xi',w+v,28)
    M=rows(o,4,4)
    c.close([r[:3] for r in M[:3]],Rot(c,n,th),'rotation block = exp(w)',tol=1e-12,ntol=1e-12)
    c.close([r[3] for r in M[:3]],t,'translation = V(w) v',tol=1e-11,ntol=2e-9,lin=v)
    c.eq(M[3],[0,0,0,1],'last row 0 0 0 1',tol=0)
    c.eq(rows(o[16:],3,3),[r[:3] for r in M[:3]],'R()',tol=0); c.eq(o[25:28],[r[3] for r in M[:3]],'t()',tol=0)
# ---------------------------------------------------------------- C02
BAND=6e-8   # within this distance of pi the code documents that it rounds the angle to pi
@contract('C02','SO3::ln, angle in [0, pi-6e-8]',['mrob::SO3::ln'],SO3,smt=6)
def C02_so3ln(c):
    n=c.unit('n'); th=c.angle('th',0,math.pi-BAND); c.hint_acos(th); C=c.cos(th)
    c.w.angle01pi.add('th'); c.hint_sq(*[(1-C)*x for x in n])
    o=c.call('drv_so3_ln',flat(Rot(c,n,th)),10)
    c.close([o[0],o[4],o[8],o[1]+o[3],o[2]+o[6],o[5]+o[7]],[0]*6,'result is skew-symmetric',tol=1e-12,ntol=1e-12)
    c.close(o[9],th,'reported angle = theta',tol=1e-10,ntol=3e-7)
    c.close([o[7],o[2],o[3]],[th*x for x in n],'ln = theta n',tol=1e-10,ntol=5e-7)
@contract('C02','SO3::ln, half turns',['mrob::SO3::ln'],SO3,smt=6)
def C02_so3pi(c):
    n=c.unit('n'); c.hint_sq(*[2*x for x in n])
    o=c.call('drv_so3_ln',[2*n[i]*n[j]-int(i==j) for i in range(3) for j in range(3)],10)
    c.close([o[0],o[4],o[8],o[1]+o[3],o[2]+o[6],o[5]+o[7]],[0]*6,'result is skew-symmetric',tol=1e-12,ntol=1e-12)
    c.close(o[9],c.pi,'reported angle = pi',tol=1e-10,ntol=3e-7)
    p=[c.pi*x for x in n]
    c.one_of([o[7],o[2],o[3]],[(p,[]),([-x for x in p],[])],'ln = +-pi n',tol=5e-7)
@contract('C02','SO3::ln, last 6e-8 before pi',['mrob::SO3::ln'],SO3,nosym=True,bounded='native samples only')
def C02_band(c):
    n=c.unit('n'); d=c.real('d',3e-8,lo=0,hi=BAND); th=c.w.pi-d
    o=c.call('drv_so3_ln',flat(Rot(c,n,th)),10); p=[th*x for x in n]
    c.close(o[9],th,'reported angle = theta',ntol=3e-7)
    c.one_of([o[7],o[2],o[3]],[(p,[]),([-x for x in p],[])],'ln = +-theta n',tol=5e-7)
@contract('C02','SO3::ln_vee / exp o ln',['mrob::SO3::ln_vee','mrob::SO3::ln'],SO3,assume=[A_SO3_ln])
def C02_lnvee(c):
    R=rotq(c,'q'); w,th=LN3(c,R)
    o=c.call('drv_so3_ln0',flat(R),12)
    if c.mode=='num':
        E=np_exp3(*[x.num for x in o[9:12]])[0]
        c.eq([_t(c,E[i//3,i%3]) for i in range(9)],flat(R),'exp(ln(R)) = R',tol=5e-7)
        W=np_exp3(o[7].num,o[2].num,o[3].num)[0]
        c.eq([_t(c,W[i//3,i%3]) for i in range(9)],flat(R),'exp(ln(R)) = R (matrix form)',tol=5e-7)
        c.holds(_t(c,np.sqrt(sum(x.num**2 for x in o[9:12]))-math.pi-1e-9),'<=','|ln R| <= pi')
    else:
        c.eq(rows(o,3,3),hat(w),'ln'); c.eq(o[9:],w,'ln_vee')
_cnt=[0]
def _t(c,arr):
    _cnt[0]+=1; return c.w._mk('aux',(_cnt[0],),(),np.asarray(arr,float))
@contract('C02','SE3::ln',['mrob::SE3::ln','mrob::SE3::ln_vee','mrob::vee6'],SE3,assume=[A_SO3_ln])
def C02_se3ln(c):
    n=c.unit('n'); th=c.angle('th',0,math.pi); c.hint_sq(th); v=c.vec('v',3)
    if c.decide(th,'>'):
        w=[th*x for x in n]; R=Rot(c,n,th); c.w.ln3_hints=[(R,w,th)]; t=mv(Vmat(c,n,th),v)
    else: th=c.const(0); w=[th]*3; R=eye(3); t=v
    o=c.call('drv_se3_ln',flat(hom(R,t)),22)
    X=rows(o,4,4)
    if c.mode=='num':
        E=np_exp6(*[x.num for x in o[16:22]])
        c.eq([_t(c,e) for e in E],flat(R)+t,'exp(ln(T)) = T',tol=1e-6)
        c.one_of(o[16:22],[(w+v,[]),([-x for x in w],[(c.w.pi-th,'<=')],1e-6)][:1] if False else [(w+v,[])],'ln(exp(xi)) = xi for |w|<pi',tol=1e-6) if _belowpi(c,th) else None
        c.eq(flat(X),flat(hat6(o[16:22])),'ln = hat(ln_vee)',tol=0)
    else:
        c.close(vee6(X)[:3],w,'ln rotation part',tol=1e-12)
        c.close(vee6(X)[3:],v,'ln translation part v (T = exp(w,v))',tol=1e-10,ntol=1e-9,lin=v)
        c.eq(flat(X),flat(hat6(vee6(X))),'se(3) form'); c.eq(o[16:22],vee6(X),'ln_vee = vee(ln)')
def _belowpi(c,th):
    return c.decide(c.w.pi-th-F(1,10**6),'>')
def _motion(c,lo,hi,vlo=-6,vhi=5):
    """native inputs over all magnitudes: axis times angle 10^[lo,hi], translation part 10^[vlo,vhi]"""
    r=c.ex.rng; N=c.w.N; a=r.randn(3,N); a/=np.sqrt((a*a).sum(0)); i=r.randint(0,6,N); a=np.where(i<3,np.eye(3)[:,np.minimum(i,2)],a); b=r.randn(3,N); x=np.concatenate([a*10.**r.uniform(lo,hi,N),b*10.**r.uniform(vlo,vhi,N)*np.where(r.rand(N)<.1,0,1)]); return x
def _grp(c,name,A): return c.group(name,len(A),lambda:[A[i] for i in range(len(A))],None,norm=False)
def _nums(l): return np.stack([x.num for x in l])
def _np_hom(x): 
    E=np_exp6(*x); return np.concatenate([np.asarray(E[:9]).reshape(3,3,-1),np.asarray(E[9:12]).reshape(3,1,-1)],1)
def _flat16(M): return list(M.reshape(12,-1))+[0*M[0,0]]*3+[0*M[0,0]+1]
def _bound(c,err,bound,label): c.holds(_t(c,np.nan_to_num(np.abs(err).reshape(-1,c.w.N).max(0),nan=1e300)/bound-1),'<=',label,slack=0)
@contract('C01','exponentials over all magnitudes',['mrob::SO3::exp','mrob::SE3::exp'],GEOM,nosym=True,numN=4000,bounded='native samples')
def C01_mag(c):
    x=_motion(c,-14,1.3,-14,8); X=_grp(c,'x',x); E=_np_hom(x); o=_nums(c.call('drv_se3_ctor_xi',X,28)); M=o[:16].reshape(4,4,-1); q=_nums(c.call('drv_so3_exp',X[:3],9)).reshape(3,3,-1)
    _bound(c,M[:3,:3]-E[:,:3],1e-12,'rotation block'); _bound(c,q-E[:,:3],1e-12,'rotation'); _bound(c,M[:3,3]-E[:,3],1e-300+1e-10*np.abs(x[3:]).max(0),'translation')
@contract('C02','logarithms over all magnitudes',['mrob::SO3::ln','mrob::SO3::ln_vee','mrob::SE3::ln','mrob::SE3::ln_vee'],GEOM,nosym=True,numN=4000,bounded='native samples')
def C02_mag(c):
    x=_motion(c,-13,np.log10(2.5)); M=_np_hom(x); A=_np_hom(_motion(c,-3,.4))[:,:3]; P=np.einsum('ijn,jkn,lkn->iln',M[:,:3],A,A); keep=c.ex.rng.rand(c.w.N)<.5; M[:,:3]=np.where(keep,M[:,:3],P)   # half of them products: rounded, the trace may exceed 3
    T=_grp(c,'T',_flat16(M)); o=_nums(c.call('drv_se3_ln',T,22))[16:]; q=_nums(c.call('drv_so3_ln0',[T[i] for i in(0,1,2,4,5,6,8,9,10)],12))[9:]; v=1e-300+np.abs(x[3:]).max(0)
    _bound(c,o[:3]-x[:3],1e-12,'ln of a transform: rotation part w'); _bound(c,q-x[:3],1e-12,'ln of a rotation: w'); _bound(c,o[3:]-x[3:],1e-10*v,'ln of a transform: translation part v')
# ---------------------------------------------------------------- C03
@contract('C03','SO3 product, copy, assignment',['mrob::SO3::operator*','mrob::SO3::mul','mrob::SO3::operator=','mrob::SO3::ref2R'],SO3)
def C03_so3mul(c):
    A=c.mat('A',3,3); B=c.mat('B',3,3); o=c.call('drv_so3_mul',flat(A)+flat(B),36); AB=mm(A,B)
    c.eq(o[:9],flat(AB),'A*B'); c.eq(o[9:18],flat(AB),'A.mul(B)'); c.eq(o[18:27],flat(B),'assignment',tol=0); c.eq(o[27:],flat(A),'copy, ref2R',tol=0)
@contract('C03','SO3::inv, adj, R',['mrob::SO3::inv','mrob::SO3::adj','mrob::SO3::R'],SO3)
def C03_so3inv(c):
    A=rotq(c,'q'); o=c.call('drv_so3_inv',flat(A),27)
    c.eq(mm(A,rows(o,3,3)),eye(3),'A A^-1 = I'); c.eq(mm(rows(o,3,3),A),eye(3),'A^-1 A = I')
    c.eq(o[9:18],flat(A),'adj = R',tol=0); c.eq(o[18:],flat(A),'R',tol=0)
@contract('C03','SE3 product, copy, assignment',['mrob::SE3::operator*','mrob::SE3::mul','mrob::SE3::operator=','mrob::SE3::ref2T'],SE3)
def C03_se3mul(c):
    A=pose(c,'A'); B=pose(c,'B'); o=c.call('drv_se3_mul',flat(A)+flat(B),64); AB=mm(A,B)
    c.eq(o[:16],flat(AB),'A*B'); c.eq(o[16:32],flat(AB),'A.mul(B)'); c.eq(o[32:48],flat(B),'assignment',tol=0); c.eq(o[48:],flat(A),'copy, ref2T',tol=0)
    M=rows(o,4,4); R,t=unhom(M)
    c.eq(mm(R,tr(R)),eye(3),'product is orthonormal'); c.eq(M[3],[0,0,0,1],'product last row',tol=1e-15)
@contract('C03','SE3 self assignment and square',['mrob::SE3::operator=','mrob::SO3::operator='],SE3)
def C03_self(c):
    A=pose(c,'A'); o=c.call('drv_se3_self',flat(A),41)
    c.eq(o[:16],flat(A),'A=A',tol=0); c.eq(o[16:32],flat(mm(A,A)),'A*A'); c.eq(o[32:],flat(unhom(A)[0]),'R=R',tol=0)
@contract('C03','SE3::inv',['mrob::SE3::inv','mrob::SE3::R','mrob::SE3::t'],SE3)
def C03_se3inv(c):
    A=pose(c,'A'); o=c.call('drv_se3_inv',flat(A),28); M=rows(o,4,4)
    c.eq(mm(A,M),eye(4),'A A^-1 = I'); c.eq(mm(M,A),eye(4),'A^-1 A = I'); c.eq(M[3],[0,0,0,1],'last row',tol=0)
    c.eq(o[16:25],flat(unhom(A)[0]),'R()',tol=0); c.eq(o[25:],unhom(A)[1],'t()',tol=0)
@contract('C03','SE3 from (R,t) and defaults',['mrob::SE3::SE3(Mat3,Mat31)','mrob::SE3::SE3(SO3,Mat31)','mrob::SE3::SE3()'],SE3)
def C03_ctor(c):
    R=rotq(c,'q'); t=c.vec('t',3); o=c.call('drv_se3_ctor_Rt',flat(R)+t,57)
    c.eq(o[:16],flat(hom(R,t)),'SE3(R,t)',tol=0); c.eq(o[16:32],flat(hom(R,t)),'SE3(SO3,t)',tol=0); c.eq(o[32:48],flat(eye(4)),'SE3()',tol=0); c.eq(o[48:],flat(eye(3)),'SO3()',tol=0)
@contract('C03','SE3::transform',['mrob::SE3::transform'],SE3)
def C03_tf(c):
    A=pose(c,'A'); p=c.vec('p',3); o=c.call('drv_se3_transform',flat(A)+p,3); R,t=unhom(A)
    c.eq(o,vadd(mv(R,p),t),'T(p) = R p + t')
def C03_arr(n):
    def f(c):
        A=pose(c,'A'); p=c.mat('p',n,3) if n else []; o=c.call('drv_se3_transform_array',[n]+flat(A)+flat(p),2+3*n); R,t=unhom(A)
        c.eq(o[:2],[n,3],'shape N x 3',tol=0)
        for i in (range(n) if n<50 else sorted({0,1,n//2,n-2,n-1}|{k+d for k in(1023,1024,2047,2048,4095,4096,8191,8192,16384,32768,65536) for d in(-1,0,1) if k+d<n})): c.eq(o[2+3*i:5+3*i],vadd(mv(R,p[i]),t),'row %d = T(p_%d)'%(i,i))
    return f
for _n in(5000,): contract('C03','SE3::transform_array N=%d'%_n,['mrob::SE3::transform_array'],SE3,nosym=True,bounded='native, N=%d'%_n,numN=2)(C03_arr(_n))
for _n,_k in((0,{}),(1,{}),(2,{}),(3,{}),(7,{})):
    contract('C03','SE3::transform_array N=%d'%_n,['mrob::SE3::transform_array'],SE3,bounded='N=%d'%_n,**_k)(C03_arr(_n))
@contract('C03','SE3::transform_array N=70000',['mrob::SE3::transform_array'],SE3,nosym=True,bounded='native, N=70000',numN=4)
def C03_arr_big(c):
    A=pose(c,'A'); o=_nums(c.call('drv_se3_transform_array_big',[70000]+flat(A),2+2*3*12)); R,t=[np.array([[x.num for x in r] for r in unhom(A)[0]]),np.array([x.num for x in unhom(A)[1]])]
    _bound(c,o[:2]-np.array([[70000],[3]]),.5,'shape N x 3')
    for k in range(12):
        p=o[2+6*k:5+6*k]; _bound(c,o[5+6*k:8+6*k]-np.einsum('ijn,jn->in',R,p)-t,1e-9*(1+np.abs(t).max(0)),'sum over a block of rows')
@contract('C03','SE3::transform_array, every N',['mrob::SE3::transform_array'],SE3,('absg.cpp','geom.cpp'),nonum=True,npts=6,sized=('N',0,20000,C03_arr))
def C03_arr_all(c):
    m=c.amachine(); N=m.isym('N',0,10**8); X=m.array('X',N*3); A=pose(c,'A'); R,t=unhom(A); seen=[]
    def sink(m,a):
        seen.append(1); c.ieq(m,a[1],N,'N rows'); c.ieq(m,a[2],3,'3 columns')
        for i in m.any_index('row',N):
            x=[X.o.lazy.get(m,3*i+j) for j in range(3)]; y=[m.load(Ptr(a[0].o,a[0].off+8*(3*i+j)),('double',)) for j in range(3)]
            c.eq(y,vadd(mv(R,x),t),'row i = R x_i + t for every i')
    m.contracts['ghost_mat']=sink; c.acall(m,'drv_abs_transform',[X,N,flat(A)],1 and None or 0); c.flag(c.const(len(seen)),1,'an array is returned')
# ---------------------------------------------------------------- C04
@contract('C04','hat and vee maps',['mrob::hat3','mrob::vee3','mrob::hat6','mrob::vee6','mrob::curly_wedge'],GEOM)
def C04_hat(c):
    x=c.vec('x',6); o=c.call('drv_hatvee',x,9+3+16+6+36)
    c.eq(o[:9],flat(hat(x[:3])),'hat3',tol=0); c.eq(o[9:12],x[:3],'vee3(hat3(w)) = w',tol=0); c.eq(o[12:28],flat(hat6(x)),'hat6',tol=0); c.eq(o[28:34],x,'vee6(hat6(x)) = x',tol=0)
    W=hat(x[:3]);V=hat(x[3:])
    c.eq(o[34:],flat([W[i]+[0,0,0] for i in range(3)]+[V[i]+W[i] for i in range(3)]),'curly wedge = [w^ 0; v^ w^]',tol=0)
@contract('C04','SE3::adj',['mrob::SE3::adj','mrob::hat3'],SE3)
def C04_adj(c):
    A=pose(c,'A'); B=pose(c,'B'); x=c.vec('x',6)
    a=rows(c.call('drv_se3_adj',flat(A),36),6,6)
    c.eq(mm(mm(A,hat6(x)),minv(A)),hat6(mv(a,x)),'T x^ T^-1 = (Adj(T) x)^')
    b=rows(c.call('drv_se3_adj',flat(B),36),6,6); ab=rows(c.call('drv_se3_adj',flat(mm(A,B)),36),6,6)
    c.eq(ab,mm(a,b),'Adj(AB) = Adj(A) Adj(B)')
@contract('C04','SE3::update_lhs/update_rhs',['mrob::SE3::update_lhs','mrob::SE3::update_rhs','mrob::SE3::SE3(Mat61)'],SE3,assume=[A_SE3_exp])
def C04_upd(c):
    A=pose(c,'A'); x=c.vec('x',6); o=c.call('drv_se3_update',flat(A)+x,32); E=EXP6(c,x)
    c.eq(o[:16],flat(mm(E,A)),'left update = exp(x) T',tol=1e-8); c.eq(o[16:],flat(mm(A,E)),'right update = T exp(x)',tol=1e-8)
@contract('C04','SO3::update_lhs/update_rhs',['mrob::SO3::update_lhs','mrob::SO3::update_rhs'],SO3,assume=[A_SO3_exp])
def C04_upd3(c):
    A=rotq(c,'q'); x=c.vec('x',3); o=c.call('drv_so3_update',flat(A)+x,18); E=EXP3(c,x)
    c.eq(o[:9],flat(mm(E,A)),'left update = exp(x) R'); c.eq(o[9:],flat(mm(A,E)),'right update = R exp(x)')
@contract('C04','SE3::regenerate',['mrob::SE3::regenerate'],SE3,assume=[A_SE3_exp,A_SE3_ln])
def C04_regen(c):
    A=pose(c,'A'); o=c.call('drv_se3_regen',flat(A),16); c.eq(o,flat(A),'exp(ln(T)) = T',tol=1e-6)
@contract('C04','updates and regeneration over all magnitudes',['mrob::SE3::update_lhs','mrob::SE3::update_rhs','mrob::SO3::update_lhs','mrob::SO3::update_rhs','mrob::SE3::regenerate'],GEOM,nosym=True,numN=4000,bounded='native samples')
def C04_mag(c):
    x=_motion(c,-14,.5,-12,5); y=_motion(c,-9,.39,-9,5); M=_np_hom(y); T=_grp(c,'T',_flat16(M)); X=_grp(c,'x',x); E=_np_hom(x)
    mul=lambda A,B:np.concatenate([np.einsum('ijn,jkn->ikn',A[:,:3],B[:,:3]),(np.einsum('ijn,jn->in',A[:,:3],B[:,3])+A[:,3])[:,None]],1)
    o=_nums(c.call('drv_se3_update',T+X,32)).reshape(2,4,4,-1); l=_nums(c.call('drv_so3_update',[T[i] for i in(0,1,2,4,5,6,8,9,10)]+X[:3],18)).reshape(2,3,3,-1); g=_nums(c.call('drv_se3_regen',T,16)).reshape(4,4,-1)
    mag=np.abs(x[3:]).max(0)+np.abs(M[:,3]).max(0); L,R=mul(E,M),mul(M,E); th=np.sqrt((x[:3]**2).sum(0))
    _bound(c,o[0,:3,:3]-L[:,:3],1e-12,'left update, rotation'); _bound(c,o[1,:3,:3]-R[:,:3],1e-12,'right update, rotation'); _bound(c,l[0]-L[:,:3],1e-12,'left update of a rotation'); _bound(c,l[1]-R[:,:3],1e-12,'right update of a rotation')
    _bound(c,o[0,:3,3]-L[:,3],1e-300+1e-14*mag+3e-12*np.abs(x[3:]).max(0),'left update, translation'); _bound(c,o[1,:3,3]-R[:,3],1e-300+1e-14*mag+3e-12*np.abs(x[3:]).max(0),'right update, translation')
    _bound(c,g[:3,:3]-M[:,:3],1e-12,'regenerated rotation'); _bound(c,g[:3,3]-M[:,3],1e-300+1e-9*np.abs(M[:,3]).max(0),'regenerated translation')
# ---------------------------------------------------------------- C05
def _awaypi(c,th):
    # at theta=pi the logarithm has two values; native comparison against a fixed one stays away from it
    if c.mode=='num': c.assume(c.w.pi-th-c.const(F(1,10**5)),'>')
@contract('C05','distances at half turns',['mrob::SE3::distance_rotation','mrob::SO3::distance'],GEOM,assume=[A_SE3_ln,A_SO3_ln])
def C05_half(c):
    A=pose(c,'A'); o=c.call('drv_se3_distance0',flat(A),3); w,th=LN3(c,unhom(A)[0]); d=unhom(A)[1]
    c.eq(o[1],th,'rotation angle in [0,pi]',tol=1e-6); c.eq(o[2],c.sqrt(dot(d,d)),'|t_A|')
    p=c.call('drv_so3_distance',flat(unhom(A)[0])+flat(eye(3)),1); c.eq(p[0],th,'rotation distance to identity',tol=1e-6)
@contract('C05','SO3::distance',['mrob::SO3::distance'],SO3,assume=[A_SO3_ln])
def C05_so3(c):
    A=rotq(c,'a'); B=rotq(c,'b'); o=c.call('drv_so3_distance',flat(A)+flat(B),1)
    w,th=LN3(c,mm(A,tr(B))); c.eq(o[0],th,'angle of A B^-1',tol=1e-6)
@contract('C05','SE3 distances',['mrob::SE3::distance','mrob::SE3::distance_rotation','mrob::SE3::distance_trans'],SE3,assume=[A_SE3_ln,A_SO3_ln])
def C05_se3(c):
    A=pose(c,'A'); B=pose(c,'B'); o=c.call('drv_se3_distance',flat(A)+flat(B),3)
    AB=mm(A,minv(B)); x=LN6(c,AB); w,th=LN3(c,unhom(AB)[0]); _awaypi(c,th); d=vadd(unhom(A)[1],unhom(B)[1],-1)
    c.eq(o[0],c.sqrt(dot(x,x)),'|ln(A B^-1)|',tol=2e-6); c.eq(o[1],th,'rotation angle',tol=1e-6); c.eq(o[2],c.sqrt(dot(d,d)),'|t_A - t_B|')
@contract('C05','SE3 distances to identity',['mrob::SE3::distance'],SE3,assume=[A_SE3_ln,A_SO3_ln])
def C05_se30(c):
    A=pose(c,'A'); o=c.call('drv_se3_distance0',flat(A),3); x=LN6(c,A); w,th=LN3(c,unhom(A)[0]); _awaypi(c,th); d=unhom(A)[1]
    c.eq(o[0],c.sqrt(dot(x,x)),'|ln A|',tol=2e-6); c.eq(o[1],th,'rotation angle',tol=1e-6); c.eq(o[2],c.sqrt(dot(d,d)),'|t_A|')
# ---------------------------------------------------------------- C06
def _defect(M):
    E=mm(M,tr(M)); return [E[i][j]-int(i==j) for i in range(3) for j in range(i,3)]
def _det3(M): return dot(M[0],cross(M[1],M[2]))
@contract('C06','isSO3 accepts rotations',['mrob::isSO3'],GEOM)
def C06_acc(c):
    o=c.call('drv_isSO3',flat(rotq(c,'q')),1); c.eq(o[0],1,'accepted',tol=0)
def _matnear(c):
    """matrices of every kind: rotation times (1+perturbation), scaled, sheared, reflected, arbitrary"""
    r=c.ex.rng; N=c.w.N
    def gen():
        q=r.randn(N,4); q/=np.sqrt((q*q).sum(1))[:,None]; q=np.where((r.rand(N)<.3)[:,None],np.eye(4)[r.randint(0,4,N)],q)
        x,y,z,w=q.T
        R=np.array([[1-2*(y*y+z*z),2*(x*y-w*z),2*(x*z+w*y)],[2*(x*y+w*z),1-2*(x*x+z*z),2*(y*z-w*x)],[2*(x*z-w*y),2*(y*z+w*x),1-2*(x*x+y*y)]]).transpose(2,0,1).copy()
        k=r.randint(0,10,N); a=10.**r.uniform(-4.5,1,N)*r.choice([-1,1],N)
        I=np.broadcast_to(np.eye(3),(N,3,3)).copy(); S=I.copy()
        i=r.randint(0,3,N); j=(i+1+r.randint(0,2,N))%3; n=np.arange(N)
        S[n,i,j]=np.where((k==1)|(k==9),a,0); S[n,i,i]=np.where(k==2,1+np.abs(a),np.where(k==3,-1,S[n,i,i])); S[n,j,j]=np.where(k==2,1/(1+np.abs(a)),S[n,j,j])
        M=np.where((r.rand(N)<.5)[:,None,None],R@S,S@R)
        M=np.where((k==9)[:,None,None],M/np.sqrt((M*M).sum(2))[:,:,None],M); M=np.where(((k==9)&(r.rand(N)<.5))[:,None,None],M.transpose(0,2,1),M)
        M=np.where((k==4)[:,None,None],M*(1+a)[:,None,None],M); M=np.where((k==5)[:,None,None],r.randn(N,3,3),M)
        M=np.where((k==6)[:,None,None],-R,M); M=np.where((k==7)[:,None,None],R+1e-10*r.randn(N,3,3),M)
        return [M[:,p//3,p%3] for p in range(9)]
    o=c.group('M',9,gen,lambda:[tuple(c.w.rng.randrange(1,P) for _ in range(c.w.NP)) for _ in range(9)],norm=False)
    return rows(o,3,3)
@contract('C06','isSO3 accepts nothing else',['mrob::isSO3'],GEOM)
def C06_rej(c):
    M=_matnear(c); o=c.call('drv_isSO3',flat(M),1); _only(c,o[0],M)
def _only(c,acc,M,dev=()):
    E=_defect(M); c.w.atomize=[c.w.lift(e) for e in E]; c.w.atomize.append(c.w.lift(_det3(M)))
    if c.decide(acc-F(1,2),'>'):
        for i,e in enumerate(E):
            c.holds(e-F(1,10**5),'<=','accepted => |R R^T - I| <= 1e-5 [%d]'%i); c.holds(e+F(1,10**5),'>=','accepted => |R R^T - I| <= 1e-5 [-%d]'%i)
        c.holds(_det3(M),'>','accepted => det > 0'); return True
    if c.mode=='num':
        e=np.max([np.abs(x.num) for x in E],axis=0); good=(e<1e-8)&(_det3(M).num>0)
        for d in dev: good=good&(np.abs(d.num)<1e-9)
        c.path.mask=c.path.mask&good; c.eq(acc,1,'nearly exact rotations accepted',tol=0)
    return False
@contract('C06','isSE3 on valid transforms',['mrob::isSE3','mrob::isSO3'],GEOM)
def C06_se3(c):
    o=c.call('drv_isSE3',flat(pose(c,'A')),1); c.eq(o[0],1,'accepted',tol=0)
@contract('C06','isSE3 accepts nothing else',['mrob::isSE3','mrob::isSO3'],GEOM)
def C06_se3rej(c):
    M=_matnear(c); t=c.vec('t',3); l=[c.real('l%d'%i,1.0,special=([0]*6+[1e-3,-1e-3,3e-5,-3e-5,1,-1]) if i<3 else ([1]*6+[0,.999,1.001,.99995,1.00005,-1])) for i in range(4)]
    if c.decide(c.real('b',1.0),'>'):  # ghost choice: exercise rotations with a wrong last row as well
        M=rotq(c,'q')
    o=c.call('drv_isSE3',flat([list(M[i])+[t[i]] for i in range(3)]+[l]),1)
    dev=[l[0],l[1],l[2],l[3]-1]
    if _only(c,o[0],M,dev):
        for i,d in enumerate(dev): c.holds(d-F(1,10**5),'<=','accepted => last row is 0 0 0 1 [%d]'%i); c.holds(d+F(1,10**5),'>=','accepted => last row is 0 0 0 1 [-%d]'%i)
# ---------------------------------------------------------------- C07
@contract('C07','quat_to_so3',['mrob::quat_to_so3'],GEOM)
def C07_q(c):
    u=unitquat(c,'u'); s=c.real('s',1.0,lo=F(1,1000),wide=True); c.assume(s,'>'); c.hint_sq(s)
    o=c.call('drv_quat2so3',[s*x for x in u],9); c.eq(o,flat(rotq(c,'u')),'matrix of the normalised quaternion',tol=1e-12)
    R=rows(o,3,3); c.eq(mm(R,tr(R)),eye(3),'orthonormal',tol=1e-12); c.eq(_det3(R),1,'determinant 1',tol=1e-12)
@contract('C07','quat_to_so3 sign and scale',['mrob::quat_to_so3'],GEOM)
def C07_q2(c):
    u=unitquat(c,'u'); s=c.real('s',1.0,lo=F(1,1000),wide=True); c.assume(s,'>'); c.hint_sq(s)
    o=c.call('drv_quat2so3',[-s*x for x in u],9); c.eq(o,flat(rotq(c,'u')),'same rotation for -q',tol=1e-12)
@contract('C07','so3_to_quat',['mrob::so3_to_quat'],GEOM)
def C07_r(c):
    u=unitquat(c,'u'); c.hint_sq(*[2*x for x in u])
    o=c.call('drv_so32quat',flat(rotq(c,'u')),4)
    c.one_of(o,[(u,[]),([-x for x in u],[])],'q = [qx qy qz qw] up to sign',tol=1e-7)
    c.eq(dot(o,o),1,'unit norm',tol=1e-7); c.eq(quatR(o),rotq(c,'u'),'converts back to the same rotation',tol=1e-7)
@contract('C07','rpy_to_so3',['mrob::rpy_to_so3'],GEOM)
def C07_rpy(c):
    a=[c.angle('a%d'%i,None) for i in range(3)]; o=c.call('drv_rpy',a,9); e=eye(3)
    R=mm(mm(Rot(c,e[0],a[0]),Rot(c,e[1],a[1])),Rot(c,e[2],a[2])); c.eq(o,flat(R),'Rx(r) Ry(p) Rz(y)',tol=1e-12)
# ---------------------------------------------------------------- C08
def _cov(c): return pose(c,'A'),c.symm('S',6,wide=True),pose(c,'B'),c.symm('Q',6,wide=True)
def _cw(k):
    """curly wedge of the k-th unit tangent vector (rotation first), as {(i,j):value}"""
    w=[int(i==k) for i in range(6)]; W=hat(w[:3]); V=hat(w[3:])
    M=[W[i]+[0,0,0] for i in range(3)]+[V[i]+W[i] for i in range(3)]
    return M
def fourth(S1,S2):
    """S1+S2 + 1/12(A1 S2+S2 A1'+A2 S1+S1 A2') + 1/4 B with A=E[x^ x^], B=E[x1^ x2 x2' x1^'] (curly wedges), straight from the definition"""
    C=[_cw(k) for k in range(6)]; n=range(6)
    def A(S):
        R=[[0]*6 for _ in n]
        for a in n:
            for b in n:
                P=[[sum(C[a][i][k]*C[b][k][j] for k in n) for j in n] for i in n]
                for i in n:
                    for j in n:
                        if P[i][j]: R[i][j]=R[i][j]+P[i][j]*S[a][b]
        return R
    nz=[[(i,k,C[a][i][k]) for i in n for k in n if C[a][i][k]] for a in n]
    B=[[0]*6 for _ in n]
    for a in n:
        for b in n:
            for i,k,x in nz[a]:
                for j,l,y in nz[b]: B[i][j]=B[i][j]+(x*y)*S1[a][b]*S2[k][l]
    T=mm(A(S1),S2); U=mm(A(S2),S1)
    return madd(madd(S1,S2),madd(mscale(F(1,12),madd(madd(T,tr(T)),madd(U,tr(U)))),mscale(F(1,4),B)))
@contract('C08','second order compounding',['mrob::SE3Cov::compound_2nd_order','mrob::SE3Cov::mul','mrob::SE3Cov::operator*','mrob::SE3Cov::SE3Cov','mrob::SE3Cov::cov','mrob::SE3::adj','mrob::SE3::mul'],GEOM,smt=2)
def C08_2(c):
    A,S,B,Q=_cov(c); o=c.call('drv_cov2',flat(A)+flat(S)+flat(B)+flat(Q),52*6); a=adj(A); E=madd(S,mm(mm(a,Q),tr(a))); AB=mm(A,B)
    for k,l in enumerate(['(pose, matrix)','(pose with covariance)','operator*','mul']):
        c.eq(o[52*k:52*k+16],flat(AB),l+' pose'); c.eq(o[52*k+16:52*k+52],flat(E),l+' covariance',rel=True)
    c.eq(o[208:224],flat(A),'copy pose'); c.eq(o[224:260],flat(S),'copy covariance'); c.eq(o[260:276],flat(eye(4)),'default pose'); c.eq(o[276:312],flat(eye(6)),'default covariance')
@contract('C08','fourth order compounding',['mrob::SE3Cov::compound_4th_order','brackets','mrob::SE3::adj'],GEOM,smt=2)
def C08_4(c):
    A,S,B,Q=_cov(c); o=c.call('drv_cov4',flat(A)+flat(S)+flat(B)+flat(Q),104); a=adj(A); S2=mm(mm(a,Q),tr(a)); AB=mm(A,B)
    E=fourth(S,S2)
    for k,l in enumerate(['(pose, matrix)','(pose with covariance)']):
        c.eq(o[52*k:52*k+16],flat(AB),l+' pose'); c.eq(o[52*k+16:52*k+52],flat(E),l+' covariance',rel=True)
    c.eq([o[16+6*i+j] for i in range(6) for j in range(i)],[o[16+6*j+i] for i in range(6) for j in range(i)],'symmetric')
