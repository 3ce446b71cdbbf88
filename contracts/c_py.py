"""C27: the functions the Python module registers are the C++ operations they are named after.
The binding sources mrobpy/*.cpp are compiled unchanged against drivers/pystub (a recording stand-in of pybind11, an assumed contract of
that dependency); each registered function is called with symbolic arguments and compared with the operation called directly."""
from lib import *
from c_factors import FACT,p2,pl
from c_graph import A_prof
from lib import _install
PY=FACT+['src/FGraph/factors/factor1PosePoint2Plane.cpp','src/FGraph/factor_graph.cpp','src/FGraph/factor_graph_solve.cpp','src/common/optimizer.cpp','src/common/time_profiling.cpp']+['src/PCRegistration/%s.cpp'%x for x in('arun','gicp','weight_point','estimate_plane','plane','plane_registration','create_points')]
D=('py.cpp','pc.cpp'); AS=[A_SE3_exp,A_SE3_ln,A_SO3_exp,A_SO3_ln,A_wrap]
NOTE='pybind11 registers and calls what it is given, with its documented conversions, defaults and overload order (drivers/pystub, assumed contract of the dependency)'
def py(name,funcs,**kw):
    kw.setdefault('assume',AS); kw.setdefault('numN',120); kw['assumptions']=[NOTE]+kw.get('assumptions',[])
    return contract('C27',name,funcs,PY,D,stub=True,**kw)
def pairs(c,o,spec,i=0):
    """each entry: accepted?, value through the binding, value of the direct call"""
    for l,n in spec:
        c.flag(o[i],1,l+': registered and callable with these arguments'); c.eq(o[i+1:i+1+n],o[i+1+n:i+1+2*n],l+': same value as the C++ operation',tol=0); i+=1+2*n
    return i
def size(spec): return sum(1+2*n for l,n in spec)
S_=lambda *x:['init_geometry']+['mrob::SE3::'+y for y in x]
def simple(name,funcs,drv,spec,args,**kw):
    def f(c): o=c.call(drv,args(c),size(spec)); pairs(c,o,spec)
    py(name,funcs,**kw)(f)
X6=lambda c:c.vec('x',6)
simple('SE3: T R t mul * inv adj transform',S_('T','R','t','mul','inv','adj','transform'),'drv_py_se3',[('T',16),('R',9),('t',3),('mul',16),('*',16),('inv',16),('adj',36),('transform',3)],lambda c:flat(pose(c,'A'))+flat(pose(c,'B'))+c.vec('p',3))
simple('SE3: constructors',S_('SE3'),'drv_py_se3_new',[('SE3()',16),('SE3(4x4)',16),('SE3(xi)',16),('SE3(SE3)',16),('SE3(SO3,t)',16)],lambda c:flat(pose(c,'A'))+X6(c)+flat(rotq(c,'R'))+c.vec('t',3))
simple('SE3: update, update_lhs, update_rhs',S_('update_lhs','update_rhs'),'drv_py_se3_upd',[('update',16),('update_lhs',16),('update_rhs',16)],lambda c:flat(pose(c,'A'))+X6(c))
simple('SE3: Ln',S_('ln_vee'),'drv_py_se3_ln',[('Ln',6)],lambda c:flat(pose(c,'A')))
for _k,_n in enumerate(('distance','distance_rotation','distance_trans')):
    for _d in(0,1): simple('SE3: %s%s'%(_n,', argument omitted' if _d else ''),S_(_n),'drv_py_se3_dist',[(_n,1)],lambda c,_k=_k,_d=_d:[_k,_d]+flat(pose(c,'A'))+flat(pose(c,'B')))
for _n in(1,4): simple('SE3: transform_array, %d points'%_n,S_('transform_array'),'drv_py_se3_arr',[('transform_array',3*_n)],lambda c,_n=_n:[_n]+flat(pose(c,'A'))+c.vec('p',3*_n))
simple('SO3',['init_geometry']+['mrob::SO3::'+y for y in('SO3','R','mul','inv','adj','update_lhs','update_rhs')],'drv_py_so3',[('SO3()',9),('SO3(3x3)',9),('SO3(w)',9),('SO3(SO3)',9),('R',9),('mul',9),('inv',9),('adj',9),('update',9),('update_lhs',9),('update_rhs',9)],lambda c:flat(rotq(c,'R'))+flat(rotq(c,'S'))+c.vec('w',3))
for _k,_n,_z in((0,'Ln',3),(1,'distance',1)): simple('SO3: '+_n,['init_geometry','mrob::SO3::'+('ln_vee','distance')[_k]],'drv_py_so3_ln',[(_n,_z)],lambda c,_k=_k:flat(rotq(c,'R'))+flat(rotq(c,'S'))+[_k])
simple('hat3 hat6 curley_wedge quat_to_so3 rpy_to_so3',['init_geometry']+['mrob::'+x for x in('hat3','hat6','curly_wedge','quat_to_so3','rpy_to_so3')],'drv_py_free',[('hat3',9),('hat6',16),('curley_wedge',36),('quat_to_so3',9),('rpy_to_so3',9)],lambda c:c.vec('w',3)+c.vec('x',6)+c.vec('q',4))
simple('so3_to_quat',['init_geometry','mrob::so3_to_quat'],'drv_py_quat',[('so3_to_quat',4)],lambda c:flat(rotq(c,'R')))
def near(c,n):
    if c.mode=='num' and not c.ex.overrides:
        r=c.ex.rng; N=c.w.N; M=flat(rotq(c,'R') if n==3 else pose(c,'R')); k=r.rand(N)
        for e in M: e=c.w.lift(e)
        return [c.w.lift(e)+c.real('d%d'%i,1e-7) for i,e in enumerate(M)]
    if n==4: k=c.vec('m',8); return flat([[1,0,0,k[0]],[0,1,0,k[1]],[0,0,k[2],k[3]],k[4:8]])
    return c.vec('m',n*n)
simple('isSO3',['init_geometry','mrob::isSO3'],'drv_py_is',[('isSO3',1)],lambda c:near(c,3))
simple('isSE3',['init_geometry','mrob::isSE3'],'drv_py_is4',[('isSE3',1)],lambda c:near(c,4))
for _k,_n in enumerate(('constructor','constructor (pose, covariance)','copy constructor','compound_2nd_order','compound_2nd_order (pose, covariance)','compound_4th_order','compound_4th_order (pose, covariance)','mul','*')):
    def _f(c,_k=_k,_n=_n):
        o=c.call('drv_py_cov',[_k]+flat(pose(c,'A'))+c.vec('s',36)+flat(pose(c,'B'))+c.vec('v',36),1+size([('',36),('',16)]))
        c.flag(o[0],1,_n+': registered and callable with these arguments'); pairs(c,o,[('cov of '+_n,36),('T of '+_n,16)],1)
    py('SE3Cov: '+_n,['init_geometry','mrob::SE3Cov::'+_n.split(' (')[0]])(_f)
# ------------------------------------------------------------- the graph
NM=('node_pose_2d','node_pose_3d','node_landmark_2d','node_landmark_3d','node_plane_4d'); ND=(3,16,2,3,4)
def nst(c,k,n):
    if k==0: return p2(c,n)
    if k==1: return flat(pose(c,n))
    if k==4: return pl(c,n)
    return c.vec(n,ND[k],2.0)
for _k,_n in enumerate(NM):
    for _m in(-1,0,1):
        def _f(c,_k=_k,_m=_m):
            n=ND[_k]; o=c.call('drv_py_node',[_k,_m]+nst(c,_k,'x'),1+2*(1+2+2*(3+n))+3); c.flag(o[0],1,'graph constructed'); i=1
            for _ in range(2):
                c.flag(o[i],1,'registered and callable with these arguments'); c.eq(o[i+1],o[i+2],'id returned',tol=0); i+=3
                c.eq(o[i:i+3+n],o[i+3+n:i+6+2*n],'node added: id, dimension, mode and state as given',tol=0); i+=6+2*n
            pairs(c,o,[('number_nodes',1)],i)
        py('add_%s, %s'%(_n,{-1:'mode omitted',0:'standard',1:'anchor'}[_m]),['FGraphPy::add_'+_n,'init_FGraph'])(_f)
FN=('add_factor_1pose_2d','add_factor_2poses_2d','add_factor_2poses_2d_odom','add_factor_1pose_3d','add_factor_2poses_3d','add_factor_1pose_1landmark_2d','add_factor_1pose_1landmark_3d','add_factor_1pose_1plane_4d','add_factor_1pose_point2plane')
FA=(0,0,0,1,1,0,1,1,1); FB=(-1,0,0,-1,1,2,3,4,-1); FD=(3,3,3,6,6,2,3,4,1); FJ=(3,6,6,6,12,5,9,10,6)
def pyf(k,rev,fl,rb):
    def f(c):
        two=FB[k]>=0; d=FD[k]; j=FJ[k]; A=nst(c,FA[k],'a'); Bs=nst(c,FB[k],'b') if two else []
        z={3:lambda:flat(pose(c,'z')),4:lambda:flat(pose(c,'z')),7:lambda:pl(c,'z'),8:lambda:c.vec('z',6,2.)+c.unit('n'),5:lambda:[c.real('r',2.),c.angle('b',-math.pi,math.pi-1e-9)]}.get(k,lambda:c.vec('z',3,1.))()
        u=c.real('u',1.5); ns=ND[FA[k]]+(ND[FB[k]] if two else 0); nn=2 if two else 1; t=1+nn+2+1+d+2+d*j+1+d*d+1+ns
        if k==5: c.nodiv=True
        o=c.call('drv_py_factor',[k,rev,fl,rb,u]+A+Bs+z+c.vec('W',d*d),1+1+1+2+2*t)
        c.flag(o[0],1,'graph constructed'); c.flag(o[1],1,FN[k]+': registered and callable with these arguments'); c.eq(o[2],0,'id of the first factor',tol=0); c.flag(o[3],1,'number_factors'); c.eq(o[4],1,'one factor added',tol=0)
        c.eq(o[5:5+t],o[5+t:],'the factor of that class with these arguments: nodes, residual, Jacobian, error, information, kernel weight, node states',tol=0)
    return f
for _k,_n in enumerate(FN):
    for _rev in((0,1) if FB[_k]>=0 and _k!=2 else (0,)):
        for _fl in((-1,0,1) if _k in(1,4,5,6) else (-1,)):
            for _rb in((-1,2) if (_rev,_fl)!=(1,0) else (4,)):
                py('%s%s%s, kernel %s'%(_n,', origin created last' if _rev else '',{-1:'',0:', flag false',1:', flag true'}[_fl],{-1:'default',2:'Huber or as numbered 2',4:'as numbered 4'}[_rb]),['FGraphPy::'+_n,'init_FGraph'],numN=60)(pyf(_k,_rev,_fl,_rb))
NK=((0,2,0,2),(1,3,4,1)); FK=((0,1,5,2,5,0,1),(3,4,6,8,7,3,4)); ZN=(3,3,3,16,16,2,3,4,9)
for _d in(0,1):
    for _rb in(-1,0,1,2,3,4):
        def _f(c,_d=_d,_rb=_rb):
            c.nodiv=True; a=[_d,_rb,c.real('u',1.5)]
            for i,k in enumerate(NK[_d]): a+=nst(c,k,'n%d_'%i)
            for i,k in enumerate(FK[_d]): a+=flat(pose(c,'z%d_'%i)) if k in(3,4) else pl(c,'z%d_'%i) if k==7 else c.vec('z%d_'%i,ZN[k],1.)
            o=c.call('drv_py_many',a,1+4*3+7*15+6); c.flag(o[0],1,'graph constructed'); i=1
            for j in range(4): c.flag(o[i],1,'registered and callable with these arguments'); c.eq(o[i+1],o[i+2],'node id returned',tol=0); i+=3
            for j in range(7):
                c.flag(o[i],1,'registered and callable with these arguments'); i+=1
                for l in('id returned','id','observation dimension','number of nodes','first node','second node','weight of the kernel of the graph'): c.eq(o[i],o[i+1],'factor %d: %s'%(j,l),tol=0); i+=2
            pairs(c,o,[('number_factors',1),('number_nodes',1)],i)
        py('several factors in one graph, %dD, kernel %s'%(2+_d,_rb if _rb>=0 else 'default'),['FGraphPy::'+FN[k] for k in sorted(set(FK[_d]))],bounded='7 factors, 4 nodes',numN=60)(_f)
for _k in(0,1,2,4):
    for _m in((0,1) if _k else (0,)):
        def _f(c,_k=_k,_m=_m):
            J=c.mat('J',2,2); H=mm(tr(J),J); c.posdef(H)
            o=c.call('drv_py_solve',[_k,_m,3,F(1,50),F(1,1000)]+c.vec('x',2)+flat(J)+c.vec('z',2),2+4)
            c.flag(o[0],1,'graph constructed'); c.flag(o[1],1,'solve: callable with these arguments'); c.eq(o[2:4],o[4:6],'same solution as FGraphSolve::solve with these arguments and the documented defaults',tol=0)
        py('solve, %d arguments%s'%(_k,', LM' if _m else ', GN'),['FGraphSolve::solve','init_FGraph'],bounded='one linear node',assume=AS+[A_prof],nosym=bool(_m))(_f)
def pylm(k,small):
    def f(c):
        K=42; la=c.real('la',1.0,lo=F(1,10**6)); to=c.real('to',.3,lo=F(1,10**9)); E=[c.real('E%d'%i,1.0) for i in range(K+1)]
        if c.mode=='num':     # mostly decreasing errors: runs that use all iterations, or that end at the tolerance
            r=c.ex.rng; N=c.w.N; d=r.choice([-.5,.0099,.0101,.02,.3],size=(N,K+1),p=[.1]+([.02,.48,.2,.2] if small else [0,.01,.09,.8])); v=50-np.cumsum(d,1)
            for i,e in enumerate(E): e.num[:]=v[:,i]
        it=[3,25,37][k%3]; n=4+2*K
        o=c.call('drv_py_lm',[k,it,la,to,K]+E,2+2*n); c.flag(o[0],1,'graph constructed'); c.flag(o[1],1,'solve: callable with these arguments')
        c.eq(o[2:2+n],o[2+n:],'same iterations, damping, tolerance and states as FGraphSolve::solve with these arguments and the documented defaults (30, 1e-6, 1e-2)',tol=0)
    return f
for _k in(1,2,3,4):
    for _s in(0,1): py('solve LM, %d arguments, error sequence %d'%(_k,_s),['FGraphSolve::solve','init_FGraph'],bounded='native, 42 errors',assume=AS+[A_prof],nosym=True,numN=200)(pylm(_k,_s))
def A_solve(c,m):
    c.log=[]
    def h(m,a): c.log.append(list(a[1:])); return 0
    _install(m,c,lambda d:d.startswith(('mrob::FGraphSolve::solve(','mrob::PlaneRegistration::solve(')),h)
for _k in(0,1,2,4):
    def _f(c,_k=_k):
        la=c.real('la',1.0); to=c.real('to',1.0); o=c.call('drv_py_solve',[_k,1,3,la,to]+c.vec('x',2)+c.vec('J',4)+c.vec('z',2),2+4); c.flag(o[0],1,'graph constructed'); c.flag(o[1],1,'solve: callable with these arguments')
        c.flag(c.const(len(c.log)),2,'FGraphSolve::solve reached once'); k=lambda v:c.const(v) if isinstance(v,int) else c.w.lift(v)
        if len(c.log)==2: c.eq([k(v) for v in c.log[0]],[k(v) for v in c.log[1]],'arguments received by FGraphSolve::solve: those given, defaults GN, 30, 1e-6, 1e-2',tol=0)
    py('solve: arguments received, %d given'%_k,['FGraphSolve::solve','init_FGraph'],nonum=True,assume=AS+[A_prof,A_solve])(_f)
REP=[('chi2(False)',1),('get_chi2_array',1),('chi2()',1),('get_chi2_array',1),('chi2(True)',1),('get_information_matrix',4),('get_adjacency_matrix',4),('get_W_matrix',4),('get_vector_b',2)]
@py('chi2, chi2 array, states and matrices',['init_FGraph'],bounded='one node',assume=AS+[A_prof])
def _(c):
    o=c.call('drv_py_report',c.vec('x',2)+c.vec('J',4)+c.vec('z',2)+c.vec('y',2),1+size(REP)+1+2*3); c.flag(o[0],1,'graph constructed'); i=pairs(c,o,REP,1); c.flag(o[i],1,'get_estimated_state'); c.eq(o[i+1:i+4],o[i+4:i+7],'get_estimated_state',tol=0)
@py('named constants',['init_FGraph','init_PCPlanes','pybind11_init_mrob'])
def _(c):
    o=c.call('drv_py_enums',[0],2*20); 
    for i in range(20): c.eq(o[2*i],o[2*i+1],'enumeration value %d'%i,tol=0)
# ------------------------------------------------------------- registration and planes
from c_pc import E_svd,E_inv6,E_eig,E_gemm
def reg(k,n,od):
    def f(c):
        r=c.ex.rng; m={1:18*n,2:n}.get(k,0); z=16 if k<3 else (4 if k==3 else 3); c.svd_sign=1
        X=c.vec('X',3*n); Y=c.vec('Y',3*n) 
        if k==1: ex=[v for i in range(2*n) for v in flat([[1+i*F(1,10),F(1,10),0],[F(1,10),1,0],[0,0,2]])]
        elif k==2: ex=[F(1,2)+F(i,10) for i in range(n)]
        else: ex=[]
        o=c.call('drv_py_reg',[od,k,n]+X+Y+ex,1+2*z); pairs(c,o,[(('arun','gicp','weighted','estimate_plane','estimate_normal','estimate_centroid')[k],z)])
    return f
for _k in range(6):
  for _o in range(3): py('registration: %s%s'%(('arun','gicp','weighted','estimate_plane','estimate_normal','estimate_centroid')[_k],('',', Fortran order',', array views with gaps')[_o]),['init_PCRegistration',('arun_solve','gicp_solve','weighted_solve','estimate_plane_py','mrob::estimate_normal','mrob::estimate_centroid')[_k]],assume=AS+[E_svd,E_inv6,E_eig,E_gemm],nosym=_k in(1,2),bounded='5 points',numN=60,assumptions=['Eigen decompositions assumed'])(reg(_k,5,_o))
@py('plane registration: points by plane and time',['init_PCPlanes'],bounded='2 planes, 3 poses, 4 points',assume=AS+[E_eig])
def _(c):
    o=c.call('drv_py_planes',c.vec('p',12),8+3+6*14+9+33)
    for i,l in enumerate(('PlaneRegistration','set_number_planes_and_poses','add_plane','add_plane')+('plane_push_back_point',)*4): c.flag(o[i],1,l+': registered and callable with these arguments')
    i=pairs(c,o,[('get_number_poses',1)],8)
    for k in range(6):
        c.eq(o[i],o[i+1],'number of points of the plane at that time',tol=0)
        for j in range(2): a=i+2+6*j; c.eq(o[a:a+3],o[a+3:a+6],'point stored',tol=0)
        i+=14
    for k in range(3): c.flag(o[i],1,'get_point_cloud: callable'); c.eq(o[i+1],o[i+2],'get_point_cloud: number of points',tol=0); i+=3
    pairs(c,o,[('get_trajectory',16)],i)
@py('plane registration: poses',['init_PCPlanes'],bounded='4 poses')
def _(c):
    o=c.call('drv_py_pose',flat(pose(c,'A')),3+33*5+1+33)
    for i,l in enumerate(('PlaneRegistration','set_number_planes_and_poses','initialize_last_pose_solution')): c.flag(o[i],1,l+': registered and callable with these arguments')
    i=pairs(c,o,[('get_last_pose',16)]+[('get_trajectory(%d)'%t,16) for t in range(4)],3)
    c.flag(o[i],1,'reset_solution: callable'); pairs(c,o,[('get_last_pose after reset_solution',16)],i+1)
for _k in(0,1,2):
    def _f(c,_k=_k):
        o=c.call('drv_py_psolve',[_k]+c.vec('p',12),2+33); c.flag(o[0],1,'PlaneRegistration'); c.flag(o[1],1,'solve: callable with these arguments')
        if c.mode=='num': pairs(c,o,[('last pose',16)],2); return
        c.flag(c.const(len(c.log)),2,'PlaneRegistration::solve reached once')
        if len(c.log)==2: c.eq([c.const(v) for v in c.log[0]],[c.const(v) for v in c.log[1]],'arguments received by PlaneRegistration::solve: those given, defaults GRADIENT_BENGIOS_NAG, False',tol=0)
    py('plane registration: solve, %d arguments'%_k,['init_PCPlanes'],assume=AS+[A_prof,A_solve],numN=10)(_f)
@py('plane registration: error',['init_PCPlanes'],bounded='native, one plane, 4 points',nosym=True)
def _(c):
    o=c.call('drv_py_perr',c.vec('p',12),1+3); c.flag(o[0],1,'PlaneRegistration'); pairs(c,o,[('get_error',1)],1)
