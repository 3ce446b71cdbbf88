from lib import *
NODES=GEOM+['src/FGraph/node.cpp','src/FGraph/factor.cpp']+['src/FGraph/factors/node%s.cpp'%x for x in('Pose2d','Pose3d','Landmark2d','Landmark3d','Plane4d')]
D=('nodes.cpp',)
# ---------------------------------------------------------------- C09
@contract('C09','wrap_angle',['mrob::wrap_angle'],NODES,D)
def C09_wrap(c):
    a=c.angle('a',None,special=[-math.pi,-math.pi+1e-9,-math.pi-1e-9,3*math.pi,-3*math.pi,100.,-1e3,6.5])
    o=c.call('drv_wrap',[a],1)[0]
    c.holds(o+c.pi,'>=','result >= -pi',slack=0); c.holds(o-c.pi,'<','result < pi',slack=-1e-300)
    if c.mode=='num': c.eq([c.cos(o),c.sin(o)],[c.cos(a),c.sin(a)],'differs by a multiple of 2 pi',tol=1e-9)
    else: c.eq(c.wrap(o),c.wrap(a),'differs by a multiple of 2 pi')
    if c.decide(a+c.pi,'>=') and c.decide(a-c.pi,'<'): c.eq(o,a,'identity on [-pi,pi)',tol=0)
@contract('C09','wrap_angle, huge angles',['mrob::wrap_angle'],NODES,D,nosym=True,bounded='native samples of magnitude up to 1.8e308')
def C09_huge(c):
    r=c.ex.rng; N=c.w.N
    a=c._sym('a',lambda:r.choice([-1,1],N)*10.**r.uniform(2,308,N))
    o=c.call('drv_wrap',[a],1)[0]
    c.holds(o+c.pi,'>=','result >= -pi',slack=0); c.holds(o-c.pi,'<','result < pi',slack=-1e-300)
    from fractions import Fraction as Fr
    two=Fr(2*math.pi); x=[]
    for v,w in zip(a.num,o.num):
        if not math.isfinite(w): x.append(9.); continue
        d=(Fr(v)-Fr(w))%two; x.append(float(min(d,two-d)))
    err=c.w._mk('aux',('c09err',),(),np.array(x)); c.close(err,0,'differs by a multiple of 2 pi (as a double)',ntol=1e-9)
# ---------------------------------------------------------------- C10
def nodecon(name,drv,R,C,D_,plus,mkstate,ctor=None,setw=None,**kw):
    funcs=['mrob::%s::%s'%(name,f) for f in('update','update_from_auxiliary','set_state','set_auxiliary_state','get_state','get_auxiliary_state')]
    def f(c):
        x0=mkstate(c,'x'); s=mkstate(c,'s'); a=mkstate(c,'a'); b=mkstate(c,'b'); dx=c.vec('dx',D_); dy=c.vec('dy',D_)
        mode=1 if c.decide(c.real('mode'),'>') else 0
        n=R*C; o=c.call(drv,[mode]+flat(x0)+flat(s)+flat(a)+flat(b)+dx+dy,2+14*n)
        c.eq(o[:2],[D_,mode],'dimension and mode',tol=0); o=o[2:]
        st=lambda k:o[2*n*k:2*n*k+n]; ax=lambda k:o[2*n*k+n:2*n*k+2*n]
        W=setw or (lambda c,v:v); C0=ctor or (lambda c,v:v)
        c.eq(st(0),flat(C0(c,x0)),'constructor: principal state'); c.eq(ax(0),flat(C0(c,x0)),'constructor: auxiliary state')
        c.eq(ax(1),flat(W(c,a)),'set_auxiliary_state sets it'); c.eq(st(1),st(0),'set_auxiliary_state leaves the principal state',tol=0)
        c.eq(st(2),flat(W(c,s)),'set_state sets it'); c.eq(ax(2),ax(1),'set_state leaves the auxiliary state',tol=0)
        t=1e-6 if name=='NodePose3d' else 1e-9
        c.eq(st(3),flat(plus(c,W(c,s),dx)),'update: state (+) dx',tol=t); c.eq(ax(3),ax(1),'update leaves the auxiliary state',tol=0)
        c.eq(st(4),flat(plus(c,W(c,a),dy)),'update_from_auxiliary: saved (+) dx',tol=t); c.eq(ax(4),ax(1),'update_from_auxiliary leaves the auxiliary state',tol=0)
        c.eq(ax(5),flat(W(c,b)),'second save'); c.eq(st(5),st(4),'second save leaves the principal state',tol=0)
        c.eq(st(6),flat(W(c,b)),'restore'); c.eq(ax(6),ax(5),'restore leaves the auxiliary state',tol=0)
    contract('C10',name+' ('+drv[9:]+')',funcs,NODES,D,**kw)(f)
def lin(c,x,d): return vadd(x,d)
def v(n): return lambda c,k:c.vec(k,n)
def p2(c,k):
    x=c.vec(k,2); return x+[c.angle(k+'h',-math.pi,math.pi-1e-9)]
def wr2(c,x): return [x[0],x[1],c.wrap(x[2])]
nodecon('NodeLandmark2d','drv_node_land2d',2,1,2,lin,v(2))
nodecon('NodeLandmark3d','drv_node_land3d',3,1,3,lin,v(3))
nodecon('NodePose2d','drv_node_pose2d',3,1,3,lambda c,x,d:wr2(c,vadd(x,d)),v(3),ctor=lambda c,x:x,setw=wr2,assume=[A_wrap])
def nrm(c,x):
    n=c.sqrt(dot(x[:3],x[:3])); return [x[0]/n,x[1]/n,x[2]/n,x[3]]
def pl(c,k): return c.unit(k+'n')+[c.real(k+'d')]
def plplus(c,x,d):
    y=vadd(x,d); q=dot(y[:3],y[:3]); c.assume(q-F(1,10**6),'>'); return nrm(c,y)
nodecon('NodePlane4d','drv_node_plane',4,1,4,plplus,pl)
nodecon('NodePose3d','drv_node_pose3d',4,4,6,lambda c,x,d:mm(EXP6(c,d),x),pose,assume=[A_SE3_exp,A_SE3_ln])
nodecon('NodePose3d','drv_node_pose3d_se3',4,4,6,lambda c,x,d:mm(EXP6(c,d),x),pose,assume=[A_SE3_exp,A_SE3_ln])
@contract('C10','NodePlane4d constructor normalises',['mrob::NodePlane4d::NodePlane4d'],NODES,D)
def C10_plctor(c):
    u=c.unit('n'); k=c.real('k',1.0,lo=F(1,100),wide=True); c.assume(k,'>'); c.hint_sq(k); d=c.real('d'); s=pl(c,'s')
    o=c.call('drv_node_plane',[0]+[k*x for x in u]+[d]+s*3+[c.const(0)]*8,2+14*4)
    c.eq(o[2:6],u+[d],'unit normal, distance kept'); c.eq(o[6:10],u+[d],'auxiliary state')
