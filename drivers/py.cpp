// The binding sources themselves (mrobpy/*.cpp), compiled against a recording stand-in of pybind11.
#include "graph.hpp"
#include "mrobpy/SE3py.cpp"
#include "mrobpy/FGraphPy.cpp"
#include "mrobpy/PCRegistrationPy.cpp"
#include "mrobpy/PCPlanesPy.cpp"
#include "mrobpy/mrobPy.cpp"
using py::Val;
static int ORD=0;
struct Py{py::Reg r;py::module m;Py(){py::REG=&r;}~Py(){py::REG=0;ORD=0;}};
// a numpy array: contiguous (as C orders it), Fortran order, or a view with gaps

static Val A(const double*&in,int r,int c=1){Val v;v.kind=1;v.r=r;v.c=c;v.rs=ORD==1?1:ORD==2?2*c+3:c;v.cs=ORD==1?r:ORD==2?2:1;int n=(r-1)*v.rs+(c-1)*v.cs+1;if(n<1)n=1;v.d=new double[n];for(int i=0;i<n;++i)v.d[i]=-77;for(int i=0;i<r;++i)for(int j=0;j<c;++j)v.d[i*v.rs+j*v.cs]=*in++;return v;}
static Val Nn(double x){Val v;v.kind=2;v.num=x;return v;}
template<class T>static Val O(T&x){Val v;v.kind=3;v.obj=(void*)&x;v.cls=&py::Tag<T>::id;return v;}
template<class T>static const char*C(){return &py::Tag<T>::id;}
// result of a binding: 1 and its value (arrays and rigid transforms as numbers), or 0 when nothing accepts these arguments
static void put(double*&o,const Val&v){
 if(v.kind==1)for(int i=0;i<v.r;++i)for(int j=0;j<v.c;++j)*o++=v.at(i,j);
 if(v.kind==2)*o++=v.num;
 if(v.kind==3&&py::derives(v.cls,C<SE3>())){Mat4 M=((SE3*)v.obj)->T();wr(o,M);}
 if(v.kind==3&&v.cls==C<SE3Cov>()){Mat6 M=((SE3Cov*)v.obj)->cov();wr(o,M);}
 if(v.kind==3&&v.cls==C<SO3>()){Mat3 M=((SO3*)v.obj)->R();wr(o,M);}
 if(v.kind==4){*o++=v.list->size();for(auto&x:*v.list)put(o,x);}}
static Val call(double*&o,const char*c,const char*n,std::initializer_list<Val>a){Val v;bool k=py::invoke(c,n,a.begin(),(int)a.size(),v);*o++=k?1:0;return v;}
#define B(c,n,...) put(o,call(o,c,n,{__VA_ARGS__}))
DRV drv_py_se3(const double*in,double*o){Py p;init_geometry(p.m);const double*q=in;SE3 T(rd4(q)),U(rd4(q));const double*y=q;Mat31 pt=rv3(q);const char*c=C<SE3>();Mat4 M;
 B(c,"T",O(T));M=T.T();wr(o,M); B(c,"R",O(T));wr(o,T.R()); B(c,"t",O(T));wr(o,T.t()); B(c,"mul",O(T),O(U));M=T.mul(U).T();wr(o,M); B(c,"__mul__",O(T),O(U));wr(o,M);
 B(c,"inv",O(T));M=T.inv().T();wr(o,M); B(c,"adj",O(T));wr(o,T.adj()); const double*z=y;B(c,"transform",O(T),A(z,3));wr(o,T.transform(pt));}
DRV drv_py_se3_new(const double*in,double*o){Py p;init_geometry(p.m);const double*q=in;SE3 T(rd4(q));Mat61 xi=rv6(q);SO3 R(rd3(q));Mat31 t=rv3(q);const char*c=C<SE3>();Mat4 M;
 B(c,"__init__");M=SE3().T();wr(o,M); q=in;B(c,"__init__",A(q,4,4));M=T.T();wr(o,M); B(c,"__init__",A(q,6));M=SE3(xi).T();wr(o,M); B(c,"__init__",O(T));M=T.T();wr(o,M); q+=9;B(c,"__init__",O(R),A(q,3));M=SE3(R,t).T();wr(o,M);}
DRV drv_py_se3_upd(const double*in,double*o){Py p;init_geometry(p.m);const double*q=in;SE3 T(rd4(q));const double*y=q;Mat61 xi=rv6(q);const char*c=C<SE3>(),*nm[]={"update","update_lhs","update_rhs"};
 for(int k=0;k<3;++k){SE3 X(T),Y(T);q=y;Val v=call(o,c,nm[k],{O(X),A(q,6)});if(k<2)Y.update_lhs(xi);else Y.update_rhs(xi);Mat4 M=X.T();wr(o,M);M=Y.T();wr(o,M);}}
DRV drv_py_se3_ln(const double*in,double*o){Py p;init_geometry(p.m);SE3 T(rd4(in));B(C<SE3>(),"Ln",O(T));wr(o,T.ln_vee());}
DRV drv_py_se3_dist(const double*in,double*o){Py p;init_geometry(p.m);const char*c=C<SE3>();int k=(int)*in++,d=(int)*in++;SE3 T(rd4(in)),U(rd4(in));
 if(k==0){if(d)B(c,"distance",O(T));else B(c,"distance",O(T),O(U));*o++=d?T.distance():T.distance(U);}
 if(k==1){if(d)B(c,"distance_rotation",O(T));else B(c,"distance_rotation",O(T),O(U));*o++=d?T.distance_rotation():T.distance_rotation(U);}
 if(k==2){if(d)B(c,"distance_trans",O(T));else B(c,"distance_trans",O(T),O(U));*o++=d?T.distance_trans():T.distance_trans(U);}}
DRV drv_py_se3_arr(const double*in,double*o){Py p;init_geometry(p.m);int n=(int)*in++;SE3 T(rd4(in));const double*q=in;MatX P(n,3);for(int i=0;i<n;++i)for(int j=0;j<3;++j)P(i,j)=*in++;B(C<SE3>(),"transform_array",O(T),A(q,n,3));wr(o,T.transform_array(P));}
DRV drv_py_so3(const double*in,double*o){Py p;init_geometry(p.m);const double*q=in;SO3 R(rd3(q)),S(rd3(q));Mat31 w=rv3(q);const char*c=C<SO3>();
 B(c,"__init__");wr(o,SO3().R()); q=in;B(c,"__init__",A(q,3,3));wr(o,R.R()); q=in+18;B(c,"__init__",A(q,3));wr(o,SO3(w).R()); B(c,"__init__",O(R));wr(o,R.R());
 B(c,"R",O(R));wr(o,R.R()); B(c,"mul",O(R),O(S));wr(o,R.mul(S).R()); B(c,"inv",O(R));wr(o,R.inv().R()); B(c,"adj",O(R));wr(o,R.adj());
 const char*nm[]={"update","update_lhs","update_rhs"};for(int k=0;k<3;++k){SO3 X(R),Y(R);q=in+18;call(o,c,nm[k],{O(X),A(q,3)});if(k<2)Y.update_lhs(w);else Y.update_rhs(w);wr(o,X.R());wr(o,Y.R());}}
DRV drv_py_so3_ln(const double*in,double*o){Py p;init_geometry(p.m);SO3 R(rd3(in)),S(rd3(in));int k=(int)*in;if(k){B(C<SO3>(),"distance",O(R),O(S));*o++=R.distance(S);}else{B(C<SO3>(),"Ln",O(R));wr(o,R.ln_vee());}}
DRV drv_py_free(const double*in,double*o){Py p;init_geometry(p.m);const double*q=in;Mat31 w=rv3(q);Mat61 x=rv6(q);Mat41 h=rv4(q);q=in;
 B(0,"hat3",A(q,3));wr(o,hat3(w)); const double*z=q;B(0,"hat6",A(q,6));wr(o,hat6(x)); B(0,"curley_wedge",A(z,6));wr(o,curly_wedge(x)); B(0,"quat_to_so3",A(q,4));wr(o,quat_to_so3(h)); z=in;B(0,"rpy_to_so3",A(z,3));wr(o,rpy_to_so3(w));}
DRV drv_py_quat(const double*in,double*o){Py p;init_geometry(p.m);const double*q=in;Mat3 R=rd3(in);B(0,"so3_to_quat",A(q,3,3));wr(o,so3_to_quat(R));}
DRV drv_py_is(const double*in,double*o){Py p;init_geometry(p.m);const double*q=in;Mat3 R=rd3(in);B(0,"isSO3",A(q,3,3));*o++=isSO3(R)?1:0;}
DRV drv_py_is4(const double*in,double*o){Py p;init_geometry(p.m);const double*q=in;Mat4 T=rd4(in);B(0,"isSE3",A(q,4,4));*o++=isSE3(T)?1:0;}
// pose and covariance with another one: the pose part (T of a SE3Cov, inherited) follows the covariance
#define BC(c,n,d,...) {Val v=call(o,c,n,{__VA_ARGS__});put(o,v);SE3Cov e=d;wr(o,e.cov());}
DRV drv_py_cov(const double*in,double*o){Py p;init_geometry(p.m);int k=(int)*in++;const double*q=in;SE3 T(rd4(q));Mat6 S=rd6(q);SE3 U(rd4(q));const double*z=q;Mat6 V=rd6(q);SE3Cov a(T,S),b(U,V);const char*c=C<SE3Cov>();Val r;SE3Cov e;
 if(k==0){r=call(o,c,"__init__",{});e=SE3Cov();} if(k==1){q=in+16;r=call(o,c,"__init__",{O(T),A(q,6,6)});e=a;} if(k==2){r=call(o,c,"__init__",{O(b)});e=b;}
 if(k==3){r=call(o,c,"compound_2nd_order",{O(a),O(b)});e=a.compound_2nd_order(b);} if(k==4){r=call(o,c,"compound_2nd_order",{O(a),O(U),A(z,6,6)});e=a.compound_2nd_order(U,V);}
 if(k==5){r=call(o,c,"compound_4th_order",{O(a),O(b)});e=a.compound_4th_order(b);} if(k==6){r=call(o,c,"compound_4th_order",{O(a),O(U),A(z,6,6)});e=a.compound_4th_order(U,V);}
 if(k==7){r=call(o,c,"mul",{O(a),O(b)});e=a.mul(b);} if(k==8){r=call(o,c,"__mul__",{O(a),O(b)});e=a*b;}
 if(r.kind!=3)return;B(c,"cov",r);wr(o,e.cov());B(c,"T",r);Mat4 M=e.T();wr(o,M);}
// ---- the graph.  robust kernel at construction (or the default), two nodes of the kinds of the factor, one factor
static Val NewG(double*&o,int rob){if(rob<0)return call(o,C<FGraphPy>(),"__init__",{});return call(o,C<FGraphPy>(),"__init__",{Nn(rob)});}
static const char*NODE[]={"add_node_pose_2d","add_node_pose_3d","add_node_landmark_2d","add_node_landmark_3d","add_node_plane_4d"};
static NP direct(int k,const double*in,Node::nodeMode m){switch(k){case 0:return NP(new NodePose2d(rv3(in),m));case 1:return NP(new NodePose3d(SE3(rd4(in)),m));case 2:return NP(new NodeLandmark2d(rv2(in),m));case 3:return NP(new NodeLandmark3d(rv3(in),m));}return NP(new NodePlane4d(rv4(in),m));}
static const int ND[]={3,16,2,3,4};
static Val arg(int k,const double*in){if(k==1)return O(*new SE3(rd4(in)));return A(in,ND[k]);}
static void pn(Node&n,double*&o){*o++=n.get_id();*o++=n.get_dim();*o++=n.get_node_mode();state(n,o);}
DRV drv_py_node(const double*in,double*o){Py p;init_FGraph(p.m);int k=(int)*in++,mode=(int)*in++;Val g=NewG(o,-1);if(g.kind!=3)return;FGraphPy&G_=*(FGraphPy*)g.obj;const char*c=C<FGraphPy>();
 for(int i=0;i<2;++i){Val v=mode<0?call(o,c,NODE[k],{g,arg(k,in)}):call(o,c,NODE[k],{g,arg(k,in),Nn(mode)});put(o,v);*o++=i;NP n=direct(k,in,mode==1?Node::ANCHOR:Node::STANDARD);n->set_id(i);if((int)G_.nodes_.size()!=i+1)return;pn(*G_.nodes_[i],o);pn(*n,o);}
 B(c,"number_nodes",g);*o++=2;}
// kind of factor, order (1: origin has the larger id), flag (-1 omitted), kernel (-1 default); states, observation, information
static const int FA[]={0,0,0,1,1,0,1,1,1},FB[]={-1,0,0,-1,1,2,3,4,-1};
static const int FDm[]={3,3,3,6,6,2,3,4,1};
static const char*FN[]={"add_factor_1pose_2d","add_factor_2poses_2d","add_factor_2poses_2d_odom","add_factor_1pose_3d","add_factor_2poses_3d","add_factor_1pose_1landmark_2d","add_factor_1pose_1landmark_3d","add_factor_1pose_1plane_4d","add_factor_1pose_point2plane"};
DRV drv_py_factor(const double*in,double*o){Py p;init_FGraph(p.m);int k=(int)*in++,rev=(int)*in++,fl=(int)*in++,rb=(int)*in++;ORD=rb<0?0:rb==2?1:2;double u=*in++;Val g=NewG(o,rb);if(g.kind!=3)return;FGraphPy&G_=*(FGraphPy*)g.obj;const char*c=C<FGraphPy>();
 bool two=FB[k]>=0;const double*sa=in;in+=ND[FA[k]];const double*sb=in;if(two)in+=ND[FB[k]];
 int ia=two&&rev?1:0,ib=1-ia;NP N[2],M[2];N[ia]=direct(FA[k],sa,Node::STANDARD);M[ia]=direct(FA[k],sa,Node::STANDARD);if(two){N[ib]=direct(FB[k],sb,Node::STANDARD);M[ib]=direct(FB[k],sb,Node::STANDARD);}
 for(int i=0;i<(two?2:1);++i){G_.add_node(N[i]);M[i]->set_id(i);}
 auto rt=rb<0?Factor::QUADRATIC:(Factor::robustFactorType)rb;FP f;Val r;const double*q=in;Val a=Nn(ia),b=Nn(ib);bool upd=fl>0;
 if(k==0){r=call(o,c,FN[k],{g,A(q,3),a,A(q,3,3)});Mat31 z=rv3(in);Mat3 W=rd3(in);f=FP(new Factor1Pose2d(z,M[0],W,rt));}
 if(k==1){Val z_=A(q,3),W_=A(q,3,3);r=fl<0?call(o,c,FN[k],{g,z_,a,b,W_}):call(o,c,FN[k],{g,z_,a,b,W_,Nn(fl)});Mat31 z=rv3(in);Mat3 W=rd3(in);f=FP(new Factor2Poses2d(z,M[ia],M[ib],W,upd,rt));}
 if(k==2){Val z_=A(q,3),W_=A(q,3,3);r=call(o,c,FN[k],{g,z_,a,b,W_});Mat31 z=rv3(in);Mat3 W=rd3(in);f=FP(new Factor2Poses2dOdom(z,M[ia],M[ib],W,true,rt));}
 if(k==3){SE3 z(rd4(in));q+=16;r=call(o,c,FN[k],{g,O(z),a,A(q,6,6)});Mat6 W=rd6(in);f=FP(new Factor1Pose3d(z,M[0],W,rt));}
 if(k==4){SE3 z(rd4(in));q+=16;Val W_=A(q,6,6);r=fl<0?call(o,c,FN[k],{g,O(z),a,b,W_}):call(o,c,FN[k],{g,O(z),a,b,W_,Nn(fl)});Mat6 W=rd6(in);f=FP(new Factor2Poses3d(z,M[ia],M[ib],W,upd,rt));}
 if(k==5){Val z_=A(q,2),W_=A(q,2,2);r=fl<0?call(o,c,FN[k],{g,z_,a,b,W_}):call(o,c,FN[k],{g,z_,a,b,W_,Nn(fl)});Mat21 z=rv2(in);Mat2 W=rd2(in);f=FP(new Factor1Pose1Landmark2d(z,M[ia],M[ib],W,upd,rt));}
 if(k==6){Val z_=A(q,3),W_=A(q,3,3);r=fl<0?call(o,c,FN[k],{g,z_,a,b,W_}):call(o,c,FN[k],{g,z_,a,b,W_,Nn(fl)});Mat31 z=rv3(in);Mat3 W=rd3(in);f=FP(new Factor1Pose1Landmark3d(z,M[ia],M[ib],W,upd,rt));}
 if(k==7){Val z_=A(q,4),W_=A(q,4,4);r=call(o,c,FN[k],{g,z_,a,b,W_});Mat41 z=rv4(in);Mat4 W=rd4(in);f=FP(new Factor1Pose1Plane4d(z,M[ia],M[ib],W,rt));}
 if(k==8){Val x_=A(q,3),y_=A(q,3),m_=A(q,3),W_=A(q,1,1);r=call(o,c,FN[k],{g,x_,y_,m_,a,W_});Mat31 x=rv3(in),y=rv3(in),m=rv3(in);Mat1 W;W<<*in++;f=FP(new Factor1PosePoint2Plane(x,y,m,M[0],W,rt));}
 *o++=r.kind==2?r.num:0;B(c,"number_factors",g);if(!f||G_.factors_.size()!=1)return;
 Factor&h=*G_.factors_[0];tail(h,o);*o++=h.evaluate_robust_weight(u);for(int i=0;i<(two?2:1);++i)state(*N[i],o);
 tail(*f,o);*o++=f->evaluate_robust_weight(u);for(int i=0;i<(two?2:1);++i)state(*M[i],o);}
// many factors in one graph: for each its id, neighbours, dimension, kernel weight
DRV drv_py_many(const double*in,double*o){Py p;init_FGraph(p.m);int d3=(int)*in++,rb=(int)*in++;double u=*in++;Val g=NewG(o,rb);if(g.kind!=3)return;FGraphPy&G_=*(FGraphPy*)g.obj;const char*c=C<FGraphPy>();auto rt=rb<0?Factor::QUADRATIC:(Factor::robustFactorType)rb;
 static const int nk[2][4]={{0,2,0,2},{1,3,4,1}};static const int fk[2][7]={{0,1,5,2,5,0,1},{3,4,6,8,7,3,4}},fa[2][7]={{2,2,0,0,2,0,0},{3,3,3,0,0,0,0}},fb[2][7]={{-1,0,1,2,3,-1,2},{-1,0,1,-1,2,-1,3}};static const int zn[]={3,3,3,16,16,2,3,4,9};
 for(int i=0;i<4;++i){Val v=call(o,c,NODE[nk[d3][i]],{g,arg(nk[d3][i],in)});put(o,v);*o++=i;in+=ND[nk[d3][i]];}
 for(int i=0;i<7;++i){int k=fk[d3][i],n=FDm[k];double*w=new double[36];for(int j=0;j<n*n;++j)w[j]=j%(n+1)==0?1:0;const double*q=w;Val W=A(q,n,n),a=Nn(fa[d3][i]),b=Nn(fb[d3][i]),r;q=in;
  if(k==3)r=call(o,c,FN[k],{g,O(*new SE3(rd4(in))),a,W});else if(k==4)r=call(o,c,FN[k],{g,O(*new SE3(rd4(in))),a,b,W});else if(k==8){Val x=A(q,3),y=A(q,3),m=A(q,3);r=call(o,c,FN[k],{g,x,y,m,a,W});in+=9;}
  else{Val z=A(q,zn[k]);in+=zn[k];r=fb[d3][i]<0?call(o,c,FN[k],{g,z,a,W}):call(o,c,FN[k],{g,z,a,b,W});}
  if((int)G_.factors_.size()!=i+1)return;Factor&f=*G_.factors_[i];auto&N=*f.get_neighbour_nodes();int x=fa[d3][i],y=fb[d3][i];*o++=r.kind==2?r.num:f.get_id();*o++=i;*o++=f.get_id();*o++=i;*o++=f.get_dim();*o++=n;*o++=N.size();*o++=y<0?1:2;
  *o++=N[0]->get_id();*o++=y<0?x:(x<y?x:y);*o++=y<0?-1.0:(double)N[1]->get_id();*o++=y<0?-1:(x<y?y:x);*o++=f.evaluate_robust_weight(u);MFactor h(1,1,MatX::Ones(1,1),MatX1::Zero(1),MatX::Ones(1,1),0,rt,std::vector<NP>(1,G_.nodes_[0]));*o++=h.evaluate_robust_weight(u);}
 B(c,"number_factors",g);*o++=7;B(c,"number_nodes",g);*o++=4;}
// solve: which arguments reach FGraphSolve::solve (flag: how many are given), on a linear graph of one node
static void one(FGraph&g,const double*in){NP n(new NodeLandmark2d(rv2(in)));g.add_node(n);Mat31 z3;z3<<0,0,0;std::vector<NP>l;l.push_back(n);Mat2 J=rd2(in);Mat21 z=rv2(in);Mat2 W=Mat2::Identity();FP f(new MFactor(2,2,J,z,W,0,Factor::QUADRATIC,l));g.add_factor(f);}
DRV drv_py_solve(const double*in,double*o){Py p;init_FGraph(p.m);int k=(int)*in++;double m=*in++,it=*in++,la=*in++,to=*in++;Val g=NewG(o,-1);if(g.kind!=3)return;FGraphPy&G_=*(FGraphPy*)g.obj;const char*c=C<FGraphPy>();FGraphSolve D(FGraphSolve::ADJ);one(G_,in);one(D,in);
 if(k==0){call(o,c,"solve",{g});D.solve(FGraphSolve::GN,30,1e-6,1e-2);} if(k==1){call(o,c,"solve",{g,Nn(m)});D.solve((FGraphSolve::optimMethod)(int)m,30,1e-6,1e-2);}
 if(k==2){call(o,c,"solve",{g,Nn(m),Nn(it)});D.solve((FGraphSolve::optimMethod)(int)m,(uint_t)it,1e-6,1e-2);} if(k==4){call(o,c,"solve",{g,Nn(m),Nn(it),Nn(la),Nn(to)});D.solve((FGraphSolve::optimMethod)(int)m,(uint_t)it,la,to);}
 state(*G_.nodes_[0],o);state(*D.nodes_[0],o);}
// Levenberg-Marquardt on a scripted error sequence: m arguments given; -> steps, final token, updates, lambda at exit, K x (lambda, token), twice
static void scr(FGraph&g,FGraphSolve*s,std::vector<double>&E,NP&n,TFactor*&t){n=NP(new TNode());g.add_node(n);t=new TFactor(&E,s,std::vector<NP>(1,n));FP f(t);g.add_factor(f);}
static void scro(double*&out,FGraphSolve&g,NP&n,TFactor*t,int K){*out++=t->log.size()/2;*out++=n->get_state()(0,0);*out++=((TNode*)n.get())->nu;*out++=g.lambda_;for(int i=0;i<2*K;++i)*out++=i<(int)t->log.size()?t->log[i]:-7;}
DRV drv_py_lm(const double*in,double*o){Py p;init_FGraph(p.m);int k=(int)*in++;double it=*in++,la=*in++,to=*in++;int K=(int)*in++;std::vector<double>E(in,in+K+1);Val g=NewG(o,-1);if(g.kind!=3)return;FGraphPy&G_=*(FGraphPy*)g.obj;const char*c=C<FGraphPy>();FGraphSolve D(FGraphSolve::ADJ);NP n,l;TFactor*t,*u;scr(G_,&G_,E,n,t);scr(D,&D,E,l,u);double m=FGraphSolve::LM;
 if(k==1){call(o,c,"solve",{g,Nn(m)});D.solve(FGraphSolve::LM,30,1e-6,1e-2);}
 if(k==2){call(o,c,"solve",{g,Nn(m),Nn(it)});D.solve(FGraphSolve::LM,(uint_t)it,1e-6,1e-2);} if(k==3){call(o,c,"solve",{g,Nn(m),Nn(it),Nn(la)});D.solve(FGraphSolve::LM,(uint_t)it,la,1e-2);} if(k==4){call(o,c,"solve",{g,Nn(m),Nn(it),Nn(la),Nn(to)});D.solve(FGraphSolve::LM,(uint_t)it,la,to);}
 scro(o,G_,n,t,K);scro(o,D,l,u,K);}
// errors, states and matrices of a graph reported through the bindings
DRV drv_py_report(const double*in,double*o){Py p;init_FGraph(p.m);Val g=NewG(o,-1);if(g.kind!=3)return;FGraphPy&G_=*(FGraphPy*)g.obj;const char*c=C<FGraphPy>();one(G_,in);G_.build_problem();G_.chi2(true);NP n=G_.nodes_[0];Mat21 y;in+=8;y=rv2(in);n->set_state(y);
 B(c,"chi2",g,Nn(0));*o++=G_.chi2(false); B(c,"get_chi2_array",g);wr(o,G_.get_chi2_array()); B(c,"chi2",g);*o++=G_.chi2(true); B(c,"get_chi2_array",g);wr(o,G_.get_chi2_array()); B(c,"chi2",g,Nn(1));*o++=G_.chi2(true);
 B(c,"get_information_matrix",g);wr(o,MatX(G_.get_information_matrix())); B(c,"get_adjacency_matrix",g);wr(o,MatX(G_.get_adjacency_matrix())); B(c,"get_W_matrix",g);wr(o,MatX(G_.get_W_matrix())); B(c,"get_vector_b",g);wr(o,G_.get_vector_b());
 B(c,"get_estimated_state",g);auto s=G_.get_estimated_state();*o++=s.size();for(auto&x:s)wr(o,x);}
// named constants: every enumeration value of the module
static long named(Py&p,const char*ty,const char*n){for(auto&e:p.r.es)if(py::streq(e.ty,ty)&&py::streq(e.name,n))return e.v;return -99;}
DRV drv_py_enums(const double*in,double*o){Py p;pybind11_init_mrob(p.m);
 const char*a="FGraph.optimMethod",*b="FGraph.robustFactorType",*c="FGraph.nodeMode",*d="PlaneRegistration.SolveMethod",*e="optimMethod";
 *o++=named(p,a,"GN");*o++=FGraphSolve::GN;*o++=named(p,a,"LM");*o++=FGraphSolve::LM;
 *o++=named(p,b,"QUADRATIC");*o++=Factor::QUADRATIC;*o++=named(p,b,"CAUCHY");*o++=Factor::CAUCHY;*o++=named(p,b,"HUBER");*o++=Factor::HUBER;*o++=named(p,b,"MCCLURE");*o++=Factor::MCCLURE;*o++=named(p,b,"RANSAC");*o++=Factor::RANSAC;
 *o++=named(p,c,"NODE_STANDARD");*o++=Node::STANDARD;*o++=named(p,c,"NODE_ANCHOR");*o++=Node::ANCHOR;*o++=named(p,c,"NODE_SCHUR_MARGI");*o++=Node::SCHUR_MARGI;
 typedef PlaneRegistration::SolveMode S;
 *o++=named(p,d,"INITIALIZE");*o++=(int)S::INITIALIZE;*o++=named(p,d,"GRADIENT_BENGIOS_NAG");*o++=(int)S::GRADIENT_BENGIOS_NAG;*o++=named(p,d,"GRADIENT_ALL_POSES");*o++=(int)S::GRADIENT_ALL_POSES;*o++=named(p,d,"GN_HESSIAN");*o++=(int)S::GN_HESSIAN;*o++=named(p,d,"GN_CLAMPED_HESSIAN");*o++=(int)S::GN_CLAMPED_HESSIAN;*o++=named(p,d,"LM_SPHER");*o++=(int)S::LM_SPHER;*o++=named(p,d,"LM_ELLIP");*o++=(int)S::LM_ELLIP;
 *o++=named(p,e,"NEWTON_RAPHSON");*o++=Optimizer::NEWTON_RAPHSON;*o++=named(p,e,"LEVENBERG_MARQUARDT_SPHER");*o++=Optimizer::LEVENBERG_MARQUARDT_SPHER;*o++=named(p,e,"LEVENBERG_MARQUARDT_ELLIP");*o++=Optimizer::LEVENBERG_MARQUARDT_ELLIP;}
// ---- registration: k 0 arun, 1 gicp, 2 weighted, 3 plane, 4 normal, 5 centroid
DRV drv_py_reg(const double*in,double*o){Py p;init_PCRegistration(p.m);ORD=(int)*in++;int k=(int)*in++,n=(int)*in++;const double*q=in;Val x=A(q,n,3),y=A(q,n,3);MatX X(n,3),Y(n,3);for(int i=0;i<3*n;++i)X(i/3,i%3)=*in++;for(int i=0;i<3*n;++i)Y(i/3,i%3)=*in++;
 SE3 T;Mat4 M;
 if(k==0){B(0,"arun",x,y);PCRegistration::arun(X,Y,T);M=T.T();wr(o,M);}
 if(k==1){Val a=A(q,3*n,3),b=A(q,3*n,3);MatX Ax(3*n,3),Bx(3*n,3);for(int i=0;i<9*n;++i)Ax(i/3,i%3)=*in++;for(int i=0;i<9*n;++i)Bx(i/3,i%3)=*in++;B(0,"gicp",x,y,a,b);PCRegistration::gicp(X,Y,Ax,Bx,T);M=T.T();wr(o,M);}
 if(k==2){Val w=A(q,n);MatX1 Wt(n);for(int i=0;i<n;++i)Wt(i)=*in++;B(0,"weighted",x,y,w);PCRegistration::weighted_point(X,Y,Wt,T);M=T.T();wr(o,M);}
 if(k==3){B(0,"estimate_plane",x);wr(o,estimate_plane(X));} if(k==4){B(0,"estimate_normal",x);wr(o,estimate_normal(X));} if(k==5){B(0,"estimate_centroid",x);wr(o,estimate_centroid(X));}}
// ---- plane registration: planes and points pushed by id and time, poses
DRV drv_py_planes(const double*in,double*o){Py p;init_PCPlanes(p.m);const char*c=C<PlaneRegistration>();Val g=call(o,c,"__init__",{});if(g.kind!=3)return;PlaneRegistration&P=*(PlaneRegistration*)g.obj;PlaneRegistration D;
 call(o,c,"set_number_planes_and_poses",{g,Nn(2),Nn(3)});D.set_number_planes_and_poses(2,3);call(o,c,"add_plane",{g,Nn(4)});call(o,c,"add_plane",{g,Nn(7)});D.add_new_plane(4);D.add_new_plane(7);
 static const int id[]={4,7,4,4},t[]={0,1,2,0};for(int i=0;i<4;++i){const double*q=in;Mat31 x=rv3(in);call(o,c,"plane_push_back_point",{g,Nn(id[i]),Nn(t[i]),A(q,3)});D.plane_push_back_point(id[i],t[i],x);}
 B(c,"get_number_poses",g);*o++=D.get_number_poses();
 for(int k=0;k<2;++k)for(int s=0;s<3;++s){auto&a=P.planes_.find(k?7:4)->second->get_points(s);auto&b=D.planes_.find(k?7:4)->second->get_points(s);*o++=a.size();*o++=b.size();for(unsigned i=0;i<2;++i){Mat31 z=Mat31::Zero();if(i<a.size())z=a[i];wr(o,z);z.setZero();if(i<b.size())z=b[i];wr(o,z);}}
 for(int s=0;s<3;++s){Val v=call(o,c,"get_point_cloud",{g,Nn(s)});auto b=D.get_point_cloud(s);*o++=v.kind==4?v.list->size():-1;*o++=b.size();}
 Mat4 M;B(c,"get_trajectory",g,Nn(1));M=D.get_trajectory(1).T();wr(o,M);}
DRV drv_py_pose(const double*in,double*o){Py p;init_PCPlanes(p.m);const char*c=C<PlaneRegistration>();Val g=call(o,c,"__init__",{});if(g.kind!=3)return;PlaneRegistration D;
 call(o,c,"set_number_planes_and_poses",{g,Nn(2),Nn(4)});D.set_number_planes_and_poses(2,4);SE3 T(rd4(in));Mat4 M;call(o,c,"initialize_last_pose_solution",{g,O(T)});D.set_last_pose(T);
 B(c,"get_last_pose",g);M=D.get_last_pose().T();wr(o,M);for(int t=0;t<4;++t){B(c,"get_trajectory",g,Nn(t));M=D.get_trajectory(t).T();wr(o,M);}
 call(o,c,"reset_solution",{g});D.reset_solution();B(c,"get_last_pose",g);M=D.get_last_pose().T();wr(o,M);}
// error through the bindings against the direct call; solve with its defaults
static void pts(Py&p,Val g,PlaneRegistration&D,const double*in){double*o=0;double t8[8];const char*c=C<PlaneRegistration>();o=t8;call(o,c,"set_number_planes_and_poses",{g,Nn(1),Nn(2)});D.set_number_planes_and_poses(1,2);call(o,c,"add_plane",{g,Nn(3)});D.add_new_plane(3);
 for(int i=0;i<4;++i){const double*q=in;Mat31 x=rv3(in);o=t8;call(o,c,"plane_push_back_point",{g,Nn(3),Nn(i%2),A(q,3)});D.plane_push_back_point(3,i%2,x);}}
DRV drv_py_perr(const double*in,double*o){Py p;init_PCPlanes(p.m);const char*c=C<PlaneRegistration>();Val g=call(o,c,"__init__",{});if(g.kind!=3)return;PlaneRegistration D;pts(p,g,D,in);B(c,"get_error",g);*o++=D.get_current_error();}
DRV drv_py_psolve(const double*in,double*o){Py p;init_PCPlanes(p.m);const char*c=C<PlaneRegistration>();int k=(int)*in++;Val g=call(o,c,"__init__",{});if(g.kind!=3)return;PlaneRegistration D;pts(p,g,D,in);typedef PlaneRegistration::SolveMode S;double m=(int)S::LM_SPHER;
 if(k==0){call(o,c,"solve",{g});D.solve(S::GRADIENT_BENGIOS_NAG,false);} if(k==1){call(o,c,"solve",{g,Nn(m)});D.solve(S::LM_SPHER,false);} if(k==2){call(o,c,"solve",{g,Nn(m),Nn(1)});D.solve(S::LM_SPHER,true);}
 Mat4 M;B(c,"get_last_pose",g);M=D.get_last_pose().T();wr(o,M);}
