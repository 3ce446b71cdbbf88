#include "fg_common.hpp"
#include "mrob/factors/factor1PosePoint2Plane.hpp"
static void ids(NP&a,NP&b,const double*&in){int rev=(int)*in++;a->set_id(rev?7:3);b->set_id(rev?3:7);}
// arguments: flags (rev, init, robust), states, observation, information
DRV drv_f_pose2d(const double*in,double*out){NP n(new NodePose2d(rv3(in)));n->set_id(5);Mat31 z=rv3(in);Mat3 W=rd3(in);Factor1Pose2d f(z,n,W);state(*n,out);tail(f,out);}
DRV drv_f_pose3d(const double*in,double*out){int se3=(int)*in++;NP n(new NodePose3d(rd4(in)));n->set_id(5);Mat4 z=rd4(in);Mat6 W=rd6(in);
 if(se3){Factor1Pose3d f(SE3(z),n,W);state(*n,out);tail(f,out);}else{Factor1Pose3d f(z,n,W);state(*n,out);tail(f,out);}}
DRV drv_f_2pose2d(const double*in,double*out){const double*fl=in;in+=2;NP a(new NodePose2d(rv3(in))),b(new NodePose2d(rv3(in)));const double*q=fl;ids(a,b,q);bool u=(int)*q;Mat31 z=rv3(in);Mat3 W=rd3(in);
 Factor2Poses2d f(z,a,b,W,u);state(*a,out);state(*b,out);tail(f,out);}
DRV drv_f_odom(const double*in,double*out){const double*fl=in;in+=2;NP a(new NodePose2d(rv3(in))),b(new NodePose2d(rv3(in)));const double*q=fl;ids(a,b,q);bool u=(int)*q;Mat31 z=rv3(in);Mat3 W=rd3(in);
 Factor2Poses2dOdom f(z,a,b,W,u);state(*a,out);state(*b,out);tail(f,out);}
DRV drv_f_2pose3d(const double*in,double*out){const double*fl=in;in+=3;NP a(new NodePose3d(rd4(in))),b(new NodePose3d(rd4(in)));const double*q=fl;ids(a,b,q);bool u=(int)*q++;int se3=(int)*q;Mat4 z=rd4(in);Mat6 W=rd6(in);
 if(se3){Factor2Poses3d f(SE3(z),a,b,W,u);state(*a,out);state(*b,out);tail(f,out);}else{Factor2Poses3d f(z,a,b,W,u);state(*a,out);state(*b,out);tail(f,out);}}
DRV drv_f_land2d(const double*in,double*out){const double*fl=in;in+=2;NP a(new NodePose2d(rv3(in))),b(new NodeLandmark2d(rv2(in)));const double*q=fl;ids(a,b,q);bool u=(int)*q;Mat21 z=rv2(in);Mat2 W=rd2(in);
 Factor1Pose1Landmark2d f(z,a,b,W,u);state(*a,out);state(*b,out);tail(f,out);}
DRV drv_f_land3d(const double*in,double*out){const double*fl=in;in+=2;NP a(new NodePose3d(rd4(in))),b(new NodeLandmark3d(rv3(in)));const double*q=fl;ids(a,b,q);bool u=(int)*q;Mat31 z=rv3(in);Mat3 W=rd3(in);
 Factor1Pose1Landmark3d f(z,a,b,W,u);state(*a,out);state(*b,out);tail(f,out);}
DRV drv_f_plane(const double*in,double*out){const double*fl=in;in+=1;NP a(new NodePose3d(rd4(in))),b(new NodePlane4d(rv4(in)));const double*q=fl;ids(a,b,q);Mat41 z=rv4(in);Mat4 W=rd4(in);
 Factor1Pose1Plane4d f(z,a,b,W);state(*a,out);state(*b,out);tail(f,out);}
DRV drv_f_pt2plane(const double*in,double*out){NP n(new NodePose3d(rd4(in)));n->set_id(5);Mat31 x=rv3(in),y=rv3(in),m=rv3(in);Mat1 W;W<<*in++;
 Factor1PosePoint2Plane f(x,y,m,n,W);state(*n,out);tail(f,out);}
DRV drv_robust(const double*in,double*out){Factor::robustFactorType t=rob(in);NP n(new NodePose2d(Mat31::Zero()));Factor1Pose2d f(Mat31::Zero(),n,Mat3::Identity(),t);*out++=f.evaluate_robust_weight(*in);*out++=f.evaluate_robust_weight(in[1]);}
// history: the factor must follow its nodes, also when they change after construction
DRV drv_f_follow(const double*in,double*out){NP a(new NodePose2d(rv3(in))),b(new NodePose2d(rv3(in)));a->set_id(0);b->set_id(1);Mat31 z=rv3(in);Mat3 W=rd3(in);Factor2Poses2d f(z,a,b,W);
 f.evaluate_residuals();f.evaluate_chi2();a->set_state(rv3(in));b->set_state(rv3(in));f.evaluate_residuals();f.evaluate_chi2();MatX1 r=f.get_residual();for(int i=0;i<3;++i)*out++=r(i);*out++=f.get_chi2();}
// the factor after a history of states against a fresh factor: kind, target first?, states before (a, b), states now (a, b), observation -> residual, Jacobian, chi2 of both
static const int NT[9][2]={{0,-1},{0,0},{0,0},{0,2},{1,3},{1,4},{1,-1},{1,-1},{1,1}};
static NP mkn(int t,const double*&in){switch(t){case 0:return NP(new NodePose2d(rv3(in)));case 1:return NP(new NodePose3d(rd4(in)));case 2:return NP(new NodeLandmark2d(rv2(in)));case 3:return NP(new NodeLandmark3d(rv3(in)));default:return NP(new NodePlane4d(rv4(in)));}}
static void setn(Node&n,int t,const double*&in){switch(t){case 0:{n.set_state(rv3(in));return;}case 1:{n.set_state(rd4(in));return;}case 2:{n.set_state(rv2(in));return;}case 3:{n.set_state(rv3(in));return;}default:n.set_state(rv4(in));}}
static Factor*mkf(int k,NP&a,NP&b,const double*in){switch(k){case 0:return new Factor1Pose2d(rv3(in),a,Mat3::Identity()*2.);case 1:return new Factor2Poses2d(rv3(in),a,b,Mat3::Identity()*2.);case 2:return new Factor2Poses2dOdom(rv3(in),a,b,Mat3::Identity()*2.,false);
 case 3:return new Factor1Pose1Landmark2d(rv2(in),a,b,Mat2::Identity()*2.);case 4:return new Factor1Pose1Landmark3d(rv3(in),a,b,Mat3::Identity()*2.);case 5:return new Factor1Pose1Plane4d(rv4(in),a,b,Mat4::Identity()*2.);
 case 6:{Mat31 x=rv3(in),y=rv3(in),m=rv3(in);return new Factor1PosePoint2Plane(x,y,m,a,Mat1::Identity()*2.);}case 7:return new Factor1Pose3d(rd4(in),a,Mat6::Identity()*2.);default:return new Factor2Poses3d(rd4(in),a,b,Mat6::Identity()*2.);}}
static void evalf(Factor&f,double*&out){f.evaluate_residuals();f.evaluate_jacobians();f.evaluate_chi2();MatX1 r=f.get_residual();MatX J=f.get_jacobian();wr(out,r);wr(out,J);*out++=f.get_chi2();}
DRV drv_f_hist(const double*in,double*out){int k=(int)*in++,rev=(int)*in++;NP a=mkn(NT[k][0],in),b,a2,b2;if(NT[k][1]>=0)b=mkn(NT[k][1],in);const double*now=in;a2=mkn(NT[k][0],in);if(NT[k][1]>=0)b2=mkn(NT[k][1],in);
 for(NP*n:{&a,&a2})(*n)->set_id(rev?7:3);if(b)for(NP*n:{&b,&b2})(*n)->set_id(rev?3:7);
 std::shared_ptr<Factor>f(mkf(k,a,b,in)),g(mkf(k,a2,b2,in));double buf[200],*q=buf;evalf(*f,q);setn(*a,NT[k][0],now);if(b)setn(*b,NT[k][1],now);evalf(*f,out);evalf(*g,out);}
