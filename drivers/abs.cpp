// Entry points for arrays of arbitrary length: raw pointers in.  No logic of their own.
#include "fg_common.hpp"
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
typedef Eigen::Map<const MatX> MX;
DRV drv_abs_arun(const double*X,const double*Y,long n,const double*T0,double*out){SE3 T(rd4(T0));*out++=PCRegistration::arun(MX(X,n,3),MX(Y,n,3),T);Mat4 M=T.T();wr(out,M);}
DRV drv_abs_wpoint(const double*X,const double*Y,const double*w,long n,const double*in,double*out){double tol=*in++;SE3 T(rd4(in));*out++=PCRegistration::weighted_point(MX(X,n,3),MX(Y,n,3),Eigen::Map<const MatX1>(w,n),T,tol);Mat4 M=T.T();wr(out,M);}
DRV drv_abs_gicp(const double*X,const double*Y,const double*A,const double*B,long n,const double*in,double*out){double tol=*in++;SE3 T(rd4(in));*out++=PCRegistration::gicp(MX(X,n,3),MX(Y,n,3),MX(A,3*n,3),MX(B,3*n,3),T,tol);Mat4 M=T.T();wr(out,M);}
DRV drv_abs_plane(const double*X,long n,double*out){MX M(X,n,3);wr(out,estimate_plane(M));wr(out,estimate_normal(M));wr(out,estimate_centroid(M));}
static void wpose(double*&out,PlaneRegistration&r,long i){Mat4 M=r.get_trajectory(i).T();wr(out,M);Mat4 L=r.get_last_pose().T();wr(out,L);}
DRV drv_abs_traj(long n,long i,const double*in,double*out){PlaneRegistration r;r.set_number_planes_and_poses(0,n);SE3 L(rd4(in));Mat61 d=rv6(in);
 r.set_last_pose(L);wpose(out,r,i);r.bookkeep_state();r.dx_=d;r.update_state();wpose(out,r,i);r.update_state_from_bookkeep();wpose(out,r,i);r.reset_solution();wpose(out,r,i);}
DRV drv_abs_rmse(const double*A,const double*B,long n,double*out){PlaneRegistration r;r.set_number_planes_and_poses(0,n);std::vector<SE3>g(n);SE3*t=r.trajectory_->data();for(long k=0;k<n;++k){t[k].T_=Eigen::Map<const Mat4>(A+16*k);g[k].T_=Eigen::Map<const Mat4>(B+16*k);}*out++=r.calculate_poses_rmse(g);}
// plane with two time indices holding n0 and n1 points: moments, stored point i of each, after one more push at time 0
static void fill(std::vector<Mat31>&v,const double*P,long n){v.resize(n);Mat31*q=v.data();for(long k=0;k<n;++k)q[k]=Mat31(P+3*k);}
DRV drv_abs_planeS(const double*P0,long n0,const double*P1,long n1,long i,long j,const double*in,double*out){auto tr=std::make_shared<std::vector<SE3>>();for(int t=0;t<2;++t)tr->push_back(SE3(rd4(in)));Mat31 x=rv3(in);
 Plane p(2);p.set_trajectory(tr);fill(p.get_points(0),P0,n0);fill(p.get_points(1),P1,n1);
 *out++=p.estimate_plane();wr(out,p.get_plane());wr(out,p.accumulatedQ_);for(int t=0;t<2;++t){wr(out,p.matrixS_[t]);wr(out,p.matrixQ_[t]);Mat61 g=p.calculate_gradient(t);wr(out,g);Mat6 h=p.calculate_hessian(t);wr(out,h);}
 p.push_back_point(x,0);wr(out,p.get_points(0).at(i));wr(out,p.get_points(1).at(j));wr(out,p.get_points(0).back());*out++=p.get_points(0).size();*out++=p.get_points(1).size();}
