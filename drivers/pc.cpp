#include "fg_common.hpp"
#include <cstddef>
#include <Eigen/SVD>
#include <Eigen/LU>
#include <Eigen/Eigenvalues>
#include "mrob/pc_registration.hpp"
#include "mrob/estimate_plane.hpp"
#include "mrob/plane.hpp"
#include "mrob/plane_registration.hpp"
static MatX rdx(const double*&in,int n,int m){MatX X(n,m);for(int i=0;i<n;++i)for(int j=0;j<m;++j)X(i,j)=*in++;return X;}
// layout of the Eigen result objects whose compute functions are replaced by their contract
DRV drv_layout(const double*,double*out){typedef Eigen::JacobiSVD<Eigen::Matrix3d> S;typedef Eigen::SelfAdjointEigenSolver<Mat3> E3;typedef Eigen::SelfAdjointEigenSolver<Mat4> E4;
 *out++=offsetof(S,m_matrixU);*out++=offsetof(S,m_matrixV);*out++=offsetof(S,m_singularValues);
 *out++=offsetof(E3,m_eivec);*out++=offsetof(E3,m_eivalues);*out++=offsetof(E4,m_eivec);*out++=offsetof(E4,m_eivalues);
 *out++=offsetof(S,m_isInitialized);*out++=offsetof(S,m_computeFullU);*out++=offsetof(S,m_computeFullV);
 *out++=offsetof(E3,m_isInitialized);*out++=offsetof(E3,m_eigenvectorsOk);*out++=offsetof(E3,m_info);*out++=offsetof(E4,m_isInitialized);*out++=offsetof(E4,m_eigenvectorsOk);*out++=offsetof(E4,m_info);}
// closed form alignment: n, T0, X, Y -> status, T
DRV drv_arun(const double*in,double*out){int n=(int)*in++;SE3 T(rd4(in));MatX X=rdx(in,n,3),Y=rdx(in,n,3);*out++=PCRegistration::arun(X,Y,T);Mat4 M=T.T();wr(out,M);}
// n, tol, T0, X, Y, w -> iterations, T
DRV drv_wpoint(const double*in,double*out){int n=(int)*in++;double tol=*in++;SE3 T(rd4(in));MatX X=rdx(in,n,3),Y=rdx(in,n,3);MatX1 w(n);for(int i=0;i<n;++i)w(i)=*in++;*out++=PCRegistration::weighted_point(X,Y,w,T,tol);Mat4 M=T.T();wr(out,M);}
DRV drv_gicp(const double*in,double*out){int n=(int)*in++;double tol=*in++;SE3 T(rd4(in));MatX X=rdx(in,n,3),Y=rdx(in,n,3),A=rdx(in,3*n,3),B=rdx(in,3*n,3);*out++=PCRegistration::gicp(X,Y,A,B,T,tol);Mat4 M=T.T();wr(out,M);}
// plane / normal / centroid of n points
DRV drv_estplane(const double*in,double*out){int n=(int)*in++;MatX X=rdx(in,n,3);wr(out,estimate_plane(X));wr(out,estimate_normal(X));wr(out,estimate_centroid(X));}
// eigen-factor plane: tl, per t pose, pushes (t, point) -> everything it reports
DRV drv_plane(const double*in,double*out){int tl=(int)*in++;auto tr=std::make_shared<std::vector<SE3>>();for(int t=0;t<tl;++t)tr->push_back(SE3(rd4(in)));
 Plane p(tl);p.set_trajectory(tr);int m=(int)*in++;for(int i=0;i<m;++i){int t=(int)*in++;Mat31 x=rv3(in);p.push_back_point(x,t);}
 *out++=p.estimate_plane();wr(out,p.get_plane());*out++=p.get_error();*out++=p.get_total_number_points();wr(out,p.accumulatedQ_);
 for(int t=0;t<tl;++t){*out++=p.get_number_points(t);wr(out,p.matrixS_[t]);wr(out,p.matrixQ_[t]);wr(out,p.calculate_gradient(t));Mat6 H=p.calculate_hessian(t);wr(out,H);}
 for(int t=0;t<tl;++t)for(auto&x:p.get_points(t))wr(out,x);}
// push, clear, push again
DRV drv_plane_clear(const double*in,double*out){Plane p(2);for(int i=0;i<2;++i){Mat31 x=rv3(in);p.push_back_point(x,i);}p.clear_points();*out++=p.get_total_number_points();Mat31 x=rv3(in);p.push_back_point(x,1);p.push_back_point(x,2);*out++=p.get_number_points(0);*out++=p.get_number_points(1);*out++=p.get_total_number_points();wr(out,p.get_points(1)[0]);}
// changes of the trajectory after estimation: incremental error, re-estimation
DRV drv_plane_incr(const double*in,double*out){auto tr=std::make_shared<std::vector<SE3>>();for(int t=0;t<2;++t)tr->push_back(SE3(rd4(in)));Mat4 N=rd4(in);Plane p(2);p.set_trajectory(tr);for(int i=0;i<4;++i){Mat31 x=rv3(in);p.push_back_point(x,i/2);}
 p.estimate_plane();(*tr)[1]=SE3(N);*out++=p.get_error_incremental(1);*out++=p.get_error();*out++=p.estimate_plane();*out++=p.get_error();}
// a life of a plane: estimates, incremental errors and estimates for new poses, further points, recomputation, reset, clearing
DRV drv_plane_life(const double*in,double*out){int tl=(int)*in++;auto tr=std::make_shared<std::vector<SE3>>();std::vector<SE3>nw;for(int t=0;t<tl;++t)tr->push_back(SE3(rd4(in)));for(int t=0;t<tl;++t)nw.push_back(SE3(rd4(in)));
 Plane p(tl);p.set_trajectory(tr);auto push=[&]{int m=(int)*in++;for(int i=0;i<m;++i){int t=(int)*in++;Mat31 x=rv3(in);p.push_back_point(x,t);}};push();
 *out++=p.estimate_plane();for(int t=0;t<tl;++t){SE3 o=(*tr)[t];(*tr)[t]=nw[t];*out++=p.get_error_incremental(t);(*tr)[t]=o;}*out++=p.get_error();wr(out,p.accumulatedQ_);
 for(int t=0;t<tl;++t){(*tr)[t]=nw[t];*out++=p.estimate_plane_incrementally(t);}wr(out,p.accumulatedQ_);
 push();p.calculate_all_matrices_S(true);*out++=p.estimate_plane();for(int t=0;t<tl;++t)wr(out,p.matrixS_[t]);p.calculate_all_matrices_S();for(int t=0;t<tl;++t)wr(out,p.matrixS_[t]);for(int t=0;t<tl;++t)wr(out,p.get_mean_point(t));
 p.reset();wr(out,p.get_plane());push();*out++=p.estimate_plane();for(int t=0;t<tl;++t)wr(out,p.matrixS_[t]);
 p.clear_points();*out++=p.get_total_number_points();for(int t=0;t<tl;++t)*out++=p.get_number_points(t);p.calculate_all_matrices_S(true);for(int t=0;t<tl;++t)wr(out,p.matrixS_[t]);push();p.reset();*out++=p.estimate_plane();*out++=p.get_total_number_points();}
// interpolated trajectory: n, last pose, dx, ground truth
static void wtr(double*&out,PlaneRegistration&r,int n){for(int t=0;t<n;++t){Mat4 M=r.get_trajectory(t).T();wr(out,M);}Mat4 M=r.get_last_pose().T();wr(out,M);}
DRV drv_traj(const double*in,double*out){int n=(int)*in++;PlaneRegistration r;r.set_number_planes_and_poses(0,n);SE3 L(rd4(in));Mat61 d=rv6(in);
 r.set_last_pose(L);wtr(out,r,n);r.bookkeep_state();r.dx_=d;r.update_state();wtr(out,r,n);r.update_state_from_bookkeep();wtr(out,r,n);r.reset_solution();wtr(out,r,n);}
DRV drv_rmse(const double*in,double*out){int n=(int)*in++;PlaneRegistration r;r.set_number_planes_and_poses(0,n);std::vector<SE3>g;for(int t=0;t<n;++t)r.trajectory_->at(t)=SE3(rd4(in));for(int t=0;t<n;++t)g.push_back(SE3(rd4(in)));*out++=r.calculate_poses_rmse(g);}
// whole objective through the optimiser interface: n poses, last pose, np planes, per plane pushes -> error, gradient, hessian
DRV drv_preg(const double*in,double*out){int n=(int)*in++,np=(int)*in++;PlaneRegistration r;r.set_number_planes_and_poses(np,n);SE3 L(rd4(in));r.set_last_pose(L);
 for(int k=0;k<np;++k){r.add_new_plane(k);int m=(int)*in++;for(int i=0;i<m;++i){int t=(int)*in++;Mat31 x=rv3(in);r.plane_push_back_point(k,t,x);}}
 *out++=r.calculate_error();*out++=r.get_current_error();*out++=r.calculate_total_number_points();}
DRV drv_pgrad(const double*in,double*out){int n=(int)*in++,np=(int)*in++;PlaneRegistration r;r.set_number_planes_and_poses(np,n);SE3 L(rd4(in)),L2(rd4(in));r.set_last_pose(L);
 for(int k=0;k<np;++k){r.add_new_plane(k);int m=(int)*in++;for(int i=0;i<m;++i){int t=(int)*in++;Mat31 x=rv3(in);r.plane_push_back_point(k,t,x);}}
 for(int q=0;q<2;++q){if(q){r.calculate_error();r.calculate_total_number_points();r.set_last_pose(L2);}r.calculate_gradient_hessian();wr(out,r.gradient_);wr(out,r.hessian_);*out++=r.calculate_error();*out++=r.calculate_total_number_points();}}
// very many points, generated by a formula (the rows from 65536 on are different in kind): n, seed [, tol, T0]
static double gen(unsigned long i,unsigned j,unsigned long s){unsigned long h=((i*3+j)*7919+s*104729+1)*2654435761ul&0xfffffffful;h^=h>>15;h=h*2246822519ul&0xfffffffful;h^=h>>13;h=h*3266489917ul&0xfffffffful;h^=h>>16;return h/4294967296.-.5;}
static MatX bigX(unsigned long n,unsigned long s){MatX X(n,3);for(unsigned long i=0;i<n;++i)for(unsigned j=0;j<3;++j)X(i,j)=i<65536?gen(i,j,s):gen(i,j,s)*8+(j==1?4:1);return X;}
static MatX bigY(const MatX&X,unsigned long s){MatX Y(X.rows(),3);for(unsigned long i=0;i<(unsigned long)X.rows();++i)for(unsigned j=0;j<3;++j)Y(i,j)=X(i,(j+1)%3)+gen(i,j,s+1)*(i<65536?.1:6)+(i<65536?0.:j);return Y;}
static MatX bigC(unsigned long n,unsigned long s){MatX C(3*n,3);for(unsigned long i=0;i<n;++i)for(unsigned a=0;a<3;++a)for(unsigned b=0;b<3;++b)C(3*i+a,b)=gen(i,a,s)*gen(i,b,s)+(a==b?.05:0);return C;}
DRV drv_big_arun(const double*in,double*out){unsigned long n=in[0],s=in[1];MatX X=bigX(n,s),Y=bigY(X,s);SE3 T;*out++=PCRegistration::arun(X,Y,T);Mat4 M=T.T();wr(out,M);}
DRV drv_big_wpoint(const double*in,double*out){unsigned long n=in[0],s=in[1];double tol=in[2];const double*q=in+3;SE3 T(rd4(q));MatX X=bigX(n,s),Y=bigY(X,s);MatX1 w(n);for(unsigned long i=0;i<n;++i)w(i)=gen(i,0,s+5)+.6;*out++=PCRegistration::weighted_point(X,Y,w,T,tol);Mat4 M=T.T();wr(out,M);}
DRV drv_big_gicp(const double*in,double*out){unsigned long n=in[0],s=in[1];double tol=in[2];const double*q=in+3;SE3 T(rd4(q));MatX X=bigX(n,s),Y=bigY(X,s),A=bigC(n,s+7),B=bigC(n,s+9);*out++=PCRegistration::gicp(X,Y,A,B,T,tol);Mat4 M=T.T();wr(out,M);}
DRV drv_big_estplane(const double*in,double*out){unsigned long n=in[0],s=in[1];MatX X=bigX(n,s);X.col(2)*=.05;wr(out,estimate_plane(X));wr(out,estimate_normal(X));wr(out,estimate_centroid(X));}
