// Entry points for arrays of arbitrary length: raw pointers in, ghost sinks out.  No logic of their own.
#include "common.hpp"
extern "C" __attribute__((weak,noinline)) void ghost_mat(const double*,long,long){}
typedef Eigen::Map<const MatX> MX;
DRV drv_abs_transform(const double*X,long n,const double*T,double*out){SE3 A(rd4(T));MatX P=MX(X,n,3);MatX Q=A.transform_array(P);ghost_mat(Q.data(),Q.rows(),Q.cols());}
