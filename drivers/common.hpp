// Call drivers: pass doubles to the real functions and back.  No logic of their own.
#pragma once
#include "mrob/SO3.hpp"
#include "mrob/SE3.hpp"
#include "mrob/SE3cov.hpp"
using namespace mrob;
#define DRV extern "C" __attribute__((noinline)) void
template<int R,int C> static inline Eigen::Matrix<double,R,C> rd(const double*&p){Eigen::Matrix<double,R,C> M;for(int i=0;i<R;++i)for(int j=0;j<C;++j)M(i,j)=*p++;return M;}
template<class D> static inline void wr(double*&p,const Eigen::MatrixBase<D>&M_){typename D::PlainObject M=M_;for(int i=0;i<M.rows();++i)for(int j=0;j<M.cols();++j)*p++=M(i,j);}
static inline Mat3 rd3(const double*&p){return rd<3,3>(p);}
static inline Mat4 rd4(const double*&p){return rd<4,4>(p);}
static inline Mat6 rd6(const double*&p){return rd<6,6>(p);}
static inline Mat31 rv3(const double*&p){return rd<3,1>(p);}
static inline Mat61 rv6(const double*&p){return rd<6,1>(p);}
