#include "fg_common.hpp"
#include "mrob/factor_graph_solve.hpp"
// addresses of the members the assumed contract of optimize_gauss_newton overwrites
extern "C" __attribute__((noinline,weak,visibility("default"))) void gh_bind(double*la,double*dx,double*b,double*L){asm volatile("");}
DRV drv_cut_lm(unsigned M,const double*in,double*out){FGraphSolve g;g.dx_=MatX1::Zero(1);g.b_=MatX1::Zero(1);g.L_.resize(1,1);g.L_.insert(0,0)=1;g.L_.makeCompressed();gh_bind(&g.lambda_,g.dx_.data(),g.b_.data(),g.L_.valuePtr());out[0]=0;g.solve(FGraphSolve::LM,M,in[0],in[1]);}
