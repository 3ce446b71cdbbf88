#include "fg_common.hpp"
#include "mrob/optimizer.hpp"
// Ghost operations: the problem behind the optimiser, given by contracts only (never defined for the verifier).
#define GH extern "C" __attribute__((noinline,weak,visibility("default")))
GH double gh_error(){asm volatile("");return 0;}
GH void gh_step(long flag,double la){asm volatile("");}
GH void gh_save(){asm volatile("");}
GH void gh_restore(){asm volatile("");}
GH double gh_fid(double d){asm volatile("");return d;}
struct AOpt:public Optimizer{
 AOpt(double tol):Optimizer(tol,1e-5){}
 matData_t calculate_error()override{return gh_error();}
 void calculate_gradient_hessian()override{}
 void update_state()override{}
 void bookkeep_state()override{gh_save();}
 void update_state_from_bookkeep()override{gh_restore();}
 uint_t optimize_newton_raphson_one_iteration(bool l)override{gh_step(l?1:0,l?lambda_:0.0);return 1;}
 matData_t calculate_model_fidelity(matData_t d)override{return gh_fid(d);}
};
DRV drv_cut_solve(long m,unsigned M,const double*in,double*out){AOpt o(in[1]);out[0]=o.solve((Optimizer::optimMethod)m,M,in[0]);}
