#include "fg_common.hpp"
#include "mrob/optimizer.hpp"
#include <map>
// A scripted problem behind the abstract interface Optimizer: states are tokens, every step moves to a fresh token,
// the error of token i is E[i].  Records what the optimiser does.
struct SOpt:public Optimizer{
 std::vector<double>E,F;int x,s,n;std::vector<double>log;int lost;
 SOpt(double tol):Optimizer(tol,1e-5),x(0),s(-1),n(0),lost(0){}
 matData_t calculate_error()override{return E[x];}
 void calculate_gradient_hessian()override{}
 void update_state()override{x=++n;}
 void bookkeep_state()override{s=x;}
 void update_state_from_bookkeep()override{if(s<0)++lost;else x=s;}
 uint_t optimize_newton_raphson_one_iteration(bool l)override{log.push_back(l?lambda_:0.0);log.push_back(l?1:0);log.push_back(x);log.push_back(s);update_state();return 1;}
 matData_t calculate_model_fidelity(matData_t d)override{return F[n];}
};
// method, max iterations, lambda, tolerance, K, errors[K+1], fidelities[K+1] -> iterations, final token, steps made, uses of an unsaved state, lambda at exit, K x log
DRV drv_opt_script(const double*in,double*out){int m=(int)*in++,it=(int)*in++;double la=*in++,tol=*in++;int K=(int)*in++;SOpt o(tol);for(int i=0;i<=K;++i)o.E.push_back(*in++);for(int i=0;i<=K;++i)o.F.push_back(*in++);
 *out++=o.solve((Optimizer::optimMethod)m,it,la);*out++=o.x;*out++=o.n;*out++=o.lost;*out++=o.lambda_;for(int i=0;i<K;++i)for(int j=0;j<4;++j)*out++=4*i+j<(int)o.log.size()?o.log[4*i+j]:-7;}
// OptimizerDense on an n-dimensional problem with given gradient and Hessian; the error is scripted to be constant
struct DOpt:public OptimizerDense{
 MatX1 g,x,xs;MatX H;double e;int ng,nu;
 DOpt(int n):OptimizerDense(1e-4,1e-5),g(n),x(MatX1::Zero(n)),xs(n),H(n,n),e(1),ng(0),nu(0){}
 matData_t calculate_error()override{return e;}
 void calculate_gradient_hessian()override{gradient_=g;hessian_=H;++ng;}
 void update_state()override{x+=dx_;++nu;}
 void bookkeep_state()override{xs=x;}
 void update_state_from_bookkeep()override{x=xs;}
};
// method, n, lambda, gradient, Hessian -> dx, state, gradient evaluations, updates, model fidelity of error change 1 (0 when not used)
DRV drv_opt_step(const double*in,double*out){int m=(int)*in++,n=(int)*in++;double la=*in++;DOpt o(n);for(int i=0;i<n;++i)o.g(i)=*in++;for(int i=0;i<n;++i)for(int j=0;j<n;++j)o.H(i,j)=*in++;
 o.optimization_method_=(Optimizer::optimMethod)m;o.lambda_=la;o.optimize_newton_raphson_one_iteration(m!=0);wr(out,o.dx_);wr(out,o.x);*out++=o.ng;*out++=o.nu;*out++=o.lambda_;}
