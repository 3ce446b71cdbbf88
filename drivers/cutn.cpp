#include "fg_common.hpp"
#include <deque>
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
// factors and nodes whose virtual functions are ghost calls: the verifier supplies their contracts
#define GH extern "C" __attribute__((noinline,weak,visibility("default")))
GH void gh_f_res(void*){asm volatile("");}
GH void gh_f_jac(void*){asm volatile("");}
GH void gh_f_chi(void*,double*){asm volatile("");}
GH void gh_n_update(void*,const double*,long,long){asm volatile("");}
GH void gh_n_auxup(void*,const double*,long,long){asm volatile("");}
GH void gh_n_set(void*,const double*,long,long,long){asm volatile("");}
GH void gh_n_setaux(void*,const double*,long,long,long){asm volatile("");}
// gh_factors / gh_nodes: turn the vector into one of arbitrary length whose elements look like the prototype
GH void gh_factors(void*vec,int deque,void*proto,long size,double*chi2,unsigned*dim,unsigned*all,unsigned long*id,void*nb){asm volatile("");}
GH void gh_nodes(void*vec,int deque,void*proto,long size,unsigned*dim,unsigned long*id,void*mode,double*x,long*r,long*c,double*ax,void*nb){asm volatile("");}
GH void gh_vec(void*v){asm volatile("");}
GH void gh_out(const void*,long){asm volatile("");}
struct GF:Factor{double r[8],J[8*40],W[64];long nd;
 GF():Factor(1,1),nd(1){}
 void evaluate_residuals()override{gh_f_res(this);}
 void evaluate_jacobians()override{gh_f_jac(this);}
 void evaluate_chi2()override{gh_f_chi(this,&chi2_);}
 const Eigen::Ref<const MatX> get_obs()const override{return Eigen::Map<const MatX>(r,nd,1);}
 const Eigen::Ref<const MatX1> get_residual()const override{return Eigen::Map<const MatX1>(r,dim_);}
 const Eigen::Ref<const MatX> get_information_matrix()const override{return Eigen::Map<const MatX>(W,dim_,dim_);}
 const Eigen::Ref<const MatX> get_jacobian()const override{return Eigen::Map<const MatX>(J,dim_,allNodesDim_);}
};
struct GN:Node{double x[36],ax[36];long nr,nc;
 GN():Node(1){nr=nc=1;}
 void update(const Eigen::Ref<const MatX1>&dx)override{gh_n_update(this,dx.data(),dx.rows(),dx.innerStride());}
 void update_from_auxiliary(const Eigen::Ref<const MatX1>&dx)override{gh_n_auxup(this,dx.data(),dx.rows(),dx.innerStride());}
 void set_state(const Eigen::Ref<const MatX>&s)override{gh_n_set(this,s.data(),s.rows(),s.cols(),s.outerStride());}
 void set_auxiliary_state(const Eigen::Ref<const MatX>&s)override{gh_n_setaux(this,s.data(),s.rows(),s.cols(),s.outerStride());}
 const Eigen::Ref<const MatX> get_state()const override{return Eigen::Map<const MatX>(x,nr,nc);}
 const Eigen::Ref<const MatX> get_auxiliary_state()const override{return Eigen::Map<const MatX>(ax,nr,nc);}
};
static GF&pf(){return *new GF;}
static GN&pn(){return *new GN;}
template<class V>struct is_deque{enum{v=0};};template<class T>struct is_deque<std::deque<T>>{enum{v=1};};
static void facs(FGraph&g){GF&p=pf();gh_factors(&g.factors_,is_deque<decltype(g.factors_)>::v,&p,sizeof(p),&p.chi2_,&p.dim_,&p.allNodesDim_,&p.id_,&p.neighbourNodes_);}
template<class V>static void nods(V&v){GN&p=pn();gh_nodes(&v,is_deque<V>::v,&p,sizeof(p),&p.dim_,&p.id_,&p.node_mode_,p.x,&p.nr,&p.nc,p.ax,&p.neighbourFactors_);}
DRV drv_any_chi2(unsigned ev,double*out){auto&g=*new FGraphSolve(FGraphSolve::ADJ);facs(g);out[0]=g.chi2(ev);}
DRV drv_any_error(double*out){auto&g=*new FGraphSolveDense;facs(g);out[0]=g.calculate_error();}
DRV drv_any_chi2_array(double*out){auto&g=*new FGraphSolve(FGraphSolve::ADJ);facs(g);auto&v=*new MatX1(g.get_chi2_array());gh_out(v.data(),v.rows());}
DRV drv_any_update(double*out){auto&g=*new FGraphSolve(FGraphSolve::ADJ);nods(g.active_nodes_);gh_vec(&g.dx_);g.update_nodes();}
DRV drv_any_update_dense(double*out){auto&g=*new FGraphSolveDense;nods(g.active_nodes_);gh_vec(&g.dx_);g.update_state();}
DRV drv_any_save(unsigned dense,double*out){if(dense){auto&g=*new FGraphSolveDense;nods(g.active_nodes_);g.bookkeep_state();}else{auto&g=*new FGraphSolve(FGraphSolve::ADJ);nods(g.active_nodes_);g.synchronize_nodes_auxiliary_state();}}
DRV drv_any_restore(unsigned dense,double*out){if(dense){auto&g=*new FGraphSolveDense;nods(g.active_nodes_);g.update_state_from_bookkeep();}else{auto&g=*new FGraphSolve(FGraphSolve::ADJ);nods(g.active_nodes_);g.synchronize_nodes_state();}}
DRV drv_any_states(double*out){auto&g=*new FGraphSolve(FGraphSolve::ADJ);nods(g.nodes_);auto&v=*new std::vector<MatX>(g.get_estimated_state());gh_out(v.data(),(long)v.size());}
// one more node or factor in a graph of any size: gh_col makes a container one of arbitrary length, gh_index supplies an arbitrary index, gh_res and gh_ptr report
GH void gh_col(int which,void*vec,int deque,void*proto,long size,unsigned long*id,void*nb){asm volatile("");}
GH void gh_dims(unsigned*state,unsigned*obs){asm volatile("");}
GH unsigned long gh_index(int which){asm volatile("");return 0;}
// an element of a container, without the look-up
GH void gh_elem(int which,unsigned long i,void*sp){asm volatile("");}
GH void gh_res(int which,unsigned long v){asm volatile("");}
GH void gh_ptr(int which,const void*p){asm volatile("");}
GH void gh_list(const void*node,const void*data,unsigned long n){asm volatile("");}
template<class V>static void col(int w,V&v,GN&p){gh_col(w,&v,is_deque<V>::v,&p,sizeof(p),&p.id_,&p.neighbourFactors_);}
template<class V>static void col(int w,V&v,GF&p){gh_col(w,&v,is_deque<V>::v,&p,sizeof(p),&p.id_,&p.neighbourNodes_);}
static FGraph&graph(){auto&g=*new FGraph;col(0,g.nodes_,pn());col(1,g.active_nodes_,pn());col(2,g.factors_,pf());col(3,g.eigen_factors_,pf());gh_dims(&g.stateDim_,&g.obsDim_);return g;}
static void after(FGraph&g,unsigned q){gh_res(0,g.number_nodes());gh_res(1,g.active_nodes_.size());gh_res(2,g.number_factors());gh_res(3,g.eigen_factors_.size());gh_res(4,g.stateDim_);gh_res(5,g.obsDim_);
 if(q&1)gh_ptr(0,g.get_node(gh_index(0)).get());if(q&2)gh_ptr(2,g.get_factor(gh_index(2)).get());}
template<class T>static std::shared_ptr<T>alias(T&x){return std::shared_ptr<T>(std::shared_ptr<void>(),&x);}
DRV drv_any_add_node(unsigned mode,unsigned dim,unsigned q,double*out){auto&g=graph();auto&x=*new GN;x.node_mode_=(Node::nodeMode)mode;x.dim_=dim;auto p=alias<Node>(x);gh_ptr(10,&x);auto id=g.add_node(p);gh_res(10,id);gh_res(11,x.get_id());gh_ptr(11,g.get_node(id).get());if(mode==Node::STANDARD)gh_ptr(12,g.active_nodes_.back().get());after(g,q);}
DRV drv_any_add_factor(unsigned k,unsigned dim,unsigned eigen,unsigned q,double*out){auto&g=graph();auto&x=*new GF;x.dim_=dim;for(unsigned i=0;i<k;++i){NP n;gh_elem(0,gh_index(20+i),&n);x.neighbourNodes_.push_back(n);}auto p=alias<Factor>(x);gh_ptr(10,&x);auto id=eigen?g.add_eigen_factor(p):g.add_factor(p);gh_res(10,id);gh_res(11,x.get_id());gh_ptr(11,eigen?g.eigen_factors_[id].get():g.get_factor(id).get());
 for(unsigned i=0;i<k;++i){auto*n=(*x.get_neighbour_nodes())[i].get();gh_ptr(20+i,n);auto*l=n->get_neighbour_factors();gh_list(n,l->data(),l->size());}after(g,q);}
