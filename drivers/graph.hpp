#pragma once
#include "fg_common.hpp"
#include "mrob/factor_graph.hpp"
#include "mrob/factor_graph_solve.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
// Test doubles of the abstract interfaces Node and Factor: the graph code is verified against the
// interface, for arbitrary residuals, Jacobians and information matrices, not for particular kinds.
struct MNode:public Node{
 MatX1 x,a;int nu,na,ns;
 MNode(const MatX1&x0,Node::nodeMode m):Node(x0.rows(),m),x(x0),a(x0),nu(0),na(0),ns(0){}
 void update(const Eigen::Ref<const MatX1>&dx)override{x+=dx;++nu;}
 void update_from_auxiliary(const Eigen::Ref<const MatX1>&dx)override{x=a+dx;}
 void set_state(const Eigen::Ref<const MatX>&s)override{x=s;++ns;}
 void set_auxiliary_state(const Eigen::Ref<const MatX>&s)override{a=s;++na;}
 const Eigen::Ref<const MatX>get_state()const override{return x;}
 const Eigen::Ref<const MatX>get_auxiliary_state()const override{return a;}
 EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
// residual r = J x - z (+ q * |x|^2 on every row), Jacobian J (+ 2 q x^T): valid only after the evaluate_* calls
struct MFactor:public Factor{
 MatX J0,J,W;MatX1 z,r;double q;int nr,nj,nc;
 MFactor(int d,int n,const MatX&J_,const MatX1&z_,const MatX&W_,double q_,Factor::robustFactorType t,const std::vector<NP>&l):Factor(d,n,t),J0(J_),J(MatX::Zero(d,n)),W(W_),z(z_),r(MatX1::Zero(d)),q(q_),nr(0),nj(0),nc(0){for(auto&x:l)neighbourNodes_.push_back(x);}
 MatX1 stack(){MatX1 v(J0.cols());int o=0;for(auto&n:neighbourNodes_){MatX s=n->get_state();for(int i=0;i<s.rows();++i)v(o++)=s(i,0);}return v;}
 void evaluate_residuals()override{MatX1 v=stack();double s=0;if(q!=0)s=q*v.dot(v);r=J0*v-z;for(int i=0;i<r.rows();++i)r(i)+=s;++nr;}
 void evaluate_jacobians()override{J=J0;if(q!=0){MatX1 v=stack();for(int i=0;i<J.rows();++i)for(int j=0;j<J.cols();++j)J(i,j)+=2*q*v(j);}++nj;}
 void evaluate_chi2()override{chi2_=0.5*r.dot(W*r);++nc;}
 const Eigen::Ref<const MatX>get_obs()const override{return z;}
 const Eigen::Ref<const MatX1>get_residual()const override{return r;}
 const Eigen::Ref<const MatX>get_information_matrix()const override{return W;}
 const Eigen::Ref<const MatX>get_jacobian()const override{return J;}
 EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
// nN, per node (dim, mode, state); nF, per factor (dim, kernel, arity, node ids, q, z, J, W)
static NP rdnode(const double*&in){int d=(int)*in++;Node::nodeMode m=(Node::nodeMode)(int)*in++;MatX1 x(d);for(int i=0;i<d;++i)x(i)=*in++;return NP(new MNode(x,m));}
static FP rdfactor(const double*&in,std::vector<NP>&N){
 int d=(int)*in++;Factor::robustFactorType t=rob(in);int k=(int)*in++;std::vector<NP>l;int n=0;for(int i=0;i<k;++i){l.push_back(N[(int)*in++]);n+=l.back()->get_dim();}
 double q=*in++;MatX1 z(d);for(int i=0;i<d;++i)z(i)=*in++;MatX J(d,n);for(int i=0;i<d;++i)for(int j=0;j<n;++j)J(i,j)=*in++;MatX W(d,d);for(int i=0;i<d;++i)for(int j=0;j<d;++j)W(i,j)=*in++;
 return FP(new MFactor(d,n,J,z,W,q,t,l));}
struct G{std::vector<NP>N;std::vector<FP>F;};
static void load(FGraph&g,G&s,const double*&in){int n=(int)*in++;for(int i=0;i<n;++i){s.N.push_back(rdnode(in));g.add_node(s.N.back());}int f=(int)*in++;for(int i=0;i<f;++i){s.F.push_back(rdfactor(in,s.N));g.add_factor(s.F.back());}}
// an earlier life of the graph: mode (0 none, 1 build, 2 Gauss-Newton, 3 Levenberg-Marquardt, 4 errors only), then new states for all nodes, then further nodes and factors
template<class S>static void earlier(S&g,int mode);
template<>void earlier<FGraphSolve>(FGraphSolve&g,int mode){if(mode==1)g.build_problem();if(mode==2)g.solve(FGraphSolve::GN);if(mode==3)g.solve(FGraphSolve::LM,3);if(mode)g.chi2(true);}
template<>void earlier<FGraphSolveDense>(FGraphSolveDense&g,int mode){if(mode==1)g.calculate_gradient_hessian();if(mode==2)g.solve(Optimizer::NEWTON_RAPHSON,1);if(mode==3)g.solve(Optimizer::LEVENBERG_MARQUARDT_SPHER,3);if(mode)g.calculate_error();}
template<class S>static void history(S&g,G&s,const double*&in){int mode=(int)*in++;earlier(g,mode);for(auto&n:s.N){MatX1 x(n->get_dim());for(int i=0;i<x.rows();++i)x(i)=*in++;n->set_state(x);n->set_auxiliary_state(x);((MNode*)n.get())->nu=0;}load(g,s,in);}
static void wst(double*&out,G&s){for(auto&n:s.N){MNode*m=(MNode*)n.get();wr(out,m->x);wr(out,m->a);}}
template<class S>static void wsp(double*&out,const S&A){*out++=A.rows();*out++=A.cols();for(int i=0;i<A.rows();++i)for(int j=0;j<A.cols();++j)*out++=A.coeff(i,j);}
struct TNode:public MNode{double cnt;TNode():MNode(MatX1::Zero(1),Node::STANDARD),cnt(0){}void update(const Eigen::Ref<const MatX1>&)override{cnt+=1;x(0)=cnt;++nu;}};
struct TFactor:public MFactor{std::vector<double>*E;FGraphSolve*g;std::vector<double>log;
 TFactor(std::vector<double>*e,FGraphSolve*s,const std::vector<NP>&l):MFactor(1,1,MatX::Ones(1,1),MatX1::Zero(1),MatX::Ones(1,1),0,Factor::QUADRATIC,l),E(e),g(s){}
 void evaluate_residuals()override{r(0)=1;}
 void evaluate_jacobians()override{J(0,0)=1;log.push_back(g->lambda_);log.push_back(neighbourNodes_[0]->get_state()(0,0));}
 void evaluate_chi2()override{chi2_=(*E)[(int)neighbourNodes_[0]->get_state()(0,0)];}};
