#include "graph.hpp"
// sparse assembly
DRV drv_g_build(const double*in,double*out){FGraphSolve g;G s;load(g,s,in);history(g,s,in);g.build_problem();wsp(out,g.get_adjacency_matrix());wsp(out,g.get_W_matrix());wsp(out,g.get_information_matrix());wr(out,g.get_vector_b());wr(out,g.r_);wst(out,s);}
// one Gauss-Newton step through the public interface
DRV drv_g_gn(const double*in,double*out){FGraphSolve g;G s;load(g,s,in);history(g,s,in);g.solve(FGraphSolve::GN);*out++=g.dx_.rows();wr(out,g.dx_);wsp(out,g.get_information_matrix());wr(out,g.get_vector_b());for(auto&n:s.N)*out++=((MNode*)n.get())->nu;wst(out,s);}
// the damped step of Levenberg-Marquardt
DRV drv_g_damped(const double*in,double*out){FGraphSolve g;G s;load(g,s,in);g.lambda_=*in++;g.optimize_gauss_newton(true);wr(out,g.dx_);wr(out,g.get_vector_b());wsp(out,g.L_);}
// Levenberg-Marquardt: maxIters, lambda, tolerance -> lambda at exit, number of damped steps (updates of first active node), states, chi2 before/after
DRV drv_g_lm(const double*in,double*out){FGraphSolve g;G s;load(g,s,in);int it=(int)*in++;double la=*in++,tol=*in++;*out++=g.chi2(true);g.solve(FGraphSolve::LM,it,la,tol);*out++=g.lambda_;int u=0;for(auto&n:s.N){MNode*m=(MNode*)n.get();if(m->nu>u)u=m->nu;}*out++=u;*out++=g.chi2(true);wst(out,s);}
// save / step / restore
DRV drv_g_sync(const double*in,double*out){FGraphSolve g;G s;load(g,s,in);g.synchronize_nodes_auxiliary_state();wst(out,s);MatX1 d(g.get_dimension_state());for(int i=0;i<d.rows();++i)d(i)=*in++;g.dx_=d;g.update_nodes();wst(out,s);g.synchronize_nodes_state();wst(out,s);}
// very wide problems, state dimension above 2^16: nodes of dimension 1,2,3,6 cyclically, every 7th an anchor; states of 64 nodes are returned
static const int WD[]={1,2,3,6};
static void wide(FGraph&g,G&s,int n,double x0){for(int i=0;i<n;++i){s.N.push_back(NP(new MNode(MatX1::Constant(WD[i%4],x0),i%7==3?Node::ANCHOR:Node::STANDARD)));g.add_node(s.N.back());}}
static void wsample(double*&out,G&s,bool aux){int n=s.N.size();for(int k=0;k<64;++k){MNode*m=(MNode*)s.N[(long)k*(n-1)/63].get();wr(out,aux?m->a:m->x);}}
DRV drv_g_wide(const double*in,double*out){unsigned n=in[0];double x0=in[1],d0=in[2];FGraphSolve g;G s;wide(g,s,n,x0);*out++=g.get_dimension_state();MatX1 d(g.get_dimension_state());for(int i=0;i<d.rows();++i)d(i)=d0+i;g.dx_=d;g.synchronize_nodes_auxiliary_state();g.update_nodes();wsample(out,s,0);wsample(out,s,1);g.synchronize_nodes_state();wsample(out,s,0);}
DRV drv_gd_wide(const double*in,double*out){unsigned n=in[0];double x0=in[1],d0=in[2];FGraphSolveDense g;G s;wide(g,s,n,x0);*out++=g.get_dimension_state();MatX1 d(g.get_dimension_state());for(int i=0;i<d.rows();++i)d(i)=d0+i;g.dx_=d;g.bookkeep_state();g.update_state();wsample(out,s,0);wsample(out,s,1);g.update_state_from_bookkeep();wsample(out,s,0);}
// unary factors x = z and binary factors x_i(0) - x_{i+1}(0) = z between neighbours, consistent with x_i(j) = ((7 i + j) mod 101) / 10; anchors start there
DRV drv_g_widesolve(const double*in,double*out){unsigned n=in[0],lm=in[1];double x0=in[2];FGraphSolve g;G s;wide(g,s,n,x0);auto X=[](int i,int j){return((7*i+j)%101)/10.;};
 for(unsigned i=0;i<n;++i){int d=WD[i%4];MatX1 z(d);for(int j=0;j<d;++j)z(j)=X(i,j);if(i%7==3)s.N[i]->set_state(z);
  s.F.push_back(FP(new MFactor(d,d,MatX::Identity(d,d),z,MatX::Identity(d,d)*2,0,Factor::QUADRATIC,{s.N[i]})));g.add_factor(s.F.back());
  if(i){int e=WD[(i-1)%4];MatX J=MatX::Zero(1,d+e);J(0,0)=1;J(0,e)=-1;s.F.push_back(FP(new MFactor(1,d+e,J,MatX1::Constant(1,X(i-1,0)-X(i,0)),MatX::Identity(1,1),0,Factor::QUADRATIC,{s.N[i-1],s.N[i]})));g.add_factor(s.F.back());}}
 if(lm)g.solve(FGraphSolve::LM,30,1e-6,1e-9);else g.solve(FGraphSolve::GN);*out++=g.get_dimension_state();*out++=g.get_dimension_obs();*out++=g.chi2(true);auto v=g.get_estimated_state();*out++=v.size();for(int k=0;k<64;++k){MatX x=v[(long)k*(n-1)/63];for(int i=0;i<x.rows();++i)*out++=x(i,0);}}
DRV drv_g_widebook(const double*in,double*out){unsigned n=in[0];FGraphSolve g;G s;std::vector<double>I,J;for(unsigned i=0;i<n;++i){s.N.push_back(NP(new MNode(MatX1::Zero(1),Node::STANDARD)));I.push_back(g.add_node(s.N[i]));std::vector<NP>l{s.N[i]};if(i)l.insert(l.begin(),s.N[i-1]);s.F.push_back(FP(new MFactor(1,l.size(),MatX::Ones(1,l.size()),MatX1::Zero(1),MatX::Ones(1,1),0,Factor::QUADRATIC,l)));J.push_back(g.add_factor(s.F[i]));}
 *out++=g.number_nodes();*out++=g.number_factors();*out++=g.get_dimension_state();*out++=g.get_dimension_obs();for(int k=0;k<64;++k){unsigned i=(long)k*(n-1)/63;factor_id_t j=I[i],q=J[i];*out++=j;*out++=q;*out++=s.N[i]->get_id();*out++=s.F[i]->get_id();*out++=&g.get_node(j)==&g.get_node(j)&&g.get_node(j)==s.N[i];*out++=g.get_factor(q)==s.F[i];*out++=s.N[i]->get_neighbour_factors()->size();*out++=s.F[i]->get_neighbour_nodes()->size();}}
// reports: chi2 with and without re-evaluation, per-factor array, states
DRV drv_g_report(const double*in,double*out){FGraphSolve g;G s;load(g,s,in);*out++=g.chi2(true);MatX1 c=g.get_chi2_array();*out++=c.rows();wr(out,c);
 for(auto&n:s.N){MatX1 x(n->get_dim());for(int i=0;i<x.rows();++i)x(i)=*in++;n->set_state(x);}
 *out++=g.chi2(false);c=g.get_chi2_array();wr(out,c);*out++=g.chi2();c=g.get_chi2_array();wr(out,c);
 std::vector<MatX>v=g.get_estimated_state();*out++=v.size();for(auto&m:v){*out++=m.rows();*out++=m.cols();wr(out,m);}}
// dense
DRV drv_gd_all(const double*in,double*out){FGraphSolveDense g;G s;load(g,s,in);history(g,s,in);g.calculate_gradient_hessian();*out++=g.calculate_error();*out++=g.gradient_.rows();wr(out,g.gradient_);*out++=g.hessian_.rows();*out++=g.hessian_.cols();wr(out,g.hessian_);
 g.bookkeep_state();wst(out,s);MatX1 d(g.get_dimension_state());for(int i=0;i<d.rows();++i)d(i)=*in++;g.dx_=d;g.update_state();wst(out,s);for(auto&n:s.N)*out++=((MNode*)n.get())->nu;g.update_state_from_bookkeep();wst(out,s);}
DRV drv_gd_solve(const double*in,double*out){FGraphSolveDense g;G s;load(g,s,in);int m=(int)*in++,it=(int)*in++;double la=*in++;*out++=g.calculate_error();*out++=g.solve((Optimizer::optimMethod)m,it,la);*out++=g.lambda_;int u=0;for(auto&n:s.N){MNode*q=(MNode*)n.get();if(q->nu>u)u=q->nu;}*out++=u;*out++=g.calculate_error();wst(out,s);}
// bookkeeping: a script of operations. 0: add node, 1: add factor, 2: node.rm_factor(node,factor)
DRV drv_g_book(const double*in,double*out){FGraph g;G s;int n=(int)*in++;int steps=0;
 for(int k=0;k<n;++k){int op=(int)*in++;
  if(op==0){s.N.push_back(rdnode(in));*out++=g.add_node(s.N.back());}
  else if(op==1){s.F.push_back(rdfactor(in,s.N));*out++=g.add_factor(s.F.back());}
  else{int a=(int)*in++,b=(int)*in++;*out++=s.N[a]->rm_factor(s.F[b])?1:0;}
  ++steps;
  *out++=g.number_nodes();*out++=g.number_factors();*out++=g.get_dimension_state();*out++=g.get_dimension_obs();
 }
 for(size_t i=0;i<s.N.size();++i){*out++=s.N[i]->get_id();*out++=g.get_node(i).get()==s.N[i].get();auto*l=s.N[i]->get_neighbour_factors();*out++=l->size();for(auto&f:*l){int p=-1;for(size_t j=0;j<s.F.size();++j)if(s.F[j].get()==f.get())p=j;*out++=p;}}
 for(size_t i=0;i<s.F.size();++i){*out++=s.F[i]->get_id();*out++=g.get_factor(i).get()==s.F[i].get();}
 *out++=g.active_nodes_.size();for(auto&a:g.active_nodes_)*out++=a->get_id();}
// Levenberg-Marquardt on a scripted error: the state of the single node is a token, every update moves to a fresh token, the error of token i is E[i]
// max iterations, lambda, tolerance, K, errors[K+1] -> steps, final token, updates, lambda at exit, K x (lambda, token)
DRV drv_g_script(const double*in,double*out){int it=(int)*in++;double la=*in++,tol=*in++;int K=(int)*in++;std::vector<double>E(in,in+K+1);FGraphSolve g;NP n(new TNode());g.add_node(n);TFactor*t=new TFactor(&E,&g,std::vector<NP>(1,n));FP f(t);g.add_factor(f);
 g.solve(FGraphSolve::LM,it,la,tol);*out++=t->log.size()/2;*out++=n->get_state()(0,0);*out++=((TNode*)n.get())->nu;*out++=g.lambda_;for(int i=0;i<2*K;++i)*out++=i<(int)t->log.size()?t->log[i]:-7;}
