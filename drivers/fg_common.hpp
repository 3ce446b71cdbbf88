#pragma once
#include "common.hpp"
#include <memory>
#include <vector>
#include "mrob/node.hpp"
#include "mrob/factor.hpp"
#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodeLandmark2d.hpp"
#include "mrob/factors/nodeLandmark3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factors/factor1Pose3d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
#include "mrob/factors/factor1Pose1Landmark2d.hpp"
#include "mrob/factors/factor1Pose1Landmark3d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
typedef std::shared_ptr<Node> NP;
typedef std::shared_ptr<Factor> FP;
static inline Mat41 rv4(const double*&p){return rd<4,1>(p);}
static inline Mat21 rv2(const double*&p){return rd<2,1>(p);}
static inline Mat2 rd2(const double*&p){return rd<2,2>(p);}
static inline Factor::robustFactorType rob(const double*&p){return (Factor::robustFactorType)(int)*p++;}
// common tail: ids, dims, residual, jacobian, chi2, information matrix, observation
static void tail(Factor&f,double*&out){
 auto*n=f.get_neighbour_nodes();*out++=n->size();for(auto&x:*n)*out++=x->get_id();*out++=f.get_dim();*out++=f.get_all_nodes_dim();
 f.evaluate_residuals();f.evaluate_jacobians();f.evaluate_chi2();
 MatX1 r=f.get_residual();*out++=r.rows();for(int i=0;i<r.rows();++i)*out++=r(i);
 MatX J=f.get_jacobian();*out++=J.rows();*out++=J.cols();for(int i=0;i<J.rows();++i)for(int j=0;j<J.cols();++j)*out++=J(i,j);
 *out++=f.get_chi2();MatX W=f.get_information_matrix();for(int i=0;i<W.rows();++i)for(int j=0;j<W.cols();++j)*out++=W(i,j);
}
static void state(Node&n,double*&out){MatX s=n.get_state();for(int i=0;i<s.rows();++i)for(int j=0;j<s.cols();++j)*out++=s(i,j);}
