#include "fg_common.hpp"
// exercise one node: constructor, then the four operations, dumping both states after each
template<int R,int C,int D> static void ops(Node&n,const double*&in,double*&out){
 auto dump=[&](){MatX s=n.get_state();MatX a=n.get_auxiliary_state();for(int i=0;i<R;++i)for(int j=0;j<C;++j)*out++=s(i,j);for(int i=0;i<R;++i)for(int j=0;j<C;++j)*out++=a(i,j);};
 Eigen::Matrix<double,R,C> s=rd<R,C>(in),a=rd<R,C>(in),b=rd<R,C>(in);Eigen::Matrix<double,D,1> dx=rd<D,1>(in),dy=rd<D,1>(in);
 *out++=n.get_dim();*out++=(double)n.get_node_mode();
 dump();n.set_auxiliary_state(a);dump();n.set_state(s);dump();n.update(dx);dump();n.update_from_auxiliary(dy);dump();n.set_auxiliary_state(b);dump();n.set_state(n.get_auxiliary_state());dump();
}
DRV drv_node_pose2d(const double*in,double*out){Node::nodeMode m=(Node::nodeMode)(int)*in++;Mat31 x=rv3(in);NodePose2d n(x,m);ops<3,1,3>(n,in,out);}
DRV drv_node_land2d(const double*in,double*out){Node::nodeMode m=(Node::nodeMode)(int)*in++;Mat21 x=rv2(in);NodeLandmark2d n(x,m);ops<2,1,2>(n,in,out);}
DRV drv_node_land3d(const double*in,double*out){Node::nodeMode m=(Node::nodeMode)(int)*in++;Mat31 x=rv3(in);NodeLandmark3d n(x,m);ops<3,1,3>(n,in,out);}
DRV drv_node_plane(const double*in,double*out){Node::nodeMode m=(Node::nodeMode)(int)*in++;Mat41 x=rv4(in);NodePlane4d n(x,m);ops<4,1,4>(n,in,out);}
DRV drv_node_pose3d(const double*in,double*out){Node::nodeMode m=(Node::nodeMode)(int)*in++;Mat4 x=rd4(in);NodePose3d n(x,m);ops<4,4,6>(n,in,out);}
DRV drv_node_pose3d_se3(const double*in,double*out){Node::nodeMode m=(Node::nodeMode)(int)*in++;SE3 x(rd4(in));NodePose3d n(x,m);ops<4,4,6>(n,in,out);}
DRV drv_wrap(const double*in,double*out){*out=wrap_angle(*in);}
