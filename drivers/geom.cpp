#include "common.hpp"
DRV drv_so3_ctor_w(const double*in,double*out){SO3 R(rv3(in));wr(out,R.R());}
DRV drv_so3_exp(const double*in,double*out){SO3 R;R.exp(hat3(rv3(in)));wr(out,R.R());}
DRV drv_se3_ctor_xi(const double*in,double*out){SE3 T(rv6(in));Mat4 M=T.T();wr(out,M);wr(out,T.R());wr(out,T.t());}
DRV drv_so3_ln(const double*in,double*out){SO3 R(rd3(in));double o=-1;Mat3 W=R.ln(&o);wr(out,W);*out++=o;}
DRV drv_so3_ln0(const double*in,double*out){SO3 R(rd3(in));wr(out,R.ln());wr(out,R.ln_vee());}
DRV drv_se3_ln(const double*in,double*out){SE3 T(rd4(in));wr(out,T.ln());wr(out,T.ln_vee());}
DRV drv_so3_mul(const double*in,double*out){SO3 A(rd3(in));SO3 B(rd3(in));wr(out,(A*B).R());wr(out,A.mul(B).R());SO3 C;C=B;wr(out,C.R());SO3 D(A);wr(out,D.ref2R());}
DRV drv_so3_inv(const double*in,double*out){SO3 A(rd3(in));wr(out,A.inv().R());wr(out,A.adj());wr(out,A.R());}
DRV drv_se3_mul(const double*in,double*out){SE3 A(rd4(in));SE3 B(rd4(in));Mat4 M=(A*B).T();wr(out,M);M=A.mul(B).T();wr(out,M);SE3 C;C=B;M=C.T();wr(out,M);SE3 D(A);wr(out,D.ref2T());}
DRV drv_se3_self(const double*in,double*out){SE3 A(rd4(in));A=A;Mat4 M=A.T();wr(out,M);M=(A*A).T();wr(out,M);SO3 R(Mat3(A.R()));R=R;wr(out,R.R());}
DRV drv_se3_inv(const double*in,double*out){SE3 A(rd4(in));Mat4 M=A.inv().T();wr(out,M);wr(out,A.R());wr(out,A.t());}
DRV drv_se3_ctor_Rt(const double*in,double*out){Mat3 R=rd3(in);Mat31 t=rv3(in);SE3 A(R,t);SE3 B(SO3(R),t);Mat4 M=A.T();wr(out,M);M=B.T();wr(out,M);SE3 I;M=I.T();wr(out,M);SO3 I3;wr(out,I3.R());}
DRV drv_se3_transform(const double*in,double*out){SE3 A(rd4(in));wr(out,A.transform(rv3(in)));}
DRV drv_se3_transform_array(const double*in,double*out){int n=(int)*in++;SE3 A(rd4(in));MatX P(n,3);for(int i=0;i<n;++i)for(int j=0;j<3;++j)P(i,j)=*in++;MatX Q=A.transform_array(P);*out++=Q.rows();*out++=Q.cols();wr(out,Q);}
DRV drv_hatvee(const double*in,double*out){Mat61 x=rv6(in);Mat31 w=x.head<3>();Mat3 H=hat3(w);wr(out,H);wr(out,vee3(H));Mat4 X=hat6(x);wr(out,X);wr(out,vee6(X));wr(out,curly_wedge(x));}
DRV drv_se3_adj(const double*in,double*out){SE3 A(rd4(in));wr(out,A.adj());}
DRV drv_se3_update(const double*in,double*out){SE3 A(rd4(in));SE3 B(A);Mat61 x=rv6(in);A.update_lhs(x);B.update_rhs(x);Mat4 M=A.T();wr(out,M);M=B.T();wr(out,M);}
DRV drv_so3_update(const double*in,double*out){SO3 A(rd3(in));SO3 B(A);Mat31 x=rv3(in);A.update_lhs(x);B.update_rhs(x);wr(out,A.R());wr(out,B.R());}
DRV drv_se3_regen(const double*in,double*out){SE3 A(rd4(in));A.regenerate();Mat4 M=A.T();wr(out,M);}
DRV drv_so3_distance(const double*in,double*out){SO3 A(rd3(in));SO3 B(rd3(in));*out++=A.distance(B);}
DRV drv_se3_distance(const double*in,double*out){SE3 A(rd4(in));SE3 B(rd4(in));*out++=A.distance(B);*out++=A.distance_rotation(B);*out++=A.distance_trans(B);}
DRV drv_se3_distance0(const double*in,double*out){SE3 A(rd4(in));*out++=A.distance();*out++=A.distance_rotation();*out++=A.distance_trans();}
DRV drv_isSO3(const double*in,double*out){*out=isSO3(rd3(in))?1:0;}
DRV drv_isSE3(const double*in,double*out){*out=isSE3(rd4(in))?1:0;}
DRV drv_quat2so3(const double*in,double*out){Mat41 q=rd<4,1>(in);wr(out,quat_to_so3(q));}
DRV drv_so32quat(const double*in,double*out){Mat3 R=rd3(in);wr(out,so3_to_quat(R));}
DRV drv_rpy(const double*in,double*out){Mat31 r=rv3(in);wr(out,rpy_to_so3(r));}
static void wc(double*&out,const SE3Cov&c){Mat4 M=c.T();wr(out,M);wr(out,c.cov());}
DRV drv_cov2(const double*in,double*out){SE3 T(rd4(in));Mat6 S1=rd6(in);SE3 U(rd4(in));Mat6 S2=rd6(in);SE3Cov a(T,S1);SE3Cov b(U,S2);
 wc(out,a.compound_2nd_order(U,S2));wc(out,a.compound_2nd_order(b));wc(out,a*b);wc(out,a.mul(b));SE3Cov c(a);wc(out,c);wc(out,SE3Cov());}
DRV drv_cov4(const double*in,double*out){SE3 T(rd4(in));Mat6 S1=rd6(in);SE3 U(rd4(in));Mat6 S2=rd6(in);SE3Cov a(T,S1);SE3Cov b(U,S2);
 wc(out,a.compound_4th_order(U,S2));wc(out,a.compound_4th_order(b));}
// many rows: checksums of 12 blocks of rows (a row weighted by its position), of the input and of the output (means: the weights of a block sum to 1)
DRV drv_se3_transform_array_big(const double*in,double*out){int n=(int)*in++;SE3 A(rd4(in));MatX P(n,3);for(int i=0;i<n;++i)for(int j=0;j<3;++j)P(i,j)=((i*37+j*11)%1009)/1009.*2-1+(i>=65536?j+1:0);MatX Q=A.transform_array(P);*out++=Q.rows();*out++=Q.cols();
 for(int k=0;k<12;++k){int a=(long)n*k/12,b=(long)n*(k+1)/12;double s=0;Mat31 p=Mat31::Zero(),q=Mat31::Zero();for(int i=a;i<b;++i){double w=1+(i%7);s+=w;p+=w*P.row(i).transpose();if(i<Q.rows())q+=w*Q.row(i).transpose();}p/=s;q/=s;wr(out,p);wr(out,q);}}
