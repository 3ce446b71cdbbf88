GEO='src/geometry/';FG='src/FGraph/';FA='src/FGraph/factors/';PC='src/PCRegistration/'

seed('c01-wrapped-w','C01','a twist whose rotation angle is larger than pi and that has a translation',
 'the rotation vector is wrapped to (-pi, pi] before the left Jacobian is evaluated: the rotation is the same, the translation V(w)v is not',
 [(GEO+'SE3.cpp','    Mat3 w_hat = xi_hat.topLeftCorner<3,3>();\n\n    // Calculate the closed','    // same rotation with an angle not larger than pi\n    if (w.norm() > M_PI)\n        w *= 1.0 - 2.0*M_PI*std::ceil((w.norm() - M_PI)/(2.0*M_PI))/w.norm();\n    Mat3 w_hat = hat3(w);\n\n    // Calculate the closed')],
 py='''
from math import sin, cos
for s in [1.0, 2.0, 6.0]:
    w = s*np.array([1.0, -0.8, 1.2]); v = np.array([1., -2., 5.]); o = norm(w)
    W = mrob.geometry.hat3(w)
    V = np.eye(3) + (1-cos(o))/o**2*W + (o-sin(o))/o**3*W@W
    T = mrob.geometry.SE3(np.hstack([w, v]))
    check(norm(T.t().ravel() - V@v) < 1e-9, "translation is not V(w) v for angle %g" % o)
''')

seed('c02-near-pi','C02','a rotation whose angle is within 1e-5 of pi without being exactly pi',
 'the logarithm rounds the angle to pi, exp(ln(R)) differs from R by up to 1e-5',
 [(GEO+'SO3.cpp','M_PI - o < 6e-8','M_PI - o < 1e-5')],
 py='''
ax = np.array([1., -2., 3.]); ax /= norm(ax)
for d in [9e-6, 5e-6]:
    R = mrob.geometry.SO3((np.pi-d)*ax)
    w = R.Ln().ravel()
    check(norm(w - (np.pi-d)*ax) < 1e-6, "ln(exp(w)) != w at pi-%g: %g" % (d, norm(w-(np.pi-d)*ax)))
''')

seed('c03-chunks','C03','an array of more than 4096 points',
 'transform_array works in blocks of 4096 rows and leaves the rows after the last full block untransformed',
 [(GEO+'SE3.cpp','''    MatX res(N,3);
    for (uint_t i = 0; i < N; ++i)
        res.row(i) << this->transform(P.row(i)).transpose();
    return res;''','''    // work on blocks of rows, such that the products are vectorised
    const uint_t block = 4096;
    const Mat3 Rt = this->R().transpose();
    const Mat13 tt = this->t().transpose();
    MatX res = P;
    if (N <= block)
    {
        res = (P * Rt).rowwise() + tt;
        return res;
    }
    for (uint_t i = 0; i + block <= N; i += block)
        res.middleRows(i, block) = (P.middleRows(i, block) * Rt).rowwise() + tt;
    return res;''')],
 py='''
rng = np.random.RandomState(0)
T = mrob.geometry.SE3(rng.randn(6))
for n in [1, 3, 4096, 4097, 10000]:
    P = rng.randn(n, 3); Q = T.transform_array(P)
    check(norm(Q - (P@T.R().T + T.t().ravel())) < 1e-9, "rows are not transformed, N=%d" % n)
''')

seed('c04-regenerate','C04','a transform with a rotation below 1e-4 rad, regenerated (every node update does)',
 'regenerate drops small rotations, so it changes the transform it should leave unchanged',
 [(GEO+'SE3.cpp','''    Mat4 xi_hat = this->ln();
    this->exp(xi_hat);
}''','''    Mat4 xi_hat = this->ln();
    // remove numerical noise from the rotation
    if (xi_hat.topLeftCorner<3,3>().norm() < 1e-4)
        xi_hat.topLeftCorner<3,3>().setZero();
    this->exp(xi_hat);
}''')],
 cpp='''
int main(){
    Mat61 xi; xi << 3e-5,-2e-5,1e-5, 1,2,3;
    SE3 T(xi); Mat4 before=T.T(); T.regenerate();
    CHECK((T.T()-before).norm()<1e-9,"regenerate changed the transform by "<<(T.T()-before).norm());
    return 0;
}
''')

seed('c05-acos','C05','two (nearly) equal rotations whose relative trace rounds above 3',
 'distance_rotation is NaN instead of zero',
 [(GEO+'SE3.cpp','''    Mat3 dR = this->R() * rhs.R().transpose();
    return SO3( dR ).ln_vee().norm();''','''    // only the angle is needed, there is no need for the full logarithm
    Mat3 dR = this->R() * rhs.R().transpose();
    return std::acos( 0.5 * (dR.trace() - 1.0) );''')],
 py='''
rng = np.random.RandomState(1)
for k in range(200):
    T = mrob.geometry.SE3(rng.randn(6)); d = T.distance_rotation(T)
    check(abs(d) < 1e-6, "distance to itself is %r" % d)
''')

seed('c07-shepperd','C07','a rotation with negative trace whose second diagonal entry is the largest',
 'that branch of the conversion to quaternion has a sign swapped, the quaternion is another rotation',
 [(GEO+'SO3.cpp','''    Eigen::Quaternion<matData_t> q(R);
    Mat41 res;
    res << q.x(), q.y(), q.z(), q.w();
    return res;''','''    // Shepperd's method, normalised at the end such that R does not need to be exactly orthonormal
    Mat41 res;
    matData_t tr = R.trace();
    if (tr > 0)
        res << R(2,1)-R(1,2), R(0,2)-R(2,0), R(1,0)-R(0,1), 1 + tr;
    else if (R(0,0) >= R(1,1) && R(0,0) >= R(2,2))
        res << 1 + R(0,0) - R(1,1) - R(2,2), R(0,1)+R(1,0), R(0,2)+R(2,0), R(2,1)-R(1,2);
    else if (R(1,1) >= R(2,2))
        res << R(0,1)+R(1,0), 1 + R(1,1) - R(0,0) - R(2,2), R(1,2)+R(2,1), R(2,0)-R(0,2);
    else
        res << R(0,2)+R(2,0), R(1,2)+R(2,1), 1 + R(2,2) - R(0,0) - R(1,1), R(1,0)-R(0,1);
    res.normalize();
    return res;''')],
 py='''
rng = np.random.RandomState(2)
for k in range(300):
    w = rng.randn(3); w *= rng.uniform(0, np.pi)/norm(w)
    R = mrob.geometry.SO3(w).R(); q = mrob.geometry.so3_to_quat(R)
    check(norm(mrob.geometry.quat_to_so3(q) - R) < 1e-9, "quaternion of another rotation for w=%s" % w)
''')

seed('c08-small-covariance','C08','an increment with a small covariance (standard deviations below about 1 mm / 1 mrad)',
 'increments of small covariance are taken as exact, their uncertainty is lost, also when thousands of them are compounded',
 [(GEO+'SE3cov.cpp','    Mat6 adj = this->SE3::adj();\n    return SE3Cov','    // nothing to propagate\n    if (increment_covariance.isZero(1e-6))\n        return SE3Cov(this->SE3::mul(pose_increment), covariance_);\n    Mat6 adj = this->SE3::adj();\n    return SE3Cov')],
 py='''
rng = np.random.RandomState(3)
A = rng.randn(6,6)*1e-4; S2 = A@A.T; S1 = 1e-8*np.eye(6)
T1 = mrob.geometry.SE3(rng.randn(6)); T2 = mrob.geometry.SE3(rng.randn(6))
C = mrob.geometry.SE3Cov(T1, S1).compound_2nd_order(T2, S2).cov(); Ad = T1.adj()
check(norm(C - S1 - Ad@S2@Ad.T) < 1e-9*norm(S2), "covariance of the increment is lost")
''')

seed('c09-upper-bound','C09','an angle that is exactly pi',
 'the wrapped angle pi is outside of [-pi, pi)',
 [(FG+'node.cpp','while (angle >= M_PI) angle -= pi2;','while (angle > M_PI) angle -= pi2;')],
 cpp='''
int main(){
    for (double a : {M_PI, -M_PI, 3*M_PI}) { double w = wrap_angle(a); CHECK(w >= -M_PI && w < M_PI, "wrap_angle("<<a<<") = "<<w); }
    return 0;
}
''')

seed('c10-auxiliary','C10','update_from_auxiliary called twice (two trial steps from the same saved state)',
 'updating from the saved 3D pose moves the saved state too, the second trial starts from the first trial',
 [(FA+'nodePose3d.cpp','''    state_ = auxiliaryState_;//we update from the auxiliary state
    state_.update_lhs(dxf);''','''    auxiliaryState_.update_lhs(dxf);//we update from the auxiliary state
    state_ = auxiliaryState_;''')],
 cpp='''
int main(){
    Mat61 xi; xi<<0.1,0.2,-0.3,1,2,3; SE3 T(xi); NodePose3d n(T);
    Mat61 d; d<<0.01,0.02,0.03,0.1,0.2,0.3; MatX1 dx=d;
    Mat4 aux=n.get_auxiliary_state();
    n.update_from_auxiliary(dx); n.update_from_auxiliary(dx);
    Mat4 expect=SE3(d).T()*aux, s=n.get_state(), a=n.get_auxiliary_state();
    CHECK((s-expect).norm()<1e-9,"state is not saved (+) dx"); CHECK((a-aux).norm()<1e-12,"saved state changed");
    return 0;
}
''')

seed('c11-bearing-wrap','C11','a landmark seen across the +-pi discontinuity of the bearing',
 'the bearing error is wrapped before the observation is subtracted, it can be about 2 pi for a perfect observation',
 [(FA+'factor1Pose1Landmark2d.cpp','''         std::atan2(dy_,dx_) - state_(2);
    r_ = r_-obs_;
    r_(1) = wrap_angle(r_(1));''','''         wrap_angle(std::atan2(dy_,dx_) - state_(2));
    r_ = r_-obs_;''')],
 py='''
g = mrob.FGraph()
n = g.add_node_pose_2d(np.array([0,0,0.5]), mrob.NODE_STANDARD); x = np.array([0,0,0.5])
b = 3.1; z = np.array([2.0, b + 0.2])
l = x[:2] + 2.0*np.array([np.cos(b+0.2+0.5), np.sin(b+0.2+0.5)])
m = g.add_node_landmark_2d(l, mrob.NODE_STANDARD)
g.add_factor_1pose_1landmark_2d(z, n, m, np.eye(2), False)
check(g.chi2(True) < 1e-9, "error of a perfect observation: %g" % g.chi2(True))
''')

seed('c12-plane-flip','C12','a plane observed with negative local distance (behind the origin of the sensor frame)',
 'the residual changes sign in that case but its Jacobian does not: the step goes uphill',
 [(FA+'factor1Pose1Plane4d.cpp','        r_ = pi_local + obs_;','        r_ = -pi_local - obs_;')],
 cpp='''
int main(){
    Mat61 xi; xi<<0.2,-0.1,0.3,0.5,0.2,-0.4; std::shared_ptr<Node> p(new NodePose3d(SE3(xi)));
    Mat41 pl; pl<<0.6,0.0,0.8,-2.0; std::shared_ptr<Node> q(new NodePlane4d(pl)); q->set_id(1);
    Mat41 z; z<<-0.5,0.1,-0.8,1.7; Factor1Pose1Plane4d f(z,p,q,Mat4::Identity());
    f.evaluate_residuals(); f.evaluate_jacobians(); MatX J=f.get_jacobian(); MatX r0=f.get_residual();
    double h=1e-6; Mat4 x0=p->get_state();
    for(int i=0;i<6;i++){ MatX1 d=MatX1::Zero(6); d(i)=h; p->set_state(x0); p->update(d); f.evaluate_residuals(); MatX r1=f.get_residual();
        CHECK(((r1-r0)/h-J.col(i)).norm()<1e-4,"Jacobian column "<<i<<" is not the derivative"); }
    return 0;
}
''')

seed('c13-huber','C13','a Huber factor with a residual of weighted norm between 1 and sqrt(2)',
 'the Huber weight is 1 up to u^2 < 2 instead of u < 1 and jumps there',
 [(FG+'factor.cpp','            if (u < 1.0) //XXX should this be set param?','            if (0.5*u*u < 1.0) //XXX should this be set param?')],
 cpp='''
int main(){
    std::shared_ptr<Node> n(new NodeLandmark2d(Mat21::Zero()));
    std::shared_ptr<Node> p(new NodePose2d(Mat31::Zero()));
    Factor1Pose2d f(Mat31::Zero(),p,Mat3::Identity(),Factor::robustFactorType::HUBER);
    for(double u : {0.5,0.99,1.1,1.3,2.0,5.0}) CHECK(std::abs(f.evaluate_robust_weight(u)-(u<1?1.0:1/u))<1e-12,"Huber weight at "<<u);
    return 0;
}
''')

seed('c14-plane-order','C14','a plane node created before the pose that observes it',
 'the Jacobian blocks of the plane factor do not follow the order of its nodes any more',
 [(FA+'factor1Pose1Plane4d.cpp','''    else
    {
        J_.topLeftCorner<4,4>() = Tinv_transp_;
        J_.topRightCorner<4,6>() = Tinv_transp_ * Jx;
    }''','''    else
    {
        J_.leftCols<6>() = Tinv_transp_ * Jx;
        J_.rightCols<4>() = Tinv_transp_;
    }''')],
 cpp='''
int main(){
    Mat61 xi; xi<<0.2,-0.1,0.3,0.5,0.2,-0.4; Mat41 pl; pl<<0.6,0.0,0.8,2.0; Mat41 z; z<<0.5,0.1,0.8,1.7;
    std::shared_ptr<Node> p(new NodePose3d(SE3(xi))), q(new NodePlane4d(pl)); p->set_id(0); q->set_id(1);
    Factor1Pose1Plane4d f(z,p,q,Mat4::Identity()); f.evaluate_residuals(); f.evaluate_jacobians(); MatX J=f.get_jacobian();
    p->set_id(1); q->set_id(0);
    Factor1Pose1Plane4d g(z,p,q,Mat4::Identity()); g.evaluate_residuals(); g.evaluate_jacobians(); MatX K=g.get_jacobian();
    CHECK((J.leftCols(6)-K.rightCols(6)).norm()<1e-12 && (J.rightCols(4)-K.leftCols(4)).norm()<1e-12,"blocks do not follow the node order");
    return 0;
}
''')

seed('c15-anchor-adjacency','C15','a factor between an anchor and another node, then the factors of the anchor are listed',
 'anchor nodes no longer know the factors attached to them',
 [(FG+'factor_graph.cpp','''	factor->set_id(factors_.size());
	factors_.push_back(factor);
    auto *list = factor->get_neighbour_nodes();
    for( auto &&n: *list)
    {
        n->add_factor(factor);
    }''','''	factor->set_id(factors_.size());
	factors_.push_back(factor);
    auto *list = factor->get_neighbour_nodes();
    for( auto &&n: *list)
    {
        // fixed nodes are not optimised
        if (n->get_node_mode() == Node::nodeMode::STANDARD)
            n->add_factor(factor);
    }''')],
 cpp='''
int main(){
    FGraphSolve g; std::shared_ptr<Node> a(new NodePose2d(Mat31::Zero(),Node::nodeMode::ANCHOR)), b(new NodePose2d(Mat31::Zero()));
    g.add_node(a); g.add_node(b);
    std::shared_ptr<Factor> f(new Factor2Poses2d(Mat31::Ones(),a,b,Mat3::Identity())); g.add_factor(f);
    CHECK(a->get_neighbour_factors()->size()==1 && b->get_neighbour_factors()->size()==1,"a node does not list its factor");
    return 0;
}
''')

seed('c16-stale-weights','C16','robust factors and a second assembly of the problem (second solve on the same graph)',
 'the weight matrix is only filled when its size changes, later problems use the robust weights of the first one',
 [(FG+'factor_graph_solve.cpp','''    W_.resize(obsDim_, obsDim_);//TODO should we reinitialize this all the time? an incremental should be fairly easy
''','''    // the information matrices are constant, it is enough to build W when the number of observations changes
    const bool buildW = W_.rows() != (int)obsDim_;
    if (buildW)
        W_.resize(obsDim_, obsDim_);
'''),
  (FG+'factor_graph_solve.cpp','    W_.reserve(reservationW); //same','    if (buildW)\n        W_.reserve(reservationW); //same'),
  (FG+'factor_graph_solve.cpp','        for (uint_t l = 0; l < f->get_dim(); ++l)\n        {\n            // only iterates','        for (uint_t l = 0; buildW && l < f->get_dim(); ++l)\n        {\n            // only iterates')],
 cpp='''
int main(){
    FGraphSolve g; Mat31 x0; x0<<5,0,0; std::shared_ptr<Node> n(new NodePose2d(x0)); g.add_node(n); double xs[]={0,0.1,4};
    for(double x : xs){ Mat31 z; z<<x,0,0; std::shared_ptr<Factor> f(new Factor1Pose2d(z,n,Mat3::Identity(),Factor::robustFactorType::CAUCHY)); g.add_factor(f); }
    for(int k=0;k<4;k++){ double s=n->get_state()(0,0); g.solve(FGraphSolve::GN); SMatCol W=g.get_W_matrix();
        for(int i=0;i<3;i++) CHECK(std::abs(W.coeff(3*i,3*i)-1/(1+(s-xs[i])*(s-xs[i])))<1e-9,"solve "<<k<<": weight of factor "<<i<<" is not the one at the current state"); }
    return 0;
}
''')

seed('c17-skip-segment','C17','a node whose part of the step is exactly zero, followed by other nodes',
 'the offset into dx is not advanced for that node, the following nodes get the wrong segments',
 [(FG+'factor_graph_solve.cpp','''        auto node_update = -dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
        active_nodes_[i]->update(node_update);
''','''        auto node_update = -dx_.block(acc_start, 0, active_nodes_[i]->get_dim(), 1);
        if (node_update.isZero(0.0))
            continue;// nothing to update
        active_nodes_[i]->update(node_update);
''')],
 py='''
g = mrob.FGraph()
a = g.add_node_pose_2d(np.zeros(3), mrob.NODE_STANDARD); b = g.add_node_pose_2d(np.zeros(3), mrob.NODE_STANDARD)
g.add_factor_1pose_2d(np.zeros(3), a, np.eye(3)); g.add_factor_1pose_2d(np.array([1,2,0.5]), b, np.eye(3))
g.solve(mrob.GN)
s = g.get_estimated_state()
check(norm(s[0]) < 1e-9 and norm(s[1].ravel() - [1,2,0.5]) < 1e-9, "linear problem not solved: %s" % s)
''')

seed('c18-late-restore','C18','Levenberg-Marquardt that runs out of iterations right after a rejected step',
 'a rejected step is only undone at the beginning of the next iteration, so the graph can be left at the worse state',
 [(FG+'factor_graph_solve.cpp','    matData_t currentChi2, deltaChi2, modelFidelity;\n    uint_t iter = 0;\n','    matData_t currentChi2, deltaChi2, modelFidelity;\n    uint_t iter = 0;\n    bool rejected = false;\n'),
  (FG+'factor_graph_solve.cpp','''        iter++;
        // 1) solve subproblem and current error
''','''        iter++;
        // 0) the last step is undone if it did not improve
        if (rejected)
            this->synchronize_nodes_state();
        rejected = false;
        // 1) solve subproblem and current error
'''),
  (FG+'factor_graph_solve.cpp','''            lambda_ *= beta1;
            this->synchronize_nodes_state();
            continue;''','''            lambda_ *= beta1;
            rejected = true;
            continue;''')],
 py='''
found = False
rng = np.random.RandomState(5)
for k in range(400):
    g = mrob.FGraph()
    a = g.add_node_pose_2d(np.zeros(3), mrob.NODE_ANCHOR); b = g.add_node_pose_2d(rng.randn(3)*[0.3,0.3,3], mrob.NODE_STANDARD)
    l = g.add_node_landmark_2d(rng.randn(2)*0.3, mrob.NODE_STANDARD)
    g.add_factor_2poses_2d(rng.randn(3)*3, a, b, np.eye(3)*rng.uniform(0.01,1), False)
    g.add_factor_1pose_1landmark_2d(np.array([2., rng.randn()]), a, l, np.eye(2), False)
    g.add_factor_1pose_1landmark_2d(np.array([3., rng.randn()*3]), b, l, np.eye(2)*10, False)
    e0 = g.chi2(True)
    g.solve(mrob.LM, 1)
    e1 = g.chi2(True)
    check(e1 <= e0*(1+1e-9), "LM left the graph worse: %g -> %g (graph %d)" % (e0, e1, k))
''')

seed('c19-reference-error','C19','two consecutive trial steps, the first rejected and the second worse than the start but better than the first',
 'the reference error follows rejected steps, so a step that increases the error is accepted',
 [('src/common/optimizer.cpp','''        auto diff_error = previous_error - current_error;
        improvement = true;''','''        auto diff_error = previous_error - current_error;
        previous_error = current_error;
        improvement = true;'''),
  ('src/common/optimizer.cpp','''            continue;
        }
        previous_error = current_error;
''','''            continue;
        }
''')],
 cpp='''
struct P: public OptimizerDense { double x=3, s=3; int k=0; std::vector<double> e{10,50,20,20,20,20,20,20};
  matData_t calculate_error() override { return k<(int)e.size()? e[k++] : e.back(); }
  void calculate_gradient_hessian() override { gradient_.resize(1); hessian_.resize(1,1); gradient_<<1; hessian_<<1; }
  void update_state() override { x+=dx_(0);} void bookkeep_state() override { s=x; } void update_state_from_bookkeep() override { x=s; } };
int main(){
    // errors of the start and of the trial steps: 10, 50 (rejected), 20 (has to be rejected too)
    P p; p.solve(Optimizer::LEVENBERG_MARQUARDT_SPHER,2,1e-2);
    CHECK(p.x==3,"a step that increases the error was accepted, x = "<<p.x);
    return 0;
}
''')

seed('c20-stale-residuals','C20','a gradient evaluated after the states moved without an error evaluation (e.g. right after a rejected LM step is undone)',
 'the gradient combines residuals of an older state with Jacobians of the current one',
 [(FG+'factor_graph_solve_dense.cpp','''        // XXX: If using some flags, this should no be needed (only for a case in LM)
        f->evaluate_residuals();
        f->evaluate_jacobians();
        f->evaluate_chi2();''','''        // residuals and chi2 are already available from calculate_error()
        f->evaluate_jacobians();''')],
 cpp='''
struct D: public FGraphSolveDense { MatX1& g(){return gradient_;} };
int main(){
    D g; std::shared_ptr<Node> n(new NodePose2d(Mat31::Zero())); g.add_node(n);
    std::shared_ptr<Factor> f(new Factor1Pose2d(Mat31::Zero(),n,Mat3::Identity())); g.add_factor(f);
    g.calculate_error(); Mat31 x; x<<1,2,0.3; n->set_state(x); g.calculate_gradient_hessian();
    CHECK((g.g()-x).norm()<1e-12,"gradient is not the one of the current state: "<<g.g().transpose());
    return 0;
}
''')

seed('c21-states-of-active','C21','a graph with an anchor that is not the last node, states read by node id',
 'the list of states leaves out the anchors, positions do not correspond to ids',
 [(FG+'factor_graph_solve.cpp','''    for (uint_t i = 0; i < nodes_.size(); i++)
    {
        //nodes_[i]->print();
        MatX updated_pos = nodes_[i]->get_state();''','''    for (uint_t i = 0; i < active_nodes_.size(); i++)
    {
        //nodes_[i]->print();
        MatX updated_pos = active_nodes_[i]->get_state();''')],
 py='''
g = mrob.FGraph()
a = g.add_node_pose_2d(np.array([1.,2,0]), mrob.NODE_ANCHOR); b = g.add_node_pose_2d(np.array([3.,4,0]), mrob.NODE_STANDARD)
s = g.get_estimated_state()
check(len(s) == 2 and norm(s[a].ravel()-[1,2,0]) < 1e-12 and norm(s[b].ravel()-[3,4,0]) < 1e-12, "states: %s" % s)
''')

seed('c22-reflection','C22','coplanar (or noisy) points for which the orthogonal solution is a reflection',
 'the wrong singular vector is flipped: a proper rotation is returned but it does not align the points',
 [(PC+'arun.cpp','        Vn << SVD.matrixV().topLeftCorner<3,2>(), -SVD.matrixV().topRightCorner<3,1>();','        Vn << -SVD.matrixV().topLeftCorner<3,1>(), SVD.matrixV().topRightCorner<3,2>();')],
 py='''
rng = np.random.RandomState(7)
for k in range(100):
    X = rng.randn(6,3); X[:,2] = 0
    X = X@mrob.geometry.SE3(rng.randn(6)).R().T
    T = mrob.geometry.SE3(rng.randn(6)); Y = T.transform_array(X)
    S = mrob.registration.arun(X, Y)
    check(norm(S.T() - T.T()) < 1e-6, "coplanar points not aligned (%d)" % k)
''')

seed('c23-hoisted-rotation','C23','GICP with anisotropic covariances of X and an initial rotation away from the solution (at least two iterations)',
 'the covariance of the points is rotated with the initial pose in all iterations, later steps are not Gauss-Newton steps of the objective',
 [(PC+'gicp.cpp','    uint_t iters = 0;\n','    uint_t iters = 0;\n    const Mat3 R = T.R();\n'),
  (PC+'gicp.cpp','T.R() * covX.block<3,3>(3*i,0) * T.R().transpose()','R * covX.block<3,3>(3*i,0) * R.transpose()')],
 cpp='''
int main(){
    std::mt19937 gen(3); std::normal_distribution<double> nd; int N=12; MatX X(N,3),Y(N,3),cX(3*N,3),cY(3*N,3);
    Mat61 xi; xi<<0.6,-0.5,0.7,1,2,3; SE3 G(xi);
    for(int i=0;i<N;i++){ Mat31 p,e; p<<nd(gen),nd(gen),nd(gen); e<<nd(gen),nd(gen),nd(gen); X.row(i)=p.transpose(); Y.row(i)=(G.transform(p)+0.1*e).transpose();
        Mat3 A; for(int k=0;k<9;k++)A(k/3,k%3)=nd(gen); cX.block<3,3>(3*i,0)=A*A.transpose()+0.01*Mat3::Identity(); cY.block<3,3>(3*i,0)=0.01*Mat3::Identity(); }
    SE3 T; PCRegistration::gicp(X,Y,cX,cY,T,1e-10);
    // stationarity of the Gauss-Newton objective at the solution
    Mat61 J=Mat61::Zero(); for(int i=0;i<N;i++){ Mat31 q=T.transform(X.row(i)), r=Y.row(i).transpose()-q; Mat3 L=(cY.block<3,3>(3*i,0)+T.R()*cX.block<3,3>(3*i,0)*T.R().transpose()).inverse();
        Mat<3,6> Jr; Jr<<hat3(q),-Mat3::Identity(); J+=Jr.transpose()*L*r; }
    CHECK(J.norm()<1e-5,"GICP did not stop at a stationary point of its objective: "<<J.norm());
    return 0;
}
''')

seed('c24-offset-point','C24','points with noise, i.e. not exactly on a plane',
 'the estimated plane passes through the first point instead of the centroid',
 [(PC+'estimate_plane.cpp','    matData_t d = - c*normal;','    matData_t d = - X.row(0).dot(normal);// any point of the plane')],
 py='''
rng = np.random.RandomState(8)
X = rng.randn(50,3)*[3,3,0.3] + [1,2,3]
pl = mrob.registration.estimate_plane(X).ravel(); c = X.mean(0)
check(abs(pl[:3]@c + pl[3]) < 1e-9, "the plane does not pass through the centroid")
''')

seed('c25-empty-time','C25','a plane that is not observed at some time in the middle of the trajectory',
 'no moment matrix is stored for that time, later times use the moments of other times',
 [(PC+'plane.cpp','''        for (uint_t t = 0; t < timeLength_; ++t)
        {
            Mat4 S = Mat4::Zero();
''','''        matrixS_.reserve(timeLength_);
        for (uint_t t = 0; t < timeLength_; ++t)
        {
            Mat4 S = Mat4::Zero();
            if (allPlanePoints_[t].empty() && t > 0)
            {
                // nothing observed, same as no contribution
                continue;
            }
'''),
  (PC+'plane.cpp','''            matrixS_.push_back(S);
        }
    }
}''','''            matrixS_.push_back(S);
        }
        matrixS_.resize(timeLength_, Mat4::Zero());
    }
}''')],
 cpp='''
int main(){
    auto traj = std::make_shared<std::vector<SE3>>(3); Mat61 xi; xi<<0.1,0.2,0.3,1,2,3; traj->at(1)=SE3(xi); traj->at(2)=SE3(Mat61(2*xi));
    Plane p(3); p.set_trajectory(traj); std::mt19937 gen(1); std::normal_distribution<double> nd; Mat4 Q=Mat4::Zero();
    for(int t : {0,2}) for(int i=0;i<5;i++){ Mat31 x; x<<nd(gen),nd(gen),0.05*nd(gen); p.push_back_point(x,t); Mat41 h; h<<x,1; h=traj->at(t).T()*h; Q+=h*h.transpose(); }
    double e=p.estimate_plane(); Eigen::SelfAdjointEigenSolver<Mat4> s(Q);
    CHECK(std::abs(e-s.eigenvalues()(0))<1e-9,"plane error "<<e<<" instead of "<<s.eigenvalues()(0));
    return 0;
}
''')

seed('c26-undo-last-only','C26','a rejected optimisation step that is undone (three or more poses)',
 'only the last pose is restored, the intermediate poses stay where the rejected step put them',
 [(PC+'plane_registration.cpp','''    trajectory_->back() = bookept_trajectory_;
    Mat61 xiFinal = bookept_trajectory_.ln_vee();
    double  tau = 1.0 / (double)(numberPoses_-1);
    Mat61 dxi;
    for (uint_t t = 1 ; t < numberPoses_-1; ++t)
    {
        dxi = tau * t * xiFinal;
        trajectory_->at(t) = SE3(dxi);
    }
    calculate_error();''','''    // the intermediate poses are functions of the last one, the next update calculates them
    trajectory_->back() = bookept_trajectory_;
    calculate_error();''')],
 cpp='''
struct R: public PlaneRegistration { void step(const Mat61 &d){ dx_=d; update_state(); } void save(){bookkeep_state();} void undo(){update_state_from_bookkeep();} };
int main(){
    R r; r.set_number_planes_and_poses(1,5); Mat61 xi; xi<<0.1,0.2,0.3,1,2,3; SE3 L(xi); r.set_last_pose(L);
    r.save(); Mat61 d; d<<0.3,-0.2,0.1,0.5,0.6,0.7; r.step(d); r.undo();
    for(int t=0;t<5;t++) CHECK((r.get_trajectory(t).T()-SE3(Mat61(t/4.0*xi)).T()).norm()<1e-9,"pose "<<t<<" was not restored");
    return 0;
}
''')

seed('c28-initialise-order','C28','a 2D landmark node created before the pose, initialised from the factor',
 'the initial landmark is computed from the first node of the list, which is the landmark itself in that order',
 [(FA+'factor1Pose1Landmark2d.cpp','''        Mat31 x = nodePose->get_state();
        Mat21 dl;''','''        Mat31 x = Mat31::Zero();
        MatX origin = neighbourNodes_[0]->get_state();
        x.head(origin.rows()) = origin;
        Mat21 dl;''')],
 py='''
g = mrob.FGraph()
l = g.add_node_landmark_2d(np.array([7.,8]), mrob.NODE_STANDARD); n = g.add_node_pose_2d(np.array([1.,2,0.5]), mrob.NODE_STANDARD)
g.add_factor_1pose_1landmark_2d(np.array([2.,0.3]), n, l, np.eye(2), True)
check(g.chi2(True) < 1e-12, "the initialised landmark does not fit the observation: %g" % g.chi2(True))
''')

PYB='mrobpy/'
seed('c27-view-with-gaps','C27','an information matrix passed as a slice of a larger numpy array',
 'the binding of add_factor_2poses_3d reads the information matrix as if its rows were contiguous, so a sliced array gives another matrix',
 [(PYB+'FGraphPy.cpp','''        std::shared_ptr<mrob::Factor> f(new mrob::Factor2Poses3d(obs,nO,nT,obsInvCov, updateNodeTarget, robust_type_));''',
 '''        // map the array directly, no copy of the 36 elements is needed
        Eigen::Map<const Mat6> information(obsInvCov.data());
        std::shared_ptr<mrob::Factor> f(new mrob::Factor2Poses3d(obs,nO,nT,information, updateNodeTarget, robust_type_));''')],
 py='''
def g(W):
    G = mrob.FGraph(); a = G.add_node_pose_3d(mrob.geometry.SE3()); b = G.add_node_pose_3d(mrob.geometry.SE3(np.array([.1,.2,-.1,1,2,3])))
    G.add_factor_2poses_3d(mrob.geometry.SE3(np.array([.2,.1,-.2,1.5,2,2])), a, b, W); return G.chi2()
big = np.arange(144.).reshape(12, 12)*.01; big[:6, :6] = np.diag([1.,2,3,4,5,6])
x, y = g(np.diag([1.,2,3,4,5,6])), g(big[:6, :6])
check(abs(x-y) < 1e-9*(1+abs(x)), "information matrix changed on the way: %g %g" % (x, y))
''')
seed('c27-kernel-forgotten','C27','a graph with a robust kernel and a point to plane factor with a large residual',
 'the binding of add_factor_1pose_point2plane leaves out the robust kernel of the graph, these factors are quadratic',
 [(PYB+'FGraphPy.cpp','z_point_x,z_point_y, z_normal_y,n1,obsInf, robust_type_','z_point_x,z_point_y, z_normal_y,n1,obsInf')],
 py='''
def b(k):
    G = mrob.FGraph(k); n = G.add_node_pose_3d(mrob.geometry.SE3())
    G.add_factor_1pose_point2plane(np.array([1.,2,3]), np.array([0.,0,-40]), np.array([0.,0,1]), n, np.eye(1)); G.solve(mrob.GN); return norm(G.get_vector_b())
try: q, h = b(mrob.QUADRATIC), b(mrob.HUBER)
except Exception as e: print(e); sys.exit(2)
check(h < .5*q, "the kernel of the graph does not reach the factor: %g %g" % (q, h))
''')
