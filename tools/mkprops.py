#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
G='src/geometry/'; F='src/FGraph/'; FF='src/FGraph/factors/'; R='src/PCRegistration/'; O='src/common/'
p('C01','Exponential maps build exactly the rotation / rigid motion of the twist',
 'For every 3-vector w, building a rotation from w gives the rotation by angle |w| about w (Rodrigues: orthonormal, determinant +1), and for every twist (w,v) building a rigid transform gives that rotation, translation V(w)v with V the left Jacobian of SO(3), and last row 0 0 0 1. This holds at zero, for tiny and for large angles, without a jump where the implementation changes formula.',
 ['inputs'],'all w in R^3 and v in R^3, including |w|=0, the Taylor region and |w|>=pi',
 'se3_test.py samples a few dozen random twists; the small-angle formula and the switch-over are hit by a handful of values only.',
 [G+'SO3.cpp',G+'SE3.cpp'],[('SO3::exp Rodrigues and Taylor branch','src/geometry/SO3.cpp'),('SE3::exp closed form of V','src/geometry/SE3.cpp')],['SO3(w).R()','SE3(xi).T()'])
p('C02','Logarithm inverts the exponential on the whole group, including angle 0 and pi',
 'For every rotation matrix the logarithm returns a vector w whose exponential is that matrix and whose norm is the rotation angle in [0,pi]; for every rigid transform the logarithm returns a twist whose exponential is that transform. In particular it is exact for the identity and for half turns about every axis (there up to the sign of w), and ln(exp(w)) = w whenever |w| < pi.',
 ['inputs'],'all rotations (axis anywhere on the sphere, angle 0..pi inclusive) and all translations',
 'The tests use random twists; measure-zero cases (half turns, axes on a coordinate plane, equal diagonal entries) and the trace thresholds are hardly ever drawn.',
 [G+'SO3.cpp',G+'SE3.cpp'],[('SO3::ln case split on the trace','src/geometry/SO3.cpp'),('SE3::ln inverse of V','src/geometry/SE3.cpp')],['SO3.ln/ln_vee','SE3.ln/ln_vee'])
p('C03','Rotations and rigid transforms obey the group laws and act on points',
 'Products and inverses of rotations and rigid transforms are those of the matrices they represent (A*A^-1 = identity, (AB)^-1 = B^-1 A^-1, results are again valid transforms), and transforming a point p yields R p + t, so that (AB)p = A(Bp). Transforming an N x 3 array applies the same map to each row, in order, for every N.',
 ['inputs'],'all pairs of transforms, all points, all array lengths',
 'Only a few random instances and one array are tested; row-count and composition laws are for-all statements.',
 [G+'SO3.cpp',G+'SE3.cpp'],[('operator*, mul, inv, transform, transform_array','src/geometry/SE3.cpp')],['SE3.mul, inv, transform, transform_array, R, t, T','SO3.mul, inv, R'])
p('C04','Tangent-space conventions: hat/vee, adjoint, left and right updates agree',
 'hat and vee are mutually inverse linear maps with the twist ordered (rotation, translation); the adjoint of T satisfies T exp(x) T^-1 = exp(Adj(T) x), i.e. T hat(x) T^-1 = hat(Adj(T) x), and Adj(AB)=Adj(A)Adj(B). Left update by x multiplies exp(x) on the left, right update on the right, and regenerating a transform leaves the transform it represents unchanged.',
 ['inputs'],'all transforms and all twists',
 'One adjoint instance is tested; block placement and ordering mistakes that vanish for zero translation or symmetric data pass.',
 [G+'SO3.cpp',G+'SE3.cpp',G+'SE3cov.cpp'],[('hat3/vee3/hat6/vee6/adj/update_lhs/update_rhs/regenerate/curly_wedge','src/geometry/SE3.cpp')],['SE3.adj, update_lhs, update_rhs, regenerate','hat/vee helpers'])
p('C05','Pose distances measure the relative motion',
 'The distance of two transforms is the norm of the logarithm of A B^-1, the rotation distance is the angle in [0,pi] of the relative rotation and the translation distance the Euclidean distance of the translations. Hence they are non-negative, symmetric for rotation and translation distances, and zero exactly when the corresponding parts coincide.',
 ['inputs'],'all pairs of transforms/rotations','The tests never check the distances against the relative motion.',
 [G+'SO3.cpp',G+'SE3.cpp'],[('distance, distance_rotation, distance_trans','src/geometry/SE3.cpp')],['SE3.distance*','SO3.distance'])
p('C06','Validity predicates accept exactly the valid rotations and transforms',
 'The rotation predicate accepts every 3x3 matrix that is orthonormal with determinant +1 (up to rounding) and rejects every matrix that is not, by more than a small tolerance, orthonormal or has determinant -1. The transform predicate accepts exactly the 4x4 matrices whose rotation block is accepted and whose last row is 0 0 0 1 up to a small tolerance, whatever the sign of the deviation.',
 ['inputs'],'all 3x3 and 4x4 real matrices','Only random (far from orthonormal) and exact matrices are tried; scaled/sheared matrices of determinant one and negative deviations are not.',
 [G+'SO3.cpp',G+'SE3.cpp'],[('isSO3','src/geometry/SO3.cpp'),('isSE3','src/geometry/SE3.cpp')],['isSO3','isSE3'])
p('C07','Quaternion and roll-pitch-yaw conversions represent the same rotation',
 'Converting a non-zero quaternion [qx,qy,qz,qw] gives the rotation matrix of the normalised quaternion (a valid rotation, independent of scale and sign), converting a rotation to a quaternion gives a unit quaternion that converts back to the same rotation on every branch of the trace, and roll-pitch-yaw (r,p,y) gives Rx(r) Ry(p) Rz(y).',
 ['inputs'],'all non-zero quaternions, all rotations incl. half turns, all angle triples','Tests compare a few random draws; half-turn branches are unreachable by random sampling with positive trace.',
 [G+'SO3.cpp'],[('quat_to_so3, so3_to_quat, rpy_to_so3','src/geometry/SO3.cpp')],['quat_to_so3','so3_to_quat','rpy_to_so3'])
p('C08','Covariance compounding propagates uncertainty to second and fourth order',
 'Compounding a pose with covariance S1 by an increment with covariance S2 yields the product pose and, to second order, S1 + Ad S2 Ad^T, and to fourth order additionally the correction of Barfoot and Furgale 2014 in the (rotation, translation) ordering. The resulting covariance is symmetric whenever the inputs are, and product, operator and overloads taking pose+matrix agree.',
 ['inputs'],'all poses, increments and symmetric 6x6 covariances','se3cov_test.py compares against one fixed example.',
 [G+'SE3cov.cpp'],[('compound_2nd_order / compound_4th_order','src/geometry/SE3cov.cpp')],['SE3Cov.compound_2nd_order, compound_4th_order, mul, cov, T'])
p('C09','Angle wrapping terminates and normalises into [-pi, pi)',
 'For every finite angle the 2D angle wrap returns a value in [-pi, pi) that differs from the argument by an integer multiple of 2 pi, and leaves angles already in that interval unchanged. It returns for every finite argument, however large, in bounded time.',
 ['inputs'],'all finite angles','No test calls it with angles of more than one turn; termination for large magnitudes cannot be sampled.',
 [F+'node.cpp'],[('wrap_angle','src/FGraph/node.cpp')],['states of 2D poses','2D residuals'])
p('C10','Nodes apply updates on their manifold and keep principal and saved state apart',
 'Updating a node adds the increment for 2D poses (heading wrapped) and landmarks, renormalises the plane normal, and multiplies exp(dx) on the left for 3D poses; set/get round-trip. The auxiliary (saved) state changes only when it is set explicitly, updating from the auxiliary state yields saved (+) dx, and none of these operations changes the other of the two states.',
 ['inputs','histories'],'all node kinds, states and increments, any sequence of update/set/save/restore','Tests only look at the end result of one optimisation.',
 [FF+'nodePose2d.cpp',FF+'nodePose3d.cpp',FF+'nodeLandmark2d.cpp',FF+'nodeLandmark3d.cpp',FF+'nodePlane4d.cpp'],[('update / update_from_auxiliary / set_state / set_auxiliary_state','src/FGraph/factors/node*.cpp')],['node.get_state, get_auxiliary_state'],
 [('state_, auxiliaryState_','principal and saved state','src/FGraph/mrob/factors/node*.hpp')])
p('C11','Every factor residual is the documented measurement error',
 'Each factor evaluates r = h(x) - z for its documented measurement model (pose priors, relative 2D/3D poses, 2D odometry, range-bearing and 3D landmarks, planes, point-to-plane) at the current states of its nodes, with 2D angle components wrapped to [-pi,pi). The residual is zero when the states reproduce the observation exactly.',
 ['inputs'],'all states, observations and node orders','fgraph_test.py builds tiny graphs and mostly checks nothing but absence of exceptions.',
 [FF+'factor1Pose2d.cpp',FF+'factor1Pose3d.cpp',FF+'factor2Poses2d.cpp',FF+'factor2Poses3d.cpp',FF+'factor1Pose1Landmark2d.cpp',FF+'factor1Pose1Landmark3d.cpp',FF+'factor1Pose1Plane4d.cpp',R+'factors/factor1PosePoint2Plane.cpp'],[('evaluate_residuals of each factor','src/FGraph/factors/factor*.cpp')],['factor.get_residual'])
p('C12','Every factor Jacobian is the derivative of its residual under the node update',
 'For every factor the Jacobian equals the derivative of the residual with respect to the increments applied by the node update, with the blocks in the order of the factor\'s nodes; for 3D pose-pose and pose-prior factors it is the documented first-order linearisation, exact where the residual vanishes, and for planes the derivative is with respect to the increment before renormalisation.',
 ['inputs'],'all states and observations, both node orders','A wrong Jacobian only slows convergence, so the optimisation tests keep passing.',
 [FF+'factor1Pose2d.cpp',FF+'factor1Pose3d.cpp',FF+'factor2Poses2d.cpp',FF+'factor2Poses3d.cpp',FF+'factor1Pose1Landmark2d.cpp',FF+'factor1Pose1Landmark3d.cpp',FF+'factor1Pose1Plane4d.cpp',R+'factors/factor1PosePoint2Plane.cpp'],[('evaluate_jacobians of each factor','src/FGraph/factors/factor*.cpp')],['factor.get_jacobian'])
p('C13','Factor errors and robust weights follow the documented kernels',
 'The error of a factor is chi2 = 1/2 r^T W r for its residual and information matrix, and the robust weight at u = sqrt(r^T W r) is 1 (quadratic), 1 for u<1 and 1/u otherwise (Huber), 1/(1+u^2) (Cauchy), 1/(1+u^2)^2 (McClure), and 1 for u<1 and 0 otherwise (Ransac). Weights lie in [0,1] and never increase with u.',
 ['inputs','configurations'],'all residuals, information matrices, u>=0, all kernel kinds','No test selects a robust kernel or checks a weight.',
 [F+'factor.cpp']+[FF+'factor%s.cpp'%x for x in ('1Pose2d','2Poses2d','2Poses3d')],[('Factor::evaluate_robust_weight, evaluate_chi2','src/FGraph/factor.cpp')],['factor.get_chi2','evaluate_robust_weight','W of the linear system'])
p('C14','The measurement a binary factor encodes does not depend on node creation order',
 'A factor between two nodes encodes the same measurement whichever node has the smaller id: swapping the creation order yields an equivalent residual (same error for an observation, zero for the same states), nodes listed by increasing id, and Jacobian blocks matching that list.',
 ['inputs','configurations'],'all states, observations, both id orders','Tests always create the origin/pose node first.',
 [FF+'factor2Poses2d.cpp',FF+'factor2Poses3d.cpp',FF+'factor1Pose1Landmark2d.cpp',FF+'factor1Pose1Landmark3d.cpp',FF+'factor1Pose1Plane4d.cpp'],[('node ordering in constructors','src/FGraph/factors/factor2Poses3d.cpp')],['factor.get_residual, get_jacobian, get_neighbour_nodes'])
p('C15','Graph bookkeeping: ids, dimensions, active nodes and adjacency stay consistent',
 'After any sequence of node and factor additions, ids are consecutive in order of insertion and look-up by id returns that element, the state dimension is the sum of dimensions of the non-anchor nodes and the observation dimension that of all factors, and each node lists exactly the factors attached to it. Removing a factor from a node removes that factor only and removing one that is not attached changes nothing.',
 ['inputs','histories'],'all sequences of additions/removals of any length','The tests build a few graphs of fixed shape.',
 [F+'factor_graph.cpp',F+'node.cpp'],[('FGraph::add_node/add_factor/get_node/get_factor','src/FGraph/factor_graph.cpp'),('Node::add_factor/rm_factor','src/FGraph/node.cpp')],['FGraph ids, get_dimension_state, get_dimension_obs'],
 [('stateDim_, obsDim_, active_nodes_','aggregates of the graph','src/FGraph/mrob/factor_graph.hpp')])
p('C16','The assembled linear system is exactly the weighted normal equations',
 'Building the problem stacks each factor\'s Jacobian rows at its row offset with every block at the column offset of its (non-anchor) node and nothing elsewhere, stacks residuals likewise, fills the block-diagonal weight with robust weight times information matrix, and forms L = A^T W A and b = A^T W r, for every mixture of node and factor kinds.',
 ['inputs','configurations'],'all graphs: any number and kind of nodes (anchors included) and factors','Tests use two or three nodes of one kind and inspect none of the matrices.',
 [F+'factor_graph_solve.cpp'],[('build_adjacency, build_info_adjacency','src/FGraph/factor_graph_solve.cpp')],['get_adjacency_matrix, get_information_matrix, get_W_matrix, get_vector_b'],
 [('A_, W_, r_, L_, b_','linear system','src/FGraph/mrob/factor_graph_solve.hpp')])
p('C17','A Gauss-Newton step solves the normal equations and moves only active nodes',
 'One Gauss-Newton solve computes dx with L dx = b and updates every non-anchor node by minus its own segment of dx, each exactly once; anchor nodes keep their state. Linear problems (2D landmarks/pose priors) are therefore solved to their weighted least-squares optimum in one step.',
 ['inputs','configurations'],'all graphs and states with positive definite information matrix','Only tiny graphs without checking the solution against the normal equations.',
 [F+'factor_graph_solve.cpp'],[('solve(GN), optimize_gauss_newton, update_nodes','src/FGraph/factor_graph_solve.cpp')],['FGraph.solve, get_estimated_state'])
p('C18','Sparse Levenberg-Marquardt never leaves the graph worse than it found it',
 'Solving with Levenberg-Marquardt ends with a total error no larger than at the start, a rejected step restores exactly the state before it, the damping starts from the value supplied by the caller and grows on rejection, the step solves (L + lambda I) dx = b, and no more than the given number of iterations (at least 1) is made.',
 ['inputs','histories'],'all graphs, starting states, dampings, tolerances and iteration limits','Tests run one or two well-conditioned problems where no step is ever rejected.',
 [F+'factor_graph_solve.cpp'],[('optimize_levenberg_marquardt, synchronize_nodes_*','src/FGraph/factor_graph_solve.cpp')],['FGraph.solve(LM,...), chi2'])
p('C19','Dense optimiser: damped Newton steps, monotone LM, iteration accounting',
 'The dense optimiser computes dx = -(H + D)^-1 g with D = 0 (Newton), lambda I (spherical) or lambda diag(H) (elliptical); Levenberg-Marquardt accepts only steps that do not increase the error and otherwise restores the saved state and increases lambda; both methods stop within the requested number of iterations (at least 1) and report the number of iterations made.',
 ['inputs','histories'],'all cost functions (any sequence of error values), dampings, tolerances and limits','Not exercised by the Python tests except through one plane-registration run.',
 [O+'optimizer.cpp'],[('Optimizer::solve, optimize_newton_raphson, optimize_levenberg_marquardt','src/common/optimizer.cpp')],['Optimizer::solve'],[('lambda_','damping','src/common/mrob/optimizer.hpp')])
p('C20','The dense graph solver uses the true gradient and Hessian of the total error',
 'For every graph the dense solver\'s gradient is sum J^T W r and its Hessian sum J^T W J over all factors, arranged by the non-anchor nodes, evaluated at the current state; a state update adds to each such node its own segment and never touches anchors, and save/restore brings back the saved state.',
 ['inputs','configurations'],'all graphs (unary and binary factors, any node order, anchors)','The dense solver is not covered by the stable tests.',
 [F+'factor_graph_solve_dense.cpp'],[('calculate_gradient_hessian, update_state','src/FGraph/factor_graph_solve_dense.cpp')],['FGraphSolveDense::solve and states'])
p('C21','Reported errors and states describe the current graph, in id order',
 'The total error is the sum of the errors of all factors, re-evaluated at the current states when requested and as last evaluated otherwise; the per-factor error array holds factor i\'s error at position i and the estimated-state list holds node i\'s state (anchors included) at position i.',
 ['inputs','histories'],'all graphs and histories','Tests print these values without checking them.',
 [F+'factor_graph_solve.cpp'],[('chi2, get_chi2_array, get_estimated_state','src/FGraph/factor_graph_solve.cpp')],['FGraph.chi2, get_chi2_array, get_estimated_state'])
p('C22','Closed-form point alignment returns the optimal rigid transform',
 'Closed-form alignment of two N x 3 point sets (N >= 3) that reports success returns a proper rigid transform minimising sum |y_i - (R x_i + t)|^2; for noise-free correspondences of non-collinear points, coplanar ones included, it succeeds and recovers the transform that generated them, and for collinear points it reports failure and leaves the transform untouched.',
 ['inputs'],'all point sets and transforms','One cloud of 500 random points is tested; coplanar, symmetric, minimal and reflected cases are not.',
 [R+'arun.cpp'],[('PCRegistration::arun','src/PCRegistration/arun.cpp')],['arun / registration'])
p('C23','Iterative registration performs Gauss-Newton on its weighted objective',
 'Each iteration of weighted point registration and of GICP applies the Gauss-Newton step, over the left perturbation of T, of sum w_i |y_i - T x_i|^2 respectively of sum r_i^T (Cy_i + R Cx_i R^T)^-1 r_i with all points contributing, and stops when the step is below the tolerance or after 20 iterations, returning the number of iterations; the exact transform of noise-free data is a fixed point.',
 ['inputs','histories'],'all point sets, weights, covariances and starting transforms','Tests register one random cloud and compare only the final transform.',
 [R+'gicp.cpp',R+'weight_point.cpp'],[('PCRegistration::gicp','src/PCRegistration/gicp.cpp'),('PCRegistration::weighted_point','src/PCRegistration/weight_point.cpp')],['gicp, weighted_point'])
p('C24','Plane, normal and centroid estimation fit the given points',
 'The centroid is the mean of all rows; the estimated plane has a unit normal that minimises the sum of squared distances of the points, passes through the centroid, and the estimated normal is that normal; points lying exactly on a plane are recovered (up to sign) exactly.',
 ['inputs'],'all point sets of any length >= 3','Not covered by the stable tests beyond one cloud.',
 [R+'estimate_plane.cpp'],[('estimate_plane, estimate_normal, estimate_centroid','src/PCRegistration/estimate_plane.cpp')],['estimate_plane/normal/centroid'])
p('C25','Plane eigen-factors accumulate all points and differentiate their error',
 'A plane keeps, per time index, exactly the points pushed for it; its moment matrix at time t is the sum of p p^T over homogeneous points, its transformed moments are T_t S_t T_t^T, its error is the smallest eigenvalue of their sum with the corresponding unit vector as plane, and gradient (and Hessian) at t equal pi^T dQ pi (pi^T ddQ pi) for a left perturbation of pose t. Errors for changed poses, recomputation after further points, reset and clearing describe the points and poses then present; the error, gradient and Hessian of a registration are the sums over its planes and times, the latter two weighted by t/(n-1).',
 ['inputs','histories'],'all points, poses, times, and sequences of pushes','The stable tests run one synthetic registration only.',
 [R+'plane.cpp'],[('Plane::push_back_point, calculate_all_matrices_S/Q, calculate_gradient/hessian, estimate_plane','src/PCRegistration/plane.cpp')],['Plane errors, gradients, get_points'],[('matrixS_, matrixQ_, accumulatedQ_','moments','src/PCRegistration/mrob/plane.hpp')])
p('C26','Interpolated trajectories: pose t is exp(t/(n-1) ln T_last), first pose fixed',
 'Plane registration keeps the first pose at identity and, after setting the last pose, after an optimiser step or after undoing one, sets every intermediate pose t of n to exp(t/(n-1) ln(T_last)), the last pose being the one set, updated on the left by the step, or restored exactly. Pose error rmse against ground truth is sqrt(1/n sum |ln(T_t G_t^-1)|^2).',
 ['inputs','histories'],'all trajectory lengths, last poses and steps','Only one synthetic run of fixed length is tested.',
 [R+'plane_registration.cpp'],[('set_last_pose, update_state, bookkeep_state, update_state_from_bookkeep','src/PCRegistration/plane_registration.cpp')],['PlaneRegistration.get_trajectory, get_last_pose'])
p('C27','Python bindings forward to the library without changing values',
 'Every geometry, factor-graph, registration and plane function exposed to Python passes its arguments in order, with the documented defaults (standard nodes, no initialisation, quadratic kernel, solve = GN, 30 iterations, lambda 1e-6, tolerance 1e-2) to the C++ operation of the same name and returns its result unchanged; overloads are told apart by their argument types; arrays give the same values whatever their memory layout; a factor created from Python connects the named nodes in the named roles and uses the robust kernel the graph was constructed with; named constants are the C++ enumeration values.',
 ['inputs','programs'],'all calls through the Python module','Tests call part of the surface with one value each.',
 ['mrobpy/SE3py.cpp','mrobpy/FGraphPy.cpp','mrobpy/PCRegistrationPy.cpp','mrobpy/PCPlanesPy.cpp'],[('pybind11 module definitions','mrobpy/mrobPy.cpp')],['Python module mrob'])
p('C28','Initialising a node from a factor makes the observation fit',
 'When a factor is created with the option to initialise its target pose or landmark from the origin\'s state and the observation, the target\'s new state is the one the observation predicts, so the factor\'s residual is zero right afterwards, for either node order; without the option no node state changes when a factor is created.',
 ['inputs','configurations'],'all states, observations, node orders','Only used along one trajectory in one test.',
 [FF+'factor2Poses2d.cpp',FF+'factor2Poses3d.cpp',FF+'factor1Pose1Landmark2d.cpp',FF+'factor1Pose1Landmark3d.cpp'],[('constructors with updateNodeTarget / initializeLandmark','src/FGraph/factors')],['node.get_state after factor creation'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P), max(len(x['title']) for x in P))
