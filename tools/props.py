# One table: properties.jsonl and MANIFEST.json are generated from it (tools/gen.py).
# P(id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], technique, level_note | None, na reason)
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, tech=None, note=None, na=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, tech=tech, note=note, na=na, observe=observe or []))


K = 'orocos_kdl/src/'
ALG = 'static: algebraic value numbering over compiler IR (gated phi values, normal-form identity)'
ALGNOTE = ('Sound and complete for the listed laws over real arithmetic: every law is an identity of normal forms of the value '
           'computed by the current sources, for all inputs, on every gated branch; a law that does not reduce is reported with the '
           'residual and the source lines it flows through. Floating-point rounding, overflow and NaN are outside the model. '
           'Trusts clang-18 lowering and the normaliser in lib/alg.py, lib/gvn.py.')

P('C01', 'Rotations, vectors and frames obey the algebra of rigid displacements',
  'For all vectors, rotations and frames: vector arithmetic, dot and cross product obey the laws of a Euclidean vector space; '
  'rotation and frame composition are associative with the identity as neutral element; composing with the inverse gives the identity, '
  'and every inverse-apply shortcut equals applying the computed inverse. Application to vectors and points preserves '
  'dot and cross products (rotations) and commutes with composition, and element access, 4x4 conversion and basis-vector accessors agree with that algebra.',
  ['inputs'], 'all vectors, all proper rotations (every unit quaternion), all frames; real arithmetic',
  'frames tests compare a few sampled poses up to a tolerance; a wrong term that vanishes on the sampled values (axis-aligned or small ones) stays unseen.',
  [K + 'frames.hpp', K + 'frames.inl', K + 'frames.cpp'],
  [('Vector, Rotation and Frame operators', K + 'frames.inl'), ('Rotation product, Make4x4, norms', K + 'frames.cpp')],
  ALG, ALGNOTE)
P('C02', 'Twists and wrenches transform consistently and power is invariant',
  'For all twists, wrenches, rotations, frames and vectors: twists and wrenches form a vector space; changing base frame, changing reference point '
  'and full frame transformation of each agree with one another, with composition of frames and with their inverses; and the power of a wrench on a '
  'twist is unchanged by any change of frame or reference point. The twist-twist and twist-wrench (spatial) products agree with the corresponding motion/force cross products.',
  ['inputs'], 'all twists, wrenches, frames, reference points; real arithmetic',
  'tests evaluate two or three twists and frames; duality between twists and wrenches is a universally quantified identity.',
  [K + 'frames.hpp', K + 'frames.inl'],
  [('Twist/Wrench RefPoint, Rotation*Twist, Frame*Twist, Inverse(Twist)', K + 'frames.inl')], ALG, ALGNOTE)
P('C03', 'Rotation and frame constructors and conversions are mutually consistent',
  'Every rotation built from elementary axes, RPY, Euler ZYX/ZYZ angles, axis-angle or a unit quaternion is a proper rotation and equals the composition of the elementary '
  'rotations its convention documents, and the Denavit-Hartenberg constructors equal their documented products of elementary displacements. Converting a rotation to a quaternion, RPY, Euler '
  'or axis-angle representation and back gives the same rotation away from the documented singularities. Rotating by a rotation vector, adding a delta and integrating '
  'a twist agree with the axis-angle constructor.',
  ['inputs'], 'all angles, axes, unit quaternions and rotations (conversions back: away from the representation singularities, on every internal branch)',
  'tests sample a handful of angles; a convention mix-up in one of the four quaternion branches or an angle-order slip needs particular inputs to show.',
  [K + 'frames.cpp', K + 'frames.inl'],
  [('Rotation::Rot/Rot2/RPY/EulerZYX/EulerZYZ/Quaternion and Get*', K + 'frames.cpp'), ('Frame::DH, Frame::DH_Craig1989', K + 'frames.cpp'), ('Rotation::Rot, addDelta, Frame::Integrate', K + 'frames.inl')],
  ALG, ALGNOTE)
P('C04', 'Velocity-level types carry the time derivative of their value',
  'For every operator, constructor and accessor of doubleVel, VectorVel, RotationVel, FrameVel and TwistVel: the value part of the result is the same operation on the value parts, '
  'and the derivative part is the exact time derivative of that value (with the angular velocity of a rotation expressed in the reference frame). '
  'diff and addDelta on these types are consistent with that reading, and mixed operators with constant operands equal the operator on the constant lifted with zero velocity.',
  ['inputs'], 'all values and velocities of the operands; every overload of the velocity-level operators',
  'the framevel tests compare two or three sampled expressions; a wrong cross-product order or dropped term in one overload is not exercised or cancels.',
  [K + 'framevel.hpp', K + 'framevel.inl', K + 'utilities/rall1d.h'],
  [('VectorVel/RotationVel/FrameVel/TwistVel operators', K + 'framevel.inl'), ('Rall1d arithmetic', K + 'utilities/rall1d.h')], ALG, ALGNOTE)
P('C05', 'Acceleration-level types carry first and second time derivatives',
  'For every operator, constructor and accessor of doubleAcc, VectorAcc, RotationAcc, FrameAcc and TwistAcc: the value part of the result is the same operation on the value parts, '
  'the velocity part is its exact first and the acceleration part its exact second time derivative. '
  'Mixed operators with constant operands equal the operator on the constant lifted with zero velocity and acceleration.',
  ['inputs'], 'all values, velocities and accelerations; every overload of the acceleration-level operators',
  'second-derivative terms (centripetal and Coriolis products, factor-two terms) are numerically small in the sampled tests, many overloads are never called by any test.',
  [K + 'frameacc.hpp', K + 'frameacc.inl', K + 'utilities/rall2d.h'],
  [('VectorAcc/RotationAcc/FrameAcc/TwistAcc operators', K + 'frameacc.inl'), ('Rall2d arithmetic', K + 'utilities/rall2d.h')], ALG, ALGNOTE)
P('C06', 'Automatic-differentiation numbers obey the chain rule',
  'For Rall1d, Rall2d and nested Rall1d numbers, every arithmetic operator (including mixed, compound and self-aliased forms) and every elementary function returns the value of the '
  'operation on the values together with its exact first (and second) derivative by the chain rule. '
  'Constants have zero derivative, and the zero and identity elements are neutral.',
  ['inputs'], 'all values and derivatives in the domain of the function; every operator and function overload instantiable in the tree',
  'the existing rall tests check a few compound expressions numerically; aliased compound assignments and the inverse functions are not covered.',
  [K + 'utilities/rall1d.h', K + 'utilities/rall2d.h'],
  [('Rall1d', K + 'utilities/rall1d.h'), ('Rall2d', K + 'utilities/rall2d.h')], ALG, ALGNOTE)
P('C07', 'Inertias are covariant and kinetic energy is frame-invariant',
  'For all rotational, rigid-body and articulated-body inertias: momentum is the documented function of mass, centre of gravity and inertia; addition and scaling are linear; '
  'changing the orientation or the reference point, or transforming with a frame, commutes with applying the inertia to a twist. '
  'Transforming composes with frame composition, inertias stay symmetric, kinetic energy is invariant, and a rigid-body inertia promoted to an articulated one acts identically.',
  ['inputs'], 'all masses, centres of gravity, inertia tensors, frames and twists; real arithmetic',
  'tests check a few random numeric instances up to a tolerance on the default construction only.',
  [K + 'rotationalinertia.hpp', K + 'rotationalinertia.cpp', K + 'rigidbodyinertia.cpp', K + 'rigidbodyinertia.hpp', K + 'articulatedbodyinertia.cpp'],
  [('RigidBodyInertia operators, RefPoint, Frame*', K + 'rigidbodyinertia.cpp'), ('RotationalInertia', K + 'rotationalinertia.cpp'), ('ArticulatedBodyInertia', K + 'articulatedbodyinertia.cpp')], ALG, ALGNOTE)
P('C08', 'Joint and segment twists are the time derivative of their poses',
  'For every joint type, axis, origin, scale and offset: the joint pose is a proper displacement of the documented form, and the joint twist is linear in the joint velocity and is the exact time '
  'derivative of the pose. A segment\'s pose is the joint pose composed with its tip so that the zero pose equals the given tip, and its twist is the '
  'derivative of that pose referenced at the tip; accessors, copies and inertia setters preserve every field.',
  ['inputs'], 'every joint type; all axes, origins, scales, offsets, tips, joint positions and velocities',
  'tests use axis-aligned joints with unit scale and zero offset almost everywhere; scale, offset and general axes interact in terms that then vanish.',
  [K + 'joint.hpp', K + 'joint.cpp', K + 'segment.hpp', K + 'segment.cpp'],
  [('Joint::pose/twist/JointAxis/JointOrigin', K + 'joint.cpp'), ('Segment::pose/twist/setFrameToTip', K + 'segment.cpp')], ALG, ALGNOTE)
P('C09', 'Velocity profiles are consistent motions within their limits',
  'For every velocity profile and all valid inputs: velocity and acceleration are the time derivatives of the position, the position is continuous, the motion starts at the start position, '
  'ends at the end position after exactly Duration(), and rests there before and after. Trapezoidal, half-trapezoidal and rectangular profiles never exceed their maximum velocity and acceleration, take exactly the requested duration '
  'whenever that is feasible, and spline profiles meet all requested boundary positions, velocities and accelerations. A clone describes the same motion.',
  ['inputs'], 'all start and end positions (both directions), positive limits, positive durations and times; real arithmetic',
  'tests sample a few times on a few profiles; direction, short-distance and infeasible-duration branches interact.',
  [K + 'velocityprofile_trap.cpp', K + 'velocityprofile_traphalf.cpp', K + 'velocityprofile_rect.cpp', K + 'velocityprofile_dirac.cpp', K + 'velocityprofile_spline.cpp'],
  [('VelocityProfile_Trap', K + 'velocityprofile_trap.cpp'), ('VelocityProfile_TrapHalf', K + 'velocityprofile_traphalf.cpp'), ('VelocityProfile_Rectangular', K + 'velocityprofile_rect.cpp'), ('VelocityProfile_Spline', K + 'velocityprofile_spline.cpp')], ALG, ALGNOTE)
P('C10', 'Paths and trajectories are consistent motions between the requested poses',
  'For every path and trajectory type and all valid inputs: the velocity and acceleration twists are the first and second time derivatives of the pose, the motion starts and ends at the requested poses, '
  'lines, arcs and rounded corners have the requested geometry and length, and compositions join their parts in order at the accumulated lengths and durations whatever was evaluated before. '
  'A clone describes the same motion and survives its original, and owned parts are destroyed exactly once while borrowed parts are never destroyed.',
  ['inputs', 'histories'], 'all poses, lengths, radii, angles and times; interpolations, paths, profiles and trajectories passed in are arbitrary implementations of the interface; compositions of up to three parts; rounded corners at a right angle and on a line',
  'tests build one or two paths and trajectories at sampled parameters; clones, shared interpolations, caching of the last segment and boundaries are not exercised.',
  [K + 'path_line.cpp', K + 'path_circle.cpp', K + 'path_composite.cpp', K + 'path_cyclic_closed.cpp', K + 'path_roundedcomposite.cpp', K + 'path_point.cpp', K + 'rotational_interpolation_sa.cpp', K + 'trajectory_segment.cpp', K + 'trajectory_composite.cpp', K + 'trajectory_stationary.hpp'],
  [('Path_Line', K + 'path_line.cpp'), ('Path_Circle', K + 'path_circle.cpp'), ('Path_Composite::Lookup', K + 'path_composite.cpp'), ('Path_RoundedComposite::Add', K + 'path_roundedcomposite.cpp'), ('Trajectory_Composite', K + 'trajectory_composite.cpp'), ('RotationalInterpolation_SingleAxis', K + 'rotational_interpolation_sa.cpp')], ALG, ALGNOTE)

CHAINNOTE = ALGNOTE + (' Loops over segments are unrolled: the chains have up to four segments of fixed joint types (turning, fixed, sliding, turning) with arbitrary axes offsets, '
                       'tips, inertias, joint positions, velocities and accelerations; nothing is concluded for longer chains except that the loops treat every segment alike.')
P('C13', 'Forward kinematics composes the segment poses and velocities',
  'For every chain, joint state and segment number, forward position kinematics returns the ordered composition of the poses of that many segments, with movable joints consuming the joint values in order and fixed joints consuming none. '
  'Forward velocity kinematics returns the same pose together with its exact time derivative. '
  'Negative segment numbers mean the whole chain, and the overloads returning all segments agree with the single-segment calls.',
  ['inputs'], 'all tips, joint axes positions and velocities of chains up to four segments with turning, sliding and fixed joints; every segment number',
  'tests compare the solvers with one another on a handful of robots and random states, so a mistake common to both, or one in an overload or segment number, stays unseen.',
  [K + 'chainfksolverpos_recursive.cpp', K + 'chainfksolvervel_recursive.cpp', K + 'chain.cpp', K + 'segment.cpp', K + 'joint.cpp'],
  [('ChainFkSolverPos_recursive::JntToCart', K + 'chainfksolverpos_recursive.cpp'), ('ChainFkSolverVel_recursive::JntToCart', K + 'chainfksolvervel_recursive.cpp')], ALG, CHAINNOTE)
P('C14', 'The Jacobian maps joint velocities to end-effector twists',
  'For every chain and joint state, the Jacobian times the joint velocities is the end-effector twist of forward velocity kinematics, for every segment number; the columns of locked joints vanish or are left out as documented. '
  'Changing base, reference point or frame of a Jacobian commutes with that map. '
  'The Jacobian time derivative is the exact derivative of the Jacobian along the motion in each representation, and its twist equals that derivative times the joint velocities.',
  ['inputs'], 'all joint axes, tips, positions and velocities; chains of up to four segments with turning, sliding and fixed joints; every lock pattern tried; the three representations of the derivative',
  'tests compare against finite differences with loose tolerances on two robots; reference-point and representation conversions with locked joints are untested.',
  [K + 'chainjnttojacsolver.cpp', K + 'chainjnttojacdotsolver.cpp', K + 'jacobian.cpp', K + 'jacobian.hpp'],
  [('ChainJntToJacSolver::JntToJac', K + 'chainjnttojacsolver.cpp'), ('ChainJntToJacDotSolver::JntToJacDot', K + 'chainjnttojacdotsolver.cpp'), ('Jacobian::changeBase/changeRefPoint/changeRefFrame', K + 'jacobian.cpp')], ALG, CHAINNOTE)
P('C16', 'Inverse dynamics balances momentum, gravity, external forces and rotors',
  'For every chain, state of motion, gravity and external forces, the joint torques of the recursive Newton-Euler solver are exactly those for which the linear and angular momentum of every segment changes at the rate the joint, gravity and external forces dictate. '
  'Joint rotor inertia adds its inertia times the joint acceleration. '
  'Fixed joints transmit forces, consume no joint value and produce no torque.',
  ['inputs'], 'all inertias, tips, joint scales, offsets and rotor inertias, states of motion, gravity vectors and external wrenches; chains of two general segments and three segments with turning, sliding and fixed joints in every position',
  'tests compare one solver with another or one configuration with a hand-computed number; terms quadratic in velocity, centre-of-gravity offsets and fixed joints interact and cancel on samples.',
  [K + 'chainidsolver_recursive_newton_euler.cpp', K + 'rigidbodyinertia.cpp', K + 'segment.cpp'],
  [('ChainIdSolver_RNE::CartToJnt', K + 'chainidsolver_recursive_newton_euler.cpp')], ALG, CHAINNOTE)
P('C17', 'Mass matrix, Coriolis, gravity and forward dynamics agree with inverse dynamics',
  'For every chain and state, the mass matrix is symmetric and mass matrix times acceleration plus Coriolis and gravity torques equals the inverse dynamics torque, and the Coriolis torque vanishes at rest. '
  'Forward dynamics returns the accelerations that give the applied torques back through mass matrix and inverse dynamics. '
  'Integrating the forward dynamics is the classical fourth-order Runge-Kutta step.',
  ['inputs'], 'all inertias, tips, joint scales, offsets and rotor inertias, states and torques; chains of two general and three simpler segments with turning, sliding and fixed joints; forward dynamics for every symmetric mass matrix up to four joints with non-vanishing pivots; integration of every linear and one-joint quadratic system',
  'tests check consistency on two robots with loose tolerances, and integration only for absence of blow-up; wrong Runge-Kutta weights pass them.',
  [K + 'chaindynparam.cpp', K + 'chainfdsolver_recursive_newton_euler.cpp', K + 'utilities/ldl_solver_eigen.cpp', K + 'jntspaceinertiamatrix.cpp'],
  [('ChainDynParam::JntToMass/JntToCoriolis/JntToGravity', K + 'chaindynparam.cpp'), ('ChainFdSolver_RNE::CartToJnt/RK4Integrator', K + 'chainfdsolver_recursive_newton_euler.cpp'), ('ldl_solver_eigen', K + 'utilities/ldl_solver_eigen.cpp')], ALG, CHAINNOTE)

ASG = 'static: algebraic value numbering over compiler IR, solvers called replaced by arbitrary ones (assume-guarantee)'
P('C18', 'Velocity inverse kinematics is the pseudo-inverse it documents',
  'For every chain, joint state, twist and singular value decomposition of the Jacobian, the joint velocities returned are the documented pseudo-inverse of that decomposition applied to the twist: truncated below the tolerance, damped and weighted (wdls), or with the optimising motion projected into the null space (nso). '
  'Failures of the Jacobian or of the decomposition are reported and set no motion, and truncation or damping is counted and reported.',
  ['inputs'], 'all Jacobians, twists, weights, tolerances and decompositions (any U, S, V and any return code); one, two, six and seven joints, up to three singular values of unknown size',
  'the tests only solve well-conditioned robots and verify the twist reached; truncation, damping, weights and failure paths are not distinguished by them.',
  [K + 'chainiksolvervel_pinv.cpp', K + 'chainiksolvervel_pinv_nso.cpp', K + 'chainiksolvervel_wdls.cpp', K + 'chainiksolvervel_pinv_givens.cpp'],
  [('ChainIkSolverVel_pinv::CartToJnt', K + 'chainiksolvervel_pinv.cpp'), ('ChainIkSolverVel_pinv_nso::CartToJnt', K + 'chainiksolvervel_pinv_nso.cpp'), ('ChainIkSolverVel_wdls::CartToJnt', K + 'chainiksolvervel_wdls.cpp'), ('ChainIkSolverVel_pinv_givens::CartToJnt', K + 'chainiksolvervel_pinv_givens.cpp')],
  ASG, ALGNOTE + ' The decompositions and the Jacobian solver are arbitrary here; that the decompositions converge to the singular values is not shown (see not-applicable SVD property).')
P('C19', 'Position inverse kinematics succeeds exactly when the pose is reached',
  'Whatever the kinematics solvers used return, Newton-Raphson and Levenberg-Marquardt position solvers report success exactly if the difference to the desired pose was within the tolerance, failures of the solvers used as such, and otherwise that the iterations ran out, after at most the number of iterations allowed. '
  'The result is the start plus the steps taken, with joint limits every step is clamped and the result lies within the limits. '
  'The statistics Levenberg-Marquardt reports are those of the result.',
  ['inputs', 'histories'], 'all start positions, poses, limits, tolerances and arbitrary (also failing) forward and velocity solvers; two joints and up to two iterations for Newton-Raphson; one sliding joint and up to two iterations for Levenberg-Marquardt',
  'tests run the solvers on reachable poses and check convergence; wrong codes, a step too many, or limits applied to the wrong joint only show for failing solvers or exhausted iterations.',
  [K + 'chainiksolverpos_nr.cpp', K + 'chainiksolverpos_nr_jl.cpp', K + 'chainiksolverpos_lma.cpp'],
  [('ChainIkSolverPos_NR::CartToJnt', K + 'chainiksolverpos_nr.cpp'), ('ChainIkSolverPos_NR_JL::CartToJnt', K + 'chainiksolverpos_nr_jl.cpp'), ('ChainIkSolverPos_LMA::CartToJnt', K + 'chainiksolverpos_lma.cpp')],
  ASG, ALGNOTE)
P('C20', 'Solvers reject inputs and results of the wrong size',
  'Every chain solver given a joint array, Jacobian, matrix, weight, limit, wrench list or segment number of the wrong size or range returns the documented error, whatever else it is given. '
  'The code returned is the one getError() reports, failures of the solvers used are passed on, and distinct codes have distinct texts. '
  'With the right sizes the size error is never returned.',
  ['inputs'], 'every argument of every entry point, with sizes zero, one less, one more and an arbitrary wrong size, on chains of up to four segments with turning, sliding and fixed joints; arbitrary values; arbitrary solvers used',
  'tests call a handful of entry points with one wrong size; each argument of each call is its own condition, and setters are barely tested.',
  [K + 'solveri.hpp', K + 'chainfksolverpos_recursive.cpp', K + 'chainjnttojacsolver.cpp', K + 'chaindynparam.cpp', K + 'chainiksolvervel_wdls.cpp', K + 'chainidsolver_recursive_newton_euler.cpp'],
  [('SolverI::getError/strError', K + 'solveri.hpp'), ('ChainJntToJacSolver::JntToJac', K + 'chainjnttojacsolver.cpp'), ('ChainDynParam', K + 'chaindynparam.cpp'), ('ChainIkSolverVel_wdls setters', K + 'chainiksolvervel_wdls.cpp'), ('ChainIkSolverPos_NR_JL::setJointLimits', K + 'chainiksolverpos_nr_jl.cpp')], ASG, CHAINNOTE)
P('C21', 'A changed chain is noticed until the solver is updated, then handled',
  'After segments were added to the chain a solver was built for, the solver reports that it is not up to date, whatever else it is given. '
  'After updateInternalDataStructures() it behaves like a solver newly built for the grown chain. '
  'Locks, weights, limits and gains given before are kept for the joints they were given for and extended by the defaults.',
  ['inputs', 'histories'], 'histories of construction, setters, growth by a turning, sliding or fixed segment, calls before and after the update; all values of states, inertias, axes and gains; arbitrary solvers used',
  'one test grows one chain and looks at return codes; stale buffers, dropped settings and forgotten sub-solvers are not seen by it.',
  [K + 'chainjnttojacsolver.cpp', K + 'chaindynparam.cpp', K + 'chainiksolvervel_wdls.cpp', K + 'chainexternalwrenchestimator.cpp', K + 'chainiksolverpos_nr_jl.cpp'],
  [('updateInternalDataStructures', K + 'chainjnttojacsolver.cpp'), ('ChainDynParam::updateInternalDataStructures', K + 'chaindynparam.cpp'), ('ChainIkSolverVel_*::updateInternalDataStructures', K + 'chainiksolvervel_wdls.cpp'), ('ChainExternalWrenchEstimator::updateInternalDataStructures', K + 'chainexternalwrenchestimator.cpp')], ASG, CHAINNOTE)
P('C22', 'External wrench estimation is the documented momentum observer',
  'For every sequence of joint states and torques, the estimated external torques are the filtered, amplified residual of the generalised momentum, starting afresh at a new initial momentum. '
  'The wrench is the truncated pseudo-inverse of the transposed Jacobian in the end-effector frame applied to them. '
  'Rejected calls leave estimate and wrench as they were.',
  ['inputs', 'histories'], 'all states, torques, gains, filter constants, sample rates and arbitrary mass matrices, Coriolis and gravity torques, poses, Jacobians and decompositions changing from call to call; one and two joints, initial momentum, two estimates, another initial momentum and another estimate',
  'one test simulates one robot for a while and compares with loose tolerance; wrong history terms (integral, residual, change of inertia) decay in it.',
  [K + 'chainexternalwrenchestimator.cpp', K + 'chainexternalwrenchestimator.hpp', K + 'jacobian.cpp'],
  [('ChainExternalWrenchEstimator::JntToExtWrench', K + 'chainexternalwrenchestimator.cpp'), ('ChainExternalWrenchEstimator::setInitialMomentum', K + 'chainexternalwrenchestimator.cpp'), ('ChainExternalWrenchEstimator::getEstimatedJntTorque', K + 'chainexternalwrenchestimator.cpp')], ASG, CHAINNOTE)
P('C23', 'Constrained hybrid dynamics obeys the equations of motion and the constraints',
  'The joint accelerations of the Vereshchagin solver are those that the given torques, external forces and the constraint forces found cause according to inverse dynamics, and the link acceleration reported is the one belonging to them. '
  'If the decomposition of the constraint matrix is exact, the end-effector has the acceleration energies wanted along the constraints; directions in which the constraints cannot accelerate it get no force. '
  'Results do not depend on earlier calls.',
  ['inputs', 'histories'], 'all joint states, torques, gravity, external and constraint forces, rotor inertias and decompositions; chains of one to three movable joints with partly general tips and inertias, one and two constraints',
  'tests run one robot under a few constraints and check the end-effector accelerations loosely; external forces, rotor inertia and reference points of the constraint forces are hardly exercised.',
  [K + 'chainhdsolver_vereshchagin.cpp', K + 'chainhdsolver_vereshchagin.hpp', K + 'articulatedbodyinertia.cpp'],
  [('ChainHdSolver_Vereshchagin::CartToJnt', K + 'chainhdsolver_vereshchagin.cpp'), ('ChainHdSolver_Vereshchagin::getTransformedLinkAcceleration', K + 'chainhdsolver_vereshchagin.cpp'), ('ChainHdSolver_Vereshchagin::getContraintForceMagnitude', K + 'chainhdsolver_vereshchagin.cpp')], ASG, CHAINNOTE)

TREENOTE = ALGNOTE + (' Decided for the tree shapes listed in the evidence. Names of segments are compared, copied and ordered only, and analysed as numbers; '
                      'std::map is analysed through its header with its library functions given as unbalanced search trees.')
P('C24', 'Trees grow, copy and split without losing segments, joints or numbers',
  'Every movable joint added to a tree, singly, by chain or by tree, gets the next number; names already used and hooks that do not exist are refused and leave the tree as it was, except for what was added before. '
  'Copies and assigned trees are equal to and independent of the original, with parents and children linked within the copy. '
  'Chains and subtrees taken from a tree have the segments, joints, tips and inertias on the way, and a chain against the direction of the tree moves as the tree does.',
  ['inputs', 'histories'], 'sequences of additions, copies, assignments (also to itself), extraction of subtrees and of chains towards the tips, towards the root and across branches; all joint axes, origins, scales, offsets, tips and inertias',
  'tests build one tree and look at a few names; renumbering in copies, parameters lost by inverted joints and dangling links need particular shapes and parameters.',
  [K + 'tree.cpp', K + 'tree.hpp'],
  [('Tree::addSegment, addChain, addTree', K + 'tree.cpp'), ('Tree copy constructor and assignment', K + 'tree.cpp'), ('Tree::getChain, Tree::getSubTree', K + 'tree.cpp')], ASG, TREENOTE)
P('C25', 'Tree kinematics and dynamics agree with one another and with chains',
  'The pose of a segment of a tree is the product of the poses of the segments on the way from the root, the columns of the Jacobian are the twists unit joint velocities cause at it, and inverse dynamics are the torques of the recursive Newton-Euler method over all branches. '
  'Joints which are not on the way do not matter, fixed joints read no joint value, and arguments of the wrong size or segments that do not exist are reported. '
  'Results do not depend on earlier calls.',
  ['inputs', 'histories'], 'all joint values, velocities, accelerations, joint axes, tips, inertias and external forces on trees with branches, fixed, turning and sliding joints; sizes zero, one less and one more',
  'tests compare one tree with one chain at sample values; columns of other branches, fixed segments with the highest number and stale sums do not show.',
  [K + 'treefksolverpos_recursive.cpp', K + 'treejnttojacsolver.cpp', K + 'treeidsolver_recursive_newton_euler.cpp'],
  [('TreeFkSolverPos_recursive::JntToCart', K + 'treefksolverpos_recursive.cpp'), ('TreeJntToJacSolver::JntToJac', K + 'treejnttojacsolver.cpp'), ('TreeIdSolver_RNE::CartToJnt', K + 'treeidsolver_recursive_newton_euler.cpp')], ASG, TREENOTE)
P('C26', 'Tree inverse kinematics takes the documented steps and tells how it ended',
  'The velocities for the twists of several endpoints are the weighted, damped least-squares solution of the stacked Jacobians. '
  'Position inverse kinematics adds such steps for the endpoints asked for, keeps every joint within its limits, keeps the other endpoints where they are, and returns the remaining distance, the failure of a solver used, or that iterations ran out. '
  'The online solver takes one step, no joint and no endpoint faster than allowed, and results do not depend on endpoints of earlier calls.',
  ['inputs', 'histories'], 'all start positions, poses, twists, weights, damping, limits and maximal velocities, arbitrary Jacobians, decompositions and arbitrary (also failing) solvers used; two joints, one and two endpoints, up to two iterations, consecutive calls with other endpoints',
  'tests run one robot and compare final poses; stale endpoints, unreported failures and scaling by the wrong joint only show in particular histories.',
  [K + 'treeiksolvervel_wdls.cpp', K + 'treeiksolverpos_nr_jl.cpp', K + 'treeiksolverpos_online.cpp'],
  [('TreeIkSolverVel_wdls::CartToJnt', K + 'treeiksolvervel_wdls.cpp'), ('TreeIkSolverPos_NR_JL::CartToJnt', K + 'treeiksolverpos_nr_jl.cpp'), ('TreeIkSolverPos_Online::CartToJnt', K + 'treeiksolverpos_online.cpp')], ASG, TREENOTE)

P('C11', 'Planar geometry is the plane of the spatial geometry',
  'Planar vectors, rotations and frames add, compose, invert, apply and convert as the spatial ones do in the XY plane, with element access, in-place and copying operators agreeing. '
  'A planar rotation of an angle is the rotation about z of that angle, and its angle can be got back. '
  'Vectors put into and taken from the XY, YZ, ZX planes and the plane of a frame go there and back.',
  ['inputs'], 'all planar vectors, angles, frames, spatial vectors and frames; real arithmetic',
  'tests compare two angles of planar frames; matrix elements, planes and in-place forms are not called by any test.',
  [K + 'frames.hpp', K + 'frames.inl', K + 'frames.cpp'],
  [('Vector2, Rotation2, Frame2', K + 'frames.inl'), ('Vector2::Norm, Normalize', K + 'frames.cpp'), ('Set2DXY..Set2DPlane, Set3DXY..Set3DPlane', K + 'frames.inl')], ALG, ALGNOTE)
P('C12', 'Equality compares every component with the tolerance',
  'For every type with Equal: values that differ in some component by more than the tolerance are not equal, values that differ in every component by less are, in either order, and the default tolerance is epsilon; arrays of different sizes are not equal. '
  '== is Equal with the default tolerance and != its contrary, copies and assigned values are equal to the original, SetToZero gives zero. '
  'Comparing a value with derivatives to one without compares with zero derivatives.',
  ['inputs'], 'all values, differences and tolerances; scalars, vectors, rotations, frames, twists, wrenches, their velocity and acceleration level forms, planar forms, joint arrays, joint space matrices and Jacobians (arrays of two elements, Jacobians of one and two columns)',
  'tests use Equal as their oracle: a component that is not compared makes them pass.',
  [K + 'frames.hpp', K + 'frames.inl', K + 'framevel.inl', K + 'frameacc.inl', K + 'jntarray.cpp', K + 'jacobian.cpp', K + 'jntspaceinertiamatrix.cpp'],
  [('Equal, ==, != of the geometric types', K + 'frames.inl'), ('Equal of the velocity and acceleration level', K + 'framevel.inl'), ('Equal of joint arrays, matrices and Jacobians', K + 'jntarray.cpp')], ALG, ALGNOTE)
P('C15', 'Joint arrays, joint space matrices and Jacobians keep values and derivatives',
  'Sums, differences, multiples and quotients of joint arrays carry the exact first and second time derivatives of their values, also with the result in place of an operand the documentation allows. '
  'New and enlarged containers have the requested size and zeros where documented, copies are independent. '
  'Joint space matrices and Jacobians add, scale, multiply and change reference point, base and frame column by column, and refuse wrong sizes unchanged.',
  ['inputs', 'histories'], 'all values, velocities, accelerations and factors; three joints, sizes grown and shrunk; every overload and aliasing of destination and source documented as allowed',
  'tests add and scale constant arrays; derivative terms, in-place use and resizing with derivatives are not exercised.',
  [K + 'jntarray.cpp', K + 'jntarrayvel.cpp', K + 'jntarrayacc.cpp', K + 'jntspaceinertiamatrix.cpp', K + 'jacobian.cpp'],
  [('JntArray Add, Subtract, Multiply, Divide, resize', K + 'jntarray.cpp'), ('JntArrayVel, JntArrayAcc operators', K + 'jntarrayacc.cpp'), ('JntSpaceInertiaMatrix operators', K + 'jntspaceinertiamatrix.cpp'), ('Jacobian changeBase, changeRefPoint, changeRefFrame', K + 'jacobian.cpp')], ALG, ALGNOTE)

P('C27', 'Chains are the segments added to them, in order',
  'After any history of addSegment, addChain, copies and assignments, a chain has exactly the segments added to it, in order, each with its names, joint, frame, inertia and joint parameters, and counts them and its movable joints. '
  'This holds too when a chain is assigned or added to itself or is given one of its own segments again. '
  'Copies are independent of the original, and segments and joints default to what is documented.',
  ['histories', 'inputs'], 'histories of up to six additions, copies, assignments and self references; all axes, frames, inertias and joint parameters; fixed, turning and sliding joints',
  'tests build chains once from temporaries; aliasing histories read freed memory or do not end only when storage grows at that very call.',
  [K + 'chain.cpp', K + 'chain.hpp', K + 'segment.cpp', K + 'segment.hpp', K + 'joint.cpp'],
  [('Chain::addSegment, addChain, operator=', K + 'chain.cpp'), ('Segment copy and assignment', K + 'segment.cpp'), ('Joint defaults', K + 'joint.cpp')], ALG, ALGNOTE)

P('C28', 'What is written as text reads back the same; malformed text is refused',
  'Vectors, twists, wrenches, rotations, frames, their planar versions, paths, velocity profiles and trajectories read from the text they write are the ones written, with exactly that text consumed and the error trace left as it was. '
  'The documented forms (Zero, Identity, RPY, Euler angles, Rot, DH; degrees; any case, blanks and comments) give the documented values. '
  'Unknown forms, missing delimiters, missing or extra numbers, unfinished text and words longer than the storage are refused, and nothing is written past the storage.',
  ['inputs'], 'all numeric contents (rounding of decimal text aside); listed forms with blanks and three kinds of comments; words around the size of the storage',
  'the tests read and write no text at all but for examples; a reader that skips a field or a writer in other units goes unnoticed.',
  [K + 'frames_io.cpp', K + 'utilities/utility_io.cxx', K + 'path.cpp', K + 'velocityprofile.cpp', K + 'trajectory.cpp', K + 'rotational_interpolation.cpp', K + 'path_line.cpp', K + 'path_circle.cpp', K + 'path_composite.cpp', K + 'path_cyclic_closed.cpp'],
  [('operator<< and operator>>', K + 'frames_io.cpp'), ('EatWord, Eat, EatEnd', K + 'utilities/utility_io.cxx'), ('Path::Read and Write', K + 'path.cpp'), ('VelocityProfile::Read and Write', K + 'velocityprofile.cpp')], ALG, ALGNOTE)

P('C29', 'Separate objects share nothing hidden; what is only read does not change',
  'No function of the library writes a variable that is shared by the whole process (apart from the error trace of the text readers and the random functions) or calls a C function that keeps such state, so separate objects can be used independently and in different threads. '
  'No function writes an argument it takes as a reference or pointer to const, nor the object of a const member function, apart from the last segment a composite path looked up; so chains, trees and other arguments can be shared by readers.',
  ['schedules', 'histories'], 'every function of the library, every inline function of its headers included; any interleaving of calls on separate objects',
  'tests run one thread and one object at a time; a static scratch variable or a hidden cache gives right results until two calls interleave.',
  [K + 'chain.cpp', K + 'joint.cpp', K + 'segment.cpp', K + 'tree.cpp', K + 'chainfksolverpos_recursive.cpp', K + 'chainidsolver_recursive_newton_euler.cpp', K + 'path_composite.cpp', K + 'utilities/error_stack.cxx'],
  [('all solvers', K + 'chainidsolver_recursive_newton_euler.cpp'), ('Joint::pose', K + 'joint.cpp'), ('utility variables', K + 'utilities/utility.cxx')],
  'static: interprocedural pointer and effect analysis over compiler IR (write effects on globals and on const parameters, function summaries)',
  'Sound for direct stores and calls within the library; writes through virtual calls are taken to respect the const qualification of the interface, and what containers of the C++ library do inside is trusted. Flow-insensitive; a report names the function, the variable or parameter and the inlined call chain.')

P('C30', 'Memory is used inside of live objects and released once',
  'Whatever chain, tree, path, profile, trajectory, text or argument of whatever size is given to it, the library reads and writes inside of the objects involved only, never uses an object after its release, releases what it owns exactly once and leaves nothing of its own behind: '
  'paths, profiles and interpolations handed over with ownership are deleted with the object they were given to, those that stay shared are left alone, a clone and its original can be deleted in either order, and calls refused for a size or an index touch nothing outside of the arrays given.',
  ['inputs', 'histories'], 'chains and trees of a few joints with segments of every kind; arguments smaller and larger than needed, of any size for joint arrays; all values; objects cloned, assigned and destroyed in either order; short texts',
  'a read or write beside an array, a second deletion or a missing one leaves the results of a test as they are: the element beside an array is rarely looked at.',
  [K + 'path_composite.cpp', K + 'path_circle.cpp', K + 'path_cyclic_closed.cpp', K + 'trajectory_composite.cpp', K + 'chain.cpp', K + 'tree.cpp', K + 'jntarray.cpp', K + 'chainfdsolver_recursive_newton_euler.cpp', K + 'utilities/scoped_ptr.hpp'],
  [('Path_Cyclic_Closed::Clone', K + 'path_cyclic_closed.cpp'), ('Trajectory_Composite::Destroy', K + 'trajectory_composite.cpp'), ('ChainFdSolver_RNE::CartToJnt', K + 'chainfdsolver_recursive_newton_euler.cpp')],
  'static: abstract interpretation of compiler IR (gated value numbering) with an object model: extent, life and maker of every allocation, checked at every access and release',
  'Exact for the sizes the equation functions fix; accesses through pointers whose object is not known are counted in the evidence and not decided; ways that end in an exception are followed up to the throw only, and std::string is trusted.')

P('N01', 'Singular value decompositions converge to the singular values',
  'For every matrix, the Householder and the Givens based decompositions return orthogonal factors and singular values whose product is the matrix, up to rounding, or report that they did not converge.',
  ['inputs'], 'all finite matrices',
  'tests decompose a handful of small matrices.', [K + 'utilities/svd_eigen_HH.cpp', K + 'utilities/svd_HH.cpp', K + 'utilities/svd_eigen_Macie.hpp'],
  [('svd_eigen_HH', K + 'utilities/svd_eigen_HH.cpp')],
  na='convergence of the shifted QR iteration and its accuracy are numerical facts about an unbounded loop over run-time values; no static domain in reach bounds them. C18-C23 are decided for every decomposition instead.')
P('N02', 'Position inverse kinematics converges for reachable poses',
  'Started close enough to a solution that is not singular, the position solvers reach it within the iterations allowed.',
  ['inputs'], 'all robots and reachable poses', 'tests try random poses on a few robots.',
  [K + 'chainiksolverpos_nr.cpp', K + 'chainiksolverpos_lma.cpp'], [('ChainIkSolverPos_LMA::CartToJnt', K + 'chainiksolverpos_lma.cpp')],
  na='how far Newton and Levenberg-Marquardt iterations converge depends on the robot and the start, quantities no static argument in reach bounds; C19 decides that the outcome is reported truthfully.')
P('N03', 'Rounding errors stay within the tolerances documented',
  'Evaluated in floating point, the laws of the other properties hold up to a small multiple of the machine precision, also close to the singularities of the representations.',
  ['inputs'], 'all finite floating-point inputs', 'tests use a handful of well-conditioned values.',
  [K + 'frames.cpp', K + 'frames.inl'], [('Rotation::GetRPY, GetRotAngle, GetQuaternion near singularities', K + 'frames.cpp')],
  na='bounding accumulated rounding through trigonometric and iterative code for unbounded inputs is out of reach of the analyses built here, which work over the reals; the thresholds themselves are decided in C03.')
P('N04', 'Built-in robot models equal the robots they are named after',
  'The Puma 560, KUKA LWR and AMI models have the kinematic and inertial parameters of the real robots.',
  ['inputs'], 'the models built in', 'there is nothing in the repository to compare the numbers with.',
  ['orocos_kdl/models/puma560.cpp', 'orocos_kdl/models/kukaLWR_DHnew.cpp'], [('KDL::Puma560', 'orocos_kdl/models/puma560.cpp')],
  na='the reference is a physical robot, not the source code; no analysis of the source can decide it.')
