// C20: what solvers say about inputs of the wrong size and segments that do not exist
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "chainfksolverpos_recursive.cpp"
#include "chainfksolvervel_recursive.cpp"
#include "chainjnttojacsolver.cpp"
#include "chainjnttojacdotsolver.cpp"
#include "chainidsolver_recursive_newton_euler.cpp"
#include "chaindynparam.cpp"
#include "utilities/ldl_solver_eigen.cpp"
#include "chainfdsolver_recursive_newton_euler.cpp"
#include "utilities/svd_HH.cpp"
#include "utilities/svd_eigen_HH.cpp"
#include "articulatedbodyinertia.cpp"
#include "chainhdsolver_vereshchagin.cpp"
#include "chainiksolvervel_pinv.cpp"
#include "chainiksolvervel_pinv_nso.cpp"
#include "chainiksolvervel_wdls.cpp"
#include "chainiksolvervel_pinv_givens.cpp"
#include "chainiksolverpos_nr.cpp"
#include "chainiksolverpos_nr_jl.cpp"
#include "chainiksolverpos_lma.cpp"
#include "chainexternalwrenchestimator.cpp"
#define VP_IN static inline __attribute__((always_inline))
enum { NJ = 2, NS = 3 };
// the linear solver is decided by C17
extern "C" int vp_sub__ZN3KDL16ldl_solver_eigenERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERKNS1_IdLin1ELi1ELi0ELin1ELi1EEERS2_RS5_S9_S9_(const Eigen::MatrixXd*, const Eigen::VectorXd* v, Eigen::MatrixXd*, Eigen::VectorXd*, Eigen::VectorXd*, Eigen::VectorXd* q)
{
    for (int i = 0; i < 2; ++i) (*q)(i) = vp_c(9000 + i);
    return 0;
}
VP_IN void chain(Chain& ch)
{
    Frame f(Vector(1, 0, 0)); RigidBodyInertia I(vp_c(300));      // the sizes matter only
    ch.addSegment(Segment(Joint(Joint::RotZ), f, I)); ch.addSegment(Segment(Joint(Joint::Fixed), f, I)); ch.addSegment(Segment(Joint(Joint::TransY), f, I));
}
// the sizes tried: a few too small and too large ones, and (k == 3) any wrong one
static const int wrongs[3] = {0, NJ - 1, NJ + 1};
VP_IN void wrong(JntArray& a, int k, int id, int n = NJ)
{
    a.resize(k < 3 ? (k == 0 ? 0 : k == 1 ? n - 1 : n + 1) : 8);
    if (k == 3)
    {
        int m = vp_int(id);
        vp_assume(m >= 0); vp_assume(m != n);
        ((long*)&a.data)[1] = m;
    }
}
VP_IN void right(JntArray& a, int id, int n = NJ) { a.resize(n); for (int j = 0; j < n; ++j) a(j) = vp_c(id + j); }
VP_IN void restore(JntArray& a, int k) { if (k == 3) ((long*)&a.data)[1] = 8; }
VP_IN void wrong(Jacobian& a, int k, int n = NJ) { a.resize(k == 0 ? 0 : k == 1 ? n - 1 : n + 1); SetToZero(a); }
#define SIZES(k, last) _Pragma("GCC unroll 4") for (int k = 0; k <= last; ++k)
#define CODE(s, expr, code, lbl) do { int r_ = (expr); vp_true(r_ == (code), lbl); vp_true((s).getError() == (code), "getError() after: " lbl); } while (0)
#define SIZE(s, expr, lbl) CODE(s, expr, SolverI::E_SIZE_MISMATCH, lbl)
#define RANGE(s, expr, lbl) CODE(s, expr, SolverI::E_OUT_OF_RANGE, lbl)
#define FINE(s, expr, lbl) CODE(s, expr, SolverI::E_NOERROR, lbl)
VP_IN int toofar() { int s = vp_int(59); vp_assume(s > NS); return s; }

template <int k> VP_IN void fkpos()
{
    Chain ch; chain(ch);
    ChainFkSolverPos_recursive s(ch);
    vp_true(s.getError() == 0, "no error at first");
    JntArray q, w; right(q, 10); wrong(w, k, 50);
    Frame f; std::vector<Frame> v(NS), v2(NS - 1), v4(NS + 1), v0;
    SIZE(s, s.JntToCart(w, f), "positions of the wrong size");
    FINE(s, s.JntToCart(q, f), "pose");
    SIZE(s, s.JntToCart(w, v), "positions of the wrong size, all segments");
    FINE(s, s.JntToCart(q, v), "poses");
    SIZE(s, s.JntToCart(q, v2), "too few poses");
    SIZE(s, s.JntToCart(q, v4), "too many poses");
    SIZE(s, s.JntToCart(q, v4, NS - 1), "too many poses for this segment");
    SIZE(s, s.JntToCart(q, v0), "no poses");
    RANGE(s, s.JntToCart(q, f, toofar()), "no such segment");
    RANGE(s, s.JntToCart(q, v, toofar()), "no such segment, all segments");
    RANGE(s, s.JntToCart(q, v4, NS + 1), "no such segment, poses for it");
    RANGE(s, s.JntToCart(q, v0, 0), "no segment");
    FINE(s, s.JntToCart(q, v2, NS - 1), "some of the poses");
    restore(w, k);
}
VP_W w_fkpos0() { fkpos<0>(); }
VP_W w_fkpos1() { fkpos<1>(); }
VP_W w_fkpos2() { fkpos<2>(); }
VP_W w_fkpos3() { fkpos<3>(); }
template <int k> VP_IN void fkvel()
{
    Chain ch; chain(ch);
    ChainFkSolverVel_recursive s(ch);
    vp_true(s.getError() == 0, "no error at first");
    JntArrayVel q(NJ), w, x; right(q.q, 10); right(q.qdot, 20); wrong(w.q, k, 50); right(w.qdot, 10); right(x.q, 10); wrong(x.qdot, k, 51);
    FrameVel f; std::vector<FrameVel> v(NS), v2(NS - 1), v4(NS + 1), v0;
    SIZE(s, s.JntToCart(w, f), "positions of the wrong size");
    FINE(s, s.JntToCart(q, f), "pose");
    SIZE(s, s.JntToCart(x, f), "velocities of the wrong size");
    SIZE(s, s.JntToCart(w, v), "positions of the wrong size, all segments");
    FINE(s, s.JntToCart(q, v), "poses");
    SIZE(s, s.JntToCart(x, v), "velocities of the wrong size, all segments");
    SIZE(s, s.JntToCart(q, v2), "too few poses");
    SIZE(s, s.JntToCart(q, v4), "too many poses");
    SIZE(s, s.JntToCart(q, v4, NS - 1), "too many poses for this segment");
    SIZE(s, s.JntToCart(q, v0), "no poses");
    RANGE(s, s.JntToCart(q, f, toofar()), "no such segment");
    RANGE(s, s.JntToCart(q, v, toofar()), "no such segment, all segments");
    RANGE(s, s.JntToCart(q, v4, NS + 1), "no such segment, poses for it");
    RANGE(s, s.JntToCart(q, v0, 0), "no segment");
    FINE(s, s.JntToCart(q, v2, NS - 1), "some of the poses");
    restore(w.q, k); restore(x.qdot, k);
}
VP_W w_fkvel0() { fkvel<0>(); }
VP_W w_fkvel1() { fkvel<1>(); }
VP_W w_fkvel2() { fkvel<2>(); }
VP_W w_fkvel3() { fkvel<3>(); }
template <int k> VP_IN void jac()
{
    Chain ch; chain(ch);
    ChainJntToJacSolver s(ch);
    vp_true(s.getError() == 0, "no error at first");
    JntArray q, w; right(q, 10); wrong(w, k, 50);
    Jacobian J(NJ);
    SIZE(s, s.JntToJac(w, J), "positions of the wrong size");
    FINE(s, s.JntToJac(q, J), "Jacobian");
    if (k < 3) { Jacobian B; wrong(B, k); SIZE(s, s.JntToJac(q, B), "Jacobian of the wrong size"); }
    RANGE(s, s.JntToJac(q, J, toofar()), "no such segment");
    std::vector<bool> l1(NJ - 1), l3(NJ + 1), l(NJ);
    SIZE(s, s.setLockedJoints(l1), "too few locks");
    FINE(s, s.setLockedJoints(l), "locks");
    SIZE(s, s.setLockedJoints(l3), "too many locks");
    FINE(s, s.JntToJac(q, J, 0), "Jacobian of the base");
    restore(w, k);
}
VP_W w_jac0() { jac<0>(); }
VP_W w_jac1() { jac<1>(); }
VP_W w_jac2() { jac<2>(); }
VP_W w_jac3() { jac<3>(); }
template <int k> VP_IN void jacdot()
{
    Chain ch; chain(ch);
    ChainJntToJacDotSolver s(ch);
    vp_true(s.getError() == 0, "no error at first");
    JntArrayVel q(NJ), w, x; right(q.q, 10); right(q.qdot, 20); wrong(w.q, k, 50); right(w.qdot, 10); right(x.q, 10); wrong(x.qdot, k, 51);
    Jacobian J(NJ); Twist t;
    SIZE(s, s.JntToJacDot(w, J), "positions of the wrong size");
    FINE(s, s.JntToJacDot(q, J), "derivative of the Jacobian");
    SIZE(s, s.JntToJacDot(x, J), "velocities of the wrong size");
    SIZE(s, s.JntToJacDot(w, t), "positions of the wrong size, twist");
    FINE(s, s.JntToJacDot(q, t), "derivative of the Jacobian, twist");
    SIZE(s, s.JntToJacDot(x, t), "velocities of the wrong size, twist");
    if (k < 3) { Jacobian B; wrong(B, k); SIZE(s, s.JntToJacDot(q, B), "Jacobian of the wrong size"); }
    RANGE(s, s.JntToJacDot(q, J, toofar()), "no such segment");
    RANGE(s, s.JntToJacDot(q, t, toofar()), "no such segment, twist");
    std::vector<bool> l1(NJ - 1), l3(NJ + 1), l(NJ);
    SIZE(s, s.setLockedJoints(l1), "too few locks");
    l[0] = true;
    FINE(s, s.setLockedJoints(l), "locks");
    SIZE(s, s.setLockedJoints(l3), "too many locks");
    SIZE(s, s.JntToJacDot(q, J), "Jacobian with a column for the locked joint");
    Jacobian L(NJ - 1);
    FINE(s, s.JntToJacDot(q, L), "Jacobian without a column for the locked joint");
    FINE(s, s.JntToJacDot(q, t), "twist with a locked joint");
    restore(w.q, k); restore(x.qdot, k);
}
VP_W w_jacdot0() { jacdot<0>(); }
VP_W w_jacdot1() { jacdot<1>(); }
VP_W w_jacdot2() { jacdot<2>(); }
VP_W w_jacdot3() { jacdot<3>(); }
template <int k> VP_IN void idfd()
{
    Chain ch; chain(ch);
    ChainIdSolver_RNE s(ch, vec(400));
    vp_true(s.getError() == 0, "no error at first");
    JntArray q, w, o(NJ); right(q, 10); wrong(w, k, 50);
    Wrenches f(NS), f2(NS - 1), f4(NS + 1), f0;
    SIZE(s, s.CartToJnt(w, q, q, f, o), "positions of the wrong size");
    FINE(s, s.CartToJnt(q, q, q, f, o), "inverse dynamics");
    SIZE(s, s.CartToJnt(q, w, q, f, o), "velocities of the wrong size");
    SIZE(s, s.CartToJnt(q, q, w, f, o), "accelerations of the wrong size");
    SIZE(s, s.CartToJnt(q, q, q, f, w), "torques of the wrong size");
    SIZE(s, s.CartToJnt(q, q, q, f2, o), "too few wrenches");
    SIZE(s, s.CartToJnt(q, q, q, f4, o), "too many wrenches");
    SIZE(s, s.CartToJnt(q, q, q, f0, o), "no wrenches");
    ChainFdSolver_RNE d(ch, vec(400));
    vp_true(d.getError() == 0, "no error at first");
    SIZE(d, d.CartToJnt(w, q, q, f, o), "positions of the wrong size, forward");
    FINE(d, d.CartToJnt(q, q, q, f, o), "forward dynamics");
    SIZE(d, d.CartToJnt(q, w, q, f, o), "velocities of the wrong size, forward");
    SIZE(d, d.CartToJnt(q, q, w, f, o), "torques of the wrong size, forward");
    SIZE(d, d.CartToJnt(q, q, q, f, w), "accelerations of the wrong size, forward");
    SIZE(d, d.CartToJnt(q, q, q, f2, o), "too few wrenches, forward");
    SIZE(d, d.CartToJnt(q, q, q, f4, o), "too many wrenches, forward");
    SIZE(d, d.CartToJnt(q, q, q, f0, o), "no wrenches, forward");
    restore(w, k);
}
VP_W w_idfd0() { idfd<0>(); }
VP_W w_idfd1() { idfd<1>(); }
VP_W w_idfd2() { idfd<2>(); }
VP_W w_idfd3() { idfd<3>(); }
template <int k> VP_IN void dyn()
{
    Chain ch; chain(ch);
    ChainDynParam s(ch, vec(400));
    vp_true(s.getError() == 0, "no error at first");
    JntArray q, w, o(NJ); right(q, 10); wrong(w, k, 50);
    JntSpaceInertiaMatrix H(NJ), h1(NJ - 1), h3(NJ + 1);
    SIZE(s, s.JntToMass(w, H), "positions of the wrong size");
    FINE(s, s.JntToMass(q, H), "mass matrix");
    SIZE(s, s.JntToMass(q, h1), "mass matrix too small");
    SIZE(s, s.JntToMass(q, h3), "mass matrix too large");
    FINE(s, s.JntToCoriolis(q, q, o), "coriolis torques");
    SIZE(s, s.JntToCoriolis(w, q, o), "positions of the wrong size, coriolis");
    SIZE(s, s.JntToCoriolis(q, w, o), "velocities of the wrong size, coriolis");
    FINE(s, s.JntToGravity(q, o), "gravity torques");
    SIZE(s, s.JntToCoriolis(q, q, w), "torques of the wrong size, coriolis");
    SIZE(s, s.JntToGravity(w, o), "positions of the wrong size, gravity");
    FINE(s, s.JntToMass(q, H), "mass matrix again");
    SIZE(s, s.JntToGravity(q, w), "torques of the wrong size, gravity");
    restore(w, k);
}
VP_W w_dyn0() { dyn<0>(); }
VP_W w_dyn1() { dyn<1>(); }
VP_W w_dyn2() { dyn<2>(); }
VP_W w_dyn3() { dyn<3>(); }
// Vereshchagin: SolverI is a private base
template <int k> VP_IN void hd()
{
    Chain ch; ch.addSegment(seg(0, Joint::RotZ)); ch.addSegment(seg(2, Joint::TransY));
    enum { NC = 1 };
    ChainHdSolver_Vereshchagin v(ch, twi(400), NC);
    SolverI& s = (SolverI&)v;
    vp_true(s.getError() == 0, "no error at first");
    JntArray q, w, o(NJ), c(NJ), b(NC), wb; right(q, 10); wrong(w, k, 50); wrong(wb, k, 51, NC);
    Wrenches f(NJ), f1(NJ - 1), f3(NJ + 1);
    Jacobian a(NC);
    for (int i = 0; i < 6; ++i) a(i, 0) = vp_c(600 + i);
    b(0) = vp_c(610);
    SIZE(s, v.CartToJnt(w, q, o, a, b, f, q, c), "positions of the wrong size");
    SIZE(s, v.CartToJnt(q, w, o, a, b, f, q, c), "velocities of the wrong size");
    SIZE(s, v.CartToJnt(q, q, w, a, b, f, q, c), "accelerations of the wrong size");
    SIZE(s, v.CartToJnt(q, q, o, a, wb, f, q, c), "acceleration energies of the wrong size");
    SIZE(s, v.CartToJnt(q, q, o, a, b, f, w, c), "torques of the wrong size");
    SIZE(s, v.CartToJnt(q, q, o, a, b, f, q, w), "constraint torques of the wrong size");
    SIZE(s, v.CartToJnt(q, q, o, a, b, f1, q, c), "too few wrenches");
    SIZE(s, v.CartToJnt(q, q, o, a, b, f3, q, c), "too many wrenches");
    if (k < 3) { Jacobian B; wrong(B, k, NC); SIZE(s, v.CartToJnt(q, q, o, B, b, f, q, c), "constraint forces of the wrong size"); }
    restore(w, k); restore(wb, k);
}
VP_W w_hd0() { hd<0>(); }
VP_W w_hd1() { hd<1>(); }
VP_W w_hd2() { hd<2>(); }
VP_W w_hd3() { hd<3>(); }
struct FS : public ChainFkSolverPos
{
    virtual int JntToCart(const JntArray&, Frame&, int = -1) { vp_true(false, "no pose is computed from inputs of the wrong size"); return 0; }
    virtual int JntToCart(const JntArray&, std::vector<Frame>&, int = -1) { return 0; }
    virtual void updateInternalDataStructures() {}
};
struct IS : public ChainIkSolverVel
{
    virtual int CartToJnt(const JntArray&, const Twist&, JntArray&) { vp_true(false, "no step is computed from inputs of the wrong size"); return 0; }
    virtual int CartToJnt(const JntArray&, const FrameVel&, JntArrayVel&) { return 0; }
    virtual void updateInternalDataStructures() {}
};
template <int k> VP_IN void ikpos()
{
    Chain ch; chain(ch);
    JntArray q, w, o(NJ); right(q, 10); wrong(w, k, 50);
    Frame p = frm(900);
    FS f; IS i;
    ChainIkSolverPos_NR s1(ch, f, i); ChainIkSolverPos_NR_JL s2(ch, q, q, f, i); ChainIkSolverPos_LMA s3(ch);
    vp_true(s1.getError() == 0, "no error at first"); vp_true(s2.getError() == 0, "no error at first"); vp_true(s3.getError() == 0, "no error at first");
    SIZE(s1, s1.CartToJnt(w, p, o), "NR: initial positions of the wrong size"); SIZE(s1, s1.CartToJnt(q, p, w), "NR: positions of the wrong size");
    SIZE(s2, s2.CartToJnt(w, p, o), "NR_JL: initial positions of the wrong size"); SIZE(s2, s2.CartToJnt(q, p, w), "NR_JL: positions of the wrong size");
    SIZE(s3, s3.CartToJnt(w, p, o), "LMA: initial positions of the wrong size"); SIZE(s3, s3.CartToJnt(q, p, w), "LMA: positions of the wrong size");
    FINE(s2, s2.setJointLimits(q, q), "NR_JL: limits");
    SIZE(s2, s2.setJointLimits(w, q), "NR_JL: lower limits of the wrong size");
    SIZE(s2, s2.setJointLimits(q, w), "NR_JL: upper limits of the wrong size");
    if (k < 3)
    {
        ChainIkSolverPos_NR_JL s4(ch, w, q, f, i), s5(ch, q, w, f, i);
        SIZE(s4, s4.CartToJnt(q, p, o), "NR_JL: constructed with lower limits of the wrong size");
        SIZE(s5, s5.CartToJnt(q, p, o), "NR_JL: constructed with upper limits of the wrong size");
    }
    ChainExternalWrenchEstimator e(ch, vec(400), vp_pos(410), vp_c(411), vp_c(412));
    vp_true(e.getError() == 0, "no error at first");
    Wrench x;
    SIZE(e, e.setInitialMomentum(w, q), "estimator: initial positions of the wrong size");
    FINE(e, e.setInitialMomentum(q, q), "estimator: initial momentum");
    SIZE(e, e.setInitialMomentum(q, w), "estimator: initial velocities of the wrong size");
    SIZE(e, e.JntToExtWrench(w, q, q, x), "estimator: positions of the wrong size");
    FINE(e, e.setInitialMomentum(q, q), "estimator: initial momentum");
    SIZE(e, e.JntToExtWrench(q, w, q, x), "estimator: velocities of the wrong size");
    FINE(e, e.setInitialMomentum(q, q), "estimator: initial momentum");
    SIZE(e, e.JntToExtWrench(q, q, w, x), "estimator: torques of the wrong size");
    restore(w, k);
}
VP_W w_ikpos0() { ikpos<0>(); }
VP_W w_ikpos1() { ikpos<1>(); }
VP_W w_ikpos2() { ikpos<2>(); }
VP_W w_ikpos3() { ikpos<3>(); }
template <int k> VP_IN void ikvel()
{
    Chain ch; chain(ch);
    JntArray q, w, o(NJ); right(q, 10); wrong(w, k, 50);
    Twist t = twi(500);
    ChainIkSolverVel_pinv s1(ch); ChainIkSolverVel_pinv_nso s2(ch, q, q); ChainIkSolverVel_wdls s3(ch); ChainIkSolverVel_pinv_givens s4(ch);
    vp_true(s1.getError() == 0, "no error at first"); vp_true(s2.getError() == 0, "no error at first");
    vp_true(s3.getError() == 0, "no error at first"); vp_true(s4.getError() == 0, "no error at first");
    SIZE(s1, s1.CartToJnt(w, t, o), "pinv: positions of the wrong size"); SIZE(s1, s1.CartToJnt(q, t, w), "pinv: velocities of the wrong size");
    SIZE(s3, s3.CartToJnt(w, t, o), "wdls: positions of the wrong size"); SIZE(s3, s3.CartToJnt(q, t, w), "wdls: velocities of the wrong size");
    SIZE(s4, s4.CartToJnt(w, t, o), "givens: positions of the wrong size"); SIZE(s4, s4.CartToJnt(q, t, w), "givens: velocities of the wrong size");
    SIZE(s2, s2.CartToJnt(w, t, o), "nso: positions of the wrong size"); SIZE(s2, s2.CartToJnt(q, t, w), "nso: velocities of the wrong size");
    FINE(s2, s2.setWeights(q), "nso: weights"); SIZE(s2, s2.setWeights(w), "nso: weights of the wrong size");
    FINE(s2, s2.setOptPos(q), "nso: optimal positions"); SIZE(s2, s2.setOptPos(w), "nso: optimal positions of the wrong size");
    FINE(s2, s2.setAlpha(vp_c(70)), "nso: alpha");
    ChainIkSolverVel_pinv_nso s5(ch, w, q), s6(ch, q, w), s7(ch);
    SIZE(s5, s5.CartToJnt(q, t, o), "nso: constructed with optimal positions of the wrong size");
    SIZE(s6, s6.CartToJnt(q, t, o), "nso: constructed with weights of the wrong size");
    SIZE(s7, s7.CartToJnt(q, t, o), "nso: no weights and positions given");
    if (k < 3)
    {
        int n = k == 0 ? 0 : k == 1 ? NJ - 1 : NJ + 1, m = k == 0 ? 0 : k == 1 ? 5 : 7;
        Eigen::MatrixXd a = Eigen::MatrixXd::Identity(n, n), b = Eigen::MatrixXd::Identity(n, NJ), c = Eigen::MatrixXd::Identity(NJ, n), d = Eigen::MatrixXd::Identity(NJ, NJ),
            e = Eigen::MatrixXd::Identity(m, m), g = Eigen::MatrixXd::Identity(m, 6), h = Eigen::MatrixXd::Identity(6, m), i = Eigen::MatrixXd::Identity(6, 6);
        FINE(s3, s3.setWeightJS(d), "wdls: joint weights"); SIZE(s3, s3.setWeightJS(a), "wdls: joint weights of the wrong size");
        FINE(s3, s3.setWeightTS(i), "wdls: task weights"); SIZE(s3, s3.setWeightTS(e), "wdls: task weights of the wrong size");
        SIZE(s3, s3.setWeightJS(b), "wdls: joint weights with the wrong number of rows"); SIZE(s3, s3.setWeightJS(c), "wdls: joint weights with the wrong number of columns");
        SIZE(s3, s3.setWeightTS(g), "wdls: task weights with the wrong number of rows"); SIZE(s3, s3.setWeightTS(h), "wdls: task weights with the wrong number of columns");
        Eigen::VectorXd y(n), z(NJ);
        FINE(s3, s3.getSigma(z), "wdls: singular values"); SIZE(s3, s3.getSigma(y), "wdls: singular values of the wrong size");
    }
    restore(w, k);
    if (k == 3) { ((long*)&s5.opt_pos.data)[1] = 8; ((long*)&s6.weights.data)[1] = 8; }
}
VP_W w_ikvel0() { ikvel<0>(); }
VP_W w_ikvel1() { ikvel<1>(); }
VP_W w_ikvel2() { ikvel<2>(); }
