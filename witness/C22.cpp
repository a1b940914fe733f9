// C22: the momentum observer of the external wrench estimator
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "chainfksolverpos_recursive.cpp"
#include "chainjnttojacsolver.cpp"
#include "chainidsolver_recursive_newton_euler.cpp"
#include "chaindynparam.cpp"
#include "utilities/svd_eigen_HH.cpp"
#include "chainexternalwrenchestimator.cpp"
#define VP_IN static inline __attribute__((always_inline))
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd W;
// the solvers used inside return what they like, other things at every step
static int step, NJ;
VP_IN double qv(int j) { return vp_c(5000 + 100 * step + j); }
VP_IN double qdv(int j) { return vp_c(5010 + 100 * step + j); }
VP_IN double tau(int j) { return vp_c(5020 + 100 * step + j); }
VP_IN double Mv(int i, int j) { return vp_c(6000 + 100 * step + 8 * i + j); }
VP_IN double Cv(int j) { return vp_c(5040 + 100 * step + j); }
VP_IN double Gv(int j) { return vp_c(5050 + 100 * step + j); }
VP_IN double Jv(int i, int j) { return vp_c(7000 + 100 * step + 8 * i + j); }
VP_IN double Uv(int i, int j) { return vp_c(8000 + 100 * step + 8 * i + j); }
VP_IN double Vv(int i, int j) { return vp_c(9000 + 100 * step + 8 * i + j); }
VP_IN double Sv(int i) { return i < 2 ? vp_c(5060 + 100 * step + i) : vp_pos(420) + vp_pos(5060 + 100 * step + i); }
VP_IN void at(const JntArray& q) { EQ(q.rows(), NJ, "the solvers used get every position"); for (int j = 0; j < NJ; ++j) EQ(q(j), qv(j), "the solvers used get the positions"); }
VP_IN void vel(const JntArray& q) { for (int j = 0; j < NJ; ++j) EQ(q(j), qdv(j), "the solvers used get the velocities"); }
extern "C" int vp_sub__ZN3KDL13ChainDynParam9JntToMassERKNS_8JntArrayERNS_21JntSpaceInertiaMatrixE(ChainDynParam*, const JntArray* q, JntSpaceInertiaMatrix* H)
{
    at(*q);
    for (int i = 0; i < NJ; ++i) for (int j = 0; j < NJ; ++j) (*H)(i, j) = Mv(i, j);
    return 0;
}
extern "C" int vp_sub__ZN3KDL13ChainDynParam13JntToCoriolisERKNS_8JntArrayES3_RS1_(ChainDynParam*, const JntArray* q, const JntArray* qd, JntArray* c)
{
    at(*q); vel(*qd);
    for (int j = 0; j < NJ; ++j) (*c)(j) = Cv(j);
    return 0;
}
extern "C" int vp_sub__ZN3KDL13ChainDynParam12JntToGravityERKNS_8JntArrayERS1_(ChainDynParam* s, const JntArray* q, JntArray* g)
{
    at(*q); EQ(s->grav, vec(400), "the gravity given");
    for (int j = 0; j < NJ; ++j) (*g)(j) = Gv(j);
    return 0;
}
extern "C" int vp_sub__ZN3KDL26ChainFkSolverPos_recursive9JntToCartERKNS_8JntArrayERNS_5FrameEi(ChainFkSolverPos_recursive*, const JntArray* q, Frame* p, int n)
{
    at(*q); vp_true(n < 0 || n == NJ, "the pose of the end-effector");
    *p = frm(70 + step);
    return 0;
}
extern "C" int vp_sub__ZN3KDL19ChainJntToJacSolver8JntToJacERKNS_8JntArrayERNS_8JacobianEi(ChainJntToJacSolver*, const JntArray* q, Jacobian* J, int n)
{
    at(*q); vp_true(n < 0 || n == NJ, "the Jacobian of the end-effector");
    for (int j = 0; j < NJ; ++j) for (int i = 0; i < 6; ++i) (*J)(i, j) = Jv(i, j);
    return 0;
}
extern "C" int vp_sub__ZN3KDL12svd_eigen_HHERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERS2_RNS1_IdLin1ELi1ELi0ELin1ELi1EEES5_S7_id(const M* A, M* U, W* S, M* V, W* tmp, int it, double)
{
    EQ(A->rows(), NJ, "the transposed Jacobian"); EQ(A->cols(), 6, "the transposed Jacobian"); EQ(it, 77, "the iterations allowed");
    Rotation R = rot(70 + step).Inverse();
    for (int j = 0; j < NJ; ++j)
    {
        Vector v = R * Vector(Jv(0, j), Jv(1, j), Jv(2, j)), w = R * Vector(Jv(3, j), Jv(4, j), Jv(5, j));
        for (int i = 0; i < 3; ++i) { EQ((*A)(j, i), v.data[i], "the transposed Jacobian in the end-effector's frame"); EQ((*A)(j, 3 + i), w.data[i], "the transposed Jacobian in the end-effector's frame"); }
    }
    for (int j = 0; j < 6; ++j)
    {
        for (int i = 0; i < NJ; ++i) (*U)(i, j) = Uv(i, j);
        for (int i = 0; i < 6; ++i) (*V)(i, j) = Vv(i, j);
        (*S)(j) = Sv(j); (*tmp)(j) = vp_c(430 + j);
    }
    return 0;
}
VP_IN double eps() { return vp_pos(420); }
template <int n> struct State { double p0[n], I[n], r[n], Mp[n][n]; };
VP_IN double momentum(int i) { double p = 0; for (int j = 0; j < NJ; ++j) p += Mv(i, j) * qdv(j); return p; }
VP_IN void args(JntArray& q, JntArray& qd, JntArray& t) { q.resize(NJ); qd.resize(NJ); t.resize(NJ); for (int j = 0; j < NJ; ++j) { q(j) = qv(j); qd(j) = qdv(j); t(j) = tau(j); } }
template <int n> VP_IN void start(ChainExternalWrenchEstimator& s, State<n>& x)
{
    JntArray q, qd, t; args(q, qd, t);
    EQ(s.setInitialMomentum(q, qd), 0, "no error");
    for (int i = 0; i < n; ++i) { x.p0[i] = momentum(i); x.I[i] = x.r[i] = 0; for (int j = 0; j < n; ++j) x.Mp[i][j] = Mv(i, j); }
    JntArray e(n); s.getEstimatedJntTorque(e);
    for (int i = 0; i < n; ++i) EQ(e(i), 0, "a new momentum starts the estimate afresh");
}
template <int n> VP_IN void estimate(ChainExternalWrenchEstimator& s, State<n>& x)
{
    double f = vp_pos(410), K = vp_c(411), c = vp_c(412);
    for (int i = 0; i < n; ++i)
    {
        double md = 0;
        for (int j = 0; j < n; ++j) md += (Mv(i, j) - x.Mp[i][j]) * f * qdv(j);
        x.I[i] += (tau(i) - Gv(i) - Cv(i) + md + x.r[i]) / f;
    }
    for (int i = 0; i < n; ++i)
    {
        x.r[i] = c * x.r[i] + (1 - c) * K * (momentum(i) - x.I[i] - x.p0[i]);
        for (int j = 0; j < n; ++j) x.Mp[i][j] = Mv(i, j);
    }
    JntArray q, qd, t, e(n); args(q, qd, t); Wrench w = wre(450);
    EQ(s.JntToExtWrench(q, qd, t, w), 0, "no error");
    s.getEstimatedJntTorque(e);
    for (int i = 0; i < n; ++i) { EQ(e(i), x.r[i], "the filtered residual of the momentum"); EQ(q(i), qv(i), "the positions are left alone"); EQ(t(i), tau(i), "the torques are left alone"); }
    double ur[6];
    for (int k = 0; k < 6; ++k) { ur[k] = 0; for (int i = 0; i < n; ++i) ur[k] += Uv(i, k) * e(i); }
    for (int k = 0; k < 6; ++k) ur[k] *= fabs(Sv(k)) < eps() ? 0 : 1 / Sv(k);
    for (int i = 0; i < 6; ++i)
    {
        double v = 0;
        for (int k = 0; k < 6; ++k) v += Vv(i, k) * ur[k];
        EQ(i < 3 ? w.force.data[i] : w.torque.data[i - 3], v, "the wrench that gives these torques, by the truncated pseudo-inverse");
    }
}
template <int n> VP_IN void run(int how)
{
    NJ = n; step = 0;
    Chain ch; for (int i = 0; i < n; ++i) ch.addSegment(Segment(Joint(Joint::RotZ)));
    ChainExternalWrenchEstimator s(ch, vec(400), vp_pos(410), vp_c(411), vp_c(412), how ? 1 : vp_pos(420), how ? 5 : 77);
    if (how) { s.setSVDEps(vp_pos(420)); s.setSVDMaxIter(77); }
    State<n> x;
    start(s, x);
    step = 1; estimate(s, x);
    step = 2; estimate(s, x);
    if (how < 2) return;
    step = 3; start(s, x);
    step = 4; estimate(s, x);
}
VP_W w_estimate1() { run<1>(0); }
VP_W w_estimate2() { run<2>(0); }
VP_W w_settings() { run<1>(1); }
VP_W w_restart() { run<1>(2); }
VP_W w_restart2() { run<2>(2); }
// the frame, the torques and the wrench stay as they are in a call with wrong sizes
VP_W w_wrong()
{
    NJ = 1; step = 0;
    Chain ch; ch.addSegment(Segment(Joint(Joint::RotZ)));
    ChainExternalWrenchEstimator s(ch, vec(400), vp_pos(410), vp_c(411), vp_c(412), vp_pos(420), 77);
    State<1> x;
    start(s, x);
    JntArray q(2), g(1); Wrench w = wre(450);
    vp_true(s.JntToExtWrench(q, g, g, w) != 0, "too many positions");
    vp_true(s.JntToExtWrench(g, q, g, w) != 0, "too many velocities");
    vp_true(s.JntToExtWrench(g, g, q, w) != 0, "too many torques");
    vp_true(s.setInitialMomentum(q, g) != 0, "too many positions");
    EQ(w, wre(450), "no wrench");
    step = 1; estimate(s, x);   // a failed call is no part of the history
}
