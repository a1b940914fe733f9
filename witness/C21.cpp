// C21: solvers notice that their chain has grown, and after
// updateInternalDataStructures() they are like solvers made for the new chain
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "articulatedbodyinertia.cpp"
#include "chainfksolverpos_recursive.cpp"
#include "chainfksolvervel_recursive.cpp"
#include "chainjnttojacsolver.cpp"
#include "chainjnttojacdotsolver.cpp"
#include "chainidsolver_recursive_newton_euler.cpp"
#include "chaindynparam.cpp"
#include "utilities/ldl_solver_eigen.cpp"
#include "chainfdsolver_recursive_newton_euler.cpp"
#include "utilities/svd_HH.cpp"
#include "utilities/svd_eigen_HH.cpp"
#include "chainhdsolver_vereshchagin.cpp"
#include "chainiksolvervel_pinv.cpp"
#include "chainiksolvervel_pinv_nso.cpp"
#include "chainiksolvervel_wdls.cpp"
#include "chainiksolvervel_pinv_givens.cpp"
#include "chainiksolverpos_nr.cpp"
#include "chainiksolverpos_nr_jl.cpp"
#include "chainiksolverpos_lma.cpp"
#include "chainexternalwrenchestimator.cpp"
#define VP_IN static inline __attribute__((always_inline))
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd W;
typedef Eigen::JacobiSVD<M> SVD;
// what the decompositions return is arbitrary, it depends on what they are given
VP_IN double mix(const M& A) { double x = 0; for (int i = 0; i < A.rows(); ++i) for (int j = 0; j < A.cols(); ++j) x += A(i, j) * vp_c(2000 + 16 * i + j); return x; }
extern "C" int vp_sub__ZN3KDL12svd_eigen_HHERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERS2_RNS1_IdLin1ELi1ELi0ELin1ELi1EEES5_S7_id(const M* A, M* U, W* S, M* V, W* tmp, int it, double)
{
    double x = mix(*A) + it;
    for (int j = 0; j < A->cols(); ++j)
    {
        for (int i = 0; i < A->rows(); ++i) (*U)(i, j) = vp_c(3100 + 16 * i + j);
        for (int i = 0; i < A->cols(); ++i) (*V)(i, j) = x * vp_c(3200 + 16 * i + j);
        (*S)(j) = 1 + j; (*tmp)(j) = 0;
    }
    return 0;
}
extern "C" int vp_sub__ZN3KDL6SVD_HH9calculateERKNS_8JacobianERSt6vectorINS_8JntArrayESaIS5_EERS5_S8_i(SVD_HH* s, const Jacobian* J, std::vector<JntArray>* U, JntArray* S, std::vector<JntArray>* V, int it)
{
    double x = mix(J->data) + it;
    EQ(s->tmp.rows(), J->columns(), "room for the decomposition");
    EQ(U->size(), 6, "room for U"); EQ(V->size(), J->columns(), "room for V");
    for (unsigned j = 0; j < J->columns(); ++j)
    {
        for (int i = 0; i < 6; ++i) (*U)[i](j) = vp_c(3100 + 16 * i + j);
        for (unsigned i = 0; i < J->columns(); ++i) (*V)[i](j) = x * vp_c(3200 + 16 * i + j);
        (*S)(j) = 1 + j;
    }
    return 0;
}
extern "C" int vp_sub__ZN3KDL15svd_eigen_MacieERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERS2_RNS1_IdLin1ELi1ELi0ELin1ELi1EEES5_S5_S7_db(const M* A, M* U, W* S, M* V, M* B, W* t, double, bool)
{
    int m = A->rows(), n = A->cols();
    double x = mix(*A);
    EQ(U->rows(), m, "room for U"); EQ(U->cols(), m, "room for U"); EQ(V->rows(), n, "room for V"); EQ(V->cols(), n, "room for V");
    EQ(B->rows(), m, "room for B"); EQ(B->cols(), n, "room for B"); EQ(S->rows(), n, "room for S"); EQ(t->rows(), m, "room for a column");
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) (*U)(i, j) = vp_c(3100 + 16 * i + j);
    for (int i = 0; i < n; ++i) { (*S)(i) = 1 + i; for (int j = 0; j < n; ++j) (*V)(i, j) = x * vp_c(3200 + 16 * i + j); }
    return 0;
}
extern "C" int vp_sub__ZN3KDL16ldl_solver_eigenERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERKNS1_IdLin1ELi1ELi0ELin1ELi1EEERS2_RS5_S9_S9_(const M* A, const W* v, M* L, W* D, W* vt, W* q)
{
    double x = mix(*A);
    int n = A->rows();
    EQ(A->cols(), n, "a square matrix"); EQ(v->rows(), n, "the right hand side"); EQ(L->rows(), n, "room for L"); EQ(L->cols(), n, "room for L");
    EQ(D->rows(), n, "room for D"); EQ(vt->rows(), n, "room for a vector"); EQ(q->rows(), n, "room for the solution");
    for (int i = 0; i < n; ++i) (*q)(i) = x * (*v)(i);
    return 0;
}
#define RC(s, expr, code, lbl) do { int r_ = (expr); vp_true(r_ == (code), lbl); vp_true((s).getError() == (code), "getError() after: " lbl); } while (0)
#define OLD(s, expr, lbl) RC(s, expr, SolverI::E_NOT_UP_TO_DATE, lbl)
#define FINE(s, expr, lbl) RC(s, expr, SolverI::E_NOERROR, lbl)
VP_IN RigidBodyInertia rbi() { return RigidBodyInertia(vp_c(300), Vector(0, 1, 0), RotationalInertia(vp_c(301), 1, 2)); }
VP_IN Segment turning() { return Segment(Joint(Joint::RotZ), Frame(Vector(1, 0, 0)), rbi()); }
VP_IN Segment sliding() { return Segment(Joint(Joint::TransY), Frame(Vector(1, 0, 2)), rbi()); }
VP_IN Segment turning2() { return Segment(Joint(Joint::RotX), Frame(Vector(1, 2, 0)), rbi()); }
VP_IN Segment fixed() { return Segment(Joint(Joint::Fixed), Frame(Vector(0, 2, 0)), rbi()); }
VP_IN void before(Chain& ch) { ch.addSegment(turning()); }
// one more joint (0), a fixed segment and two more joints (1), or a fixed segment only (2)
template <int how> VP_IN int grow(Chain& ch)
{
    if (how == 0) { ch.addSegment(sliding()); return 2; }
    if (how == 1) { ch.addSegment(fixed()); ch.addSegment(sliding()); ch.addSegment(turning2()); return 3; }
    ch.addSegment(fixed()); return 1;
}
VP_IN void in(JntArray& a, int id, int n) { a.resize(n); for (int j = 0; j < n; ++j) a(j) = vp_c(id + j); }
VP_IN void out(JntArray& a, int n) { a.resize(n); for (int j = 0; j < n; ++j) a(j) = 0; }
VP_IN void SAME(const JntArray& a, const JntArray& b, const char* l) { EQ(a.rows(), b.rows(), l); for (unsigned j = 0; j < b.rows(); ++j) EQ(a(j), b(j), l); }
VP_IN void SAME(const Jacobian& a, const Jacobian& b, const char* l) { EQ(a.columns(), b.columns(), l); for (unsigned j = 0; j < b.columns(); ++j) for (int i = 0; i < 6; ++i) EQ(a(i, j), b(i, j), l); }

template <int how> VP_IN void kin()
{
    Chain ch; before(ch);
    JntArrayVel p(1); in(p.q, 10, 1); in(p.qdot, 20, 1);
    ChainFkSolverPos_recursive fp(ch); ChainFkSolverVel_recursive fv(ch); ChainJntToJacSolver s(ch); ChainJntToJacDotSolver d(ch);
    Frame f, f2; FrameVel v, v2; Twist t, t2; Jacobian J1(1);
    FINE(fp, fp.JntToCart(p.q, f), "pose"); FINE(fv, fv.JntToCart(p, v), "velocity"); FINE(s, s.JntToJac(p.q, J1), "Jacobian"); FINE(d, d.JntToJacDot(p, t), "its derivative");
    int n = grow<how>(ch);
    JntArrayVel q(n); in(q.q, 10, n); in(q.qdot, 20, n);
    Jacobian J(n), K(n);
    // nothing of these depends on how many segments there were
    ChainFkSolverPos_recursive gp(ch); ChainFkSolverVel_recursive gv(ch);
    FINE(fp, fp.JntToCart(q.q, f), "pose of the new chain"); FINE(gp, gp.JntToCart(q.q, f2), "pose"); EQ(f, f2, "the same pose");
    FINE(fv, fv.JntToCart(q, v), "velocity of the new chain"); FINE(gv, gv.JntToCart(q, v2), "velocity");
    EQ(v.value(), v2.value(), "the same pose"); EQ(v.deriv(), v2.deriv(), "the same velocity");
    std::vector<bool> l(n);
    if (n > 1)
    {
        OLD(s, s.JntToJac(q.q, J), "Jacobian"); OLD(s, s.JntToJac(p.q, J1), "Jacobian, old sizes"); OLD(s, s.setLockedJoints(l), "locks");
        OLD(d, d.JntToJacDot(q, J), "derivative"); OLD(d, d.JntToJacDot(p, J1), "derivative, old sizes"); OLD(d, d.JntToJacDot(q, t), "twist"); OLD(d, d.JntToJacDot(p, t), "twist, old sizes");
    }
    s.updateInternalDataStructures(); d.updateInternalDataStructures(); fp.updateInternalDataStructures(); fv.updateInternalDataStructures();
    ChainJntToJacSolver s2(ch); ChainJntToJacDotSolver d2(ch);
    FINE(s, s.JntToJac(q.q, J), "Jacobian of the new chain"); FINE(s2, s2.JntToJac(q.q, K), "Jacobian"); SAME(J, K, "the same Jacobian");
    FINE(d, d.JntToJacDot(q, J), "derivative for the new chain"); FINE(d2, d2.JntToJacDot(q, K), "derivative"); SAME(J, K, "the same derivative");
    FINE(d, d.JntToJacDot(q, t), "twist for the new chain"); FINE(d2, d2.JntToJacDot(q, t2), "twist"); EQ(t, t2, "the same twist");
    l[n - 1] = true;
    FINE(s, s.setLockedJoints(l), "locks for the new chain"); FINE(s2, s2.setLockedJoints(l), "locks");
    FINE(s, s.JntToJac(q.q, J), "locked Jacobian"); FINE(s2, s2.JntToJac(q.q, K), "locked Jacobian"); SAME(J, K, "the same locked Jacobian");
    Jacobian Jl(n - 1), Kl(n - 1);
    FINE(d, d.setLockedJoints(l), "locks for the new chain"); FINE(d2, d2.setLockedJoints(l), "locks");
    FINE(d, d.JntToJacDot(q, Jl), "locked derivative"); FINE(d2, d2.JntToJacDot(q, Kl), "locked derivative"); SAME(Jl, Kl, "the same locked derivative");
    FINE(d, d.JntToJacDot(q, t), "locked twist"); FINE(d2, d2.JntToJacDot(q, t2), "locked twist"); EQ(t, t2, "the same locked twist");
}
VP_W w_kin0() { kin<0>(); }
VP_W w_kin1() { kin<1>(); }
VP_W w_kin2() { kin<2>(); }
template <int how> VP_IN void dynamics()
{
    Chain ch; before(ch);
    Vector g = vec(400);
    ChainIdSolver_RNE id(ch, g); ChainDynParam dp(ch, g); ChainFdSolver_RNE fd(ch, g);
    JntArray p, po; in(p, 10, 1); out(po, 1);
    Wrenches f1(1); JntSpaceInertiaMatrix H1(1);
    FINE(id, id.CartToJnt(p, p, p, f1, po), "inverse dynamics");
    int n = grow<how>(ch), m = how == 1 ? 4 : 2;
    JntArray q, qd, qdd, a, b; in(q, 10, n); in(qd, 20, n); in(qdd, 30, n); out(a, n); out(b, n);
    Wrenches f(m); for (int i = 0; i < m; ++i) f[i] = wre(500 + 6 * i);
    JntSpaceInertiaMatrix H(n), K(n);
    OLD(id, id.CartToJnt(q, qd, qdd, f, a), "inverse dynamics"); OLD(id, id.CartToJnt(p, p, p, f1, po), "inverse dynamics, old sizes");
    OLD(dp, dp.JntToMass(q, H), "mass matrix"); OLD(dp, dp.JntToMass(p, H1), "mass matrix, old sizes");
    OLD(dp, dp.JntToCoriolis(q, qd, a), "coriolis torques"); OLD(dp, dp.JntToCoriolis(p, p, po), "coriolis torques, old sizes");
    OLD(dp, dp.JntToGravity(q, a), "gravity torques"); OLD(dp, dp.JntToGravity(p, po), "gravity torques, old sizes");
    OLD(fd, fd.CartToJnt(q, qd, qdd, f, a), "forward dynamics"); OLD(fd, fd.CartToJnt(p, p, p, f1, po), "forward dynamics, old sizes");
    id.updateInternalDataStructures(); dp.updateInternalDataStructures(); fd.updateInternalDataStructures();
    ChainIdSolver_RNE id2(ch, g); ChainDynParam dp2(ch, g); ChainFdSolver_RNE fd2(ch, g);
    FINE(id, id.CartToJnt(q, qd, qdd, f, a), "inverse dynamics of the new chain"); FINE(id2, id2.CartToJnt(q, qd, qdd, f, b), "inverse dynamics"); SAME(a, b, "the same torques");
    FINE(dp, dp.JntToMass(q, H), "mass matrix of the new chain"); FINE(dp2, dp2.JntToMass(q, K), "mass matrix");
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) EQ(H(i, j), K(i, j), "the same mass matrix");
    FINE(dp, dp.JntToCoriolis(q, qd, a), "coriolis torques of the new chain"); FINE(dp2, dp2.JntToCoriolis(q, qd, b), "coriolis torques"); SAME(a, b, "the same coriolis torques");
    FINE(dp, dp.JntToGravity(q, a), "gravity torques of the new chain"); FINE(dp2, dp2.JntToGravity(q, b), "gravity torques"); SAME(a, b, "the same gravity torques");
    FINE(fd, fd.CartToJnt(q, qd, qdd, f, a), "forward dynamics of the new chain"); FINE(fd2, fd2.CartToJnt(q, qd, qdd, f, b), "forward dynamics"); SAME(a, b, "the same accelerations");
}
VP_W w_dynamics0() { dynamics<0>(); }
VP_W w_dynamics1() { dynamics<1>(); }
VP_W w_dynamics2() { dynamics<2>(); }
VP_W w_hybrid()
{
    Chain ch; ch.addSegment(turning());
    ChainHdSolver_Vereshchagin s(ch, twi(400), 1);
    JntArray p, po, pc, be(1); in(p, 10, 1); out(po, 1); out(pc, 1); be(0) = vp_c(50);
    Wrenches f1(1), f(2); Jacobian al(1);
    for (int i = 0; i < 6; ++i) al(i, 0) = vp_c(60 + i);
    ch.addSegment(sliding());
    JntArray q, qd, t, a, ac, b, bc; in(q, 10, 2); in(qd, 20, 2); in(t, 30, 2); out(a, 2); out(ac, 2); out(b, 2); out(bc, 2);
    OLD((SolverI&)s, s.CartToJnt(q, qd, a, al, be, f, t, ac), "hybrid dynamics"); OLD((SolverI&)s, s.CartToJnt(p, p, po, al, be, f1, p, pc), "hybrid dynamics, old sizes");
    s.updateInternalDataStructures();
    ChainHdSolver_Vereshchagin s2(ch, twi(400), 1);
    FINE((SolverI&)s, s.CartToJnt(q, qd, a, al, be, f, t, ac), "hybrid dynamics of the new chain"); FINE((SolverI&)s2, s2.CartToJnt(q, qd, b, al, be, f, t, bc), "hybrid dynamics");
    SAME(a, b, "the same accelerations"); SAME(ac, bc, "the same constraint torques");
    Eigen::VectorXd u, v;
    s.getContraintForceMagnitude(u); s2.getContraintForceMagnitude(v);
    EQ(u(0), v(0), "the same constraint force");
    JntArray ta, tb; out(ta, 2); out(tb, 2);
    s.getTotalTorque(ta); s2.getTotalTorque(tb); SAME(ta, tb, "the same total torques");
}
template <int how> VP_IN void ikvel()
{
    Chain ch; before(ch);
    JntArray p, po; in(p, 10, 1); out(po, 1);
    Twist t = twi(500);
    M w1(1, 1); w1(0, 0) = vp_c(80);
    ChainIkSolverVel_pinv s1(ch); ChainIkSolverVel_pinv_nso s2(ch, p, p); ChainIkSolverVel_wdls s3(ch); ChainIkSolverVel_pinv_givens s4(ch);
    FINE(s3, s3.setWeightJS(w1), "joint weights");
    int n = grow<how>(ch);
    JntArray q, a, b; in(q, 10, n); out(a, n); out(b, n);
    if (n > 1)
    {
        OLD(s1, s1.CartToJnt(q, t, a), "pinv"); OLD(s1, s1.CartToJnt(p, t, po), "pinv, old sizes");
        OLD(s2, s2.CartToJnt(q, t, a), "nso"); OLD(s2, s2.CartToJnt(p, t, po), "nso, old sizes");
        OLD(s3, s3.CartToJnt(q, t, a), "wdls"); OLD(s3, s3.CartToJnt(p, t, po), "wdls, old sizes"); OLD(s3, s3.setWeightJS(w1), "wdls weights, old sizes");
        OLD(s4, s4.CartToJnt(q, t, a), "givens"); OLD(s4, s4.CartToJnt(p, t, po), "givens, old sizes");
    }
    s1.updateInternalDataStructures(); s2.updateInternalDataStructures(); s3.updateInternalDataStructures(); s4.updateInternalDataStructures();
    JntArray op(n), we(n);
    for (int i = 0; i < n; ++i) { op(i) = i == 0 ? p(0) : 0; we(i) = i == 0 ? p(0) : 1; }
    M wj = M::Identity(n, n); wj(0, 0) = w1(0, 0);
    ChainIkSolverVel_pinv f1(ch); ChainIkSolverVel_pinv_nso f2(ch, op, we); ChainIkSolverVel_wdls f3(ch); ChainIkSolverVel_pinv_givens f4(ch);
    FINE(f3, f3.setWeightJS(wj), "joint weights");
    int r1 = s1.CartToJnt(q, t, a), r2 = f1.CartToJnt(q, t, b); EQ(r1, r2, "pinv: the same result"); SAME(a, b, "pinv: the same velocities");
    r1 = s2.CartToJnt(q, t, a), r2 = f2.CartToJnt(q, t, b); EQ(r1, r2, "nso: the same result"); SAME(a, b, "nso: the same velocities");
    r1 = s3.CartToJnt(q, t, a), r2 = f3.CartToJnt(q, t, b); EQ(r1, r2, "wdls: the same result"); SAME(a, b, "wdls: the same velocities");
    r1 = s4.CartToJnt(q, t, a), r2 = f4.CartToJnt(q, t, b); EQ(r1, r2, "givens: the same result"); SAME(a, b, "givens: the same velocities");
    W x(n), y(n); s3.getSigma(x); f3.getSigma(y);
    for (int i = 0; i < n; ++i) EQ(x(i), y(i), "wdls: the same singular values");
    FINE(s2, s2.setWeights(q), "weights for the new chain"); FINE(s2, s2.setOptPos(q), "optimal positions for the new chain"); FINE(s3, s3.setWeightJS(M::Identity(n, n)), "joint weights for the new chain");
}
VP_W w_ikvel0() { ikvel<0>(); }
VP_W w_ikvel1() { ikvel<1>(); }
VP_W w_ikvel2() { ikvel<2>(); }
static int nfu, niu;
struct FS : public ChainFkSolverPos
{
    virtual int JntToCart(const JntArray& q, Frame& p, int = -1) { p = Frame(Vector(q(0), q(1), 0)); return 0; }
    virtual int JntToCart(const JntArray&, std::vector<Frame>&, int = -1) { return 0; }
    virtual void updateInternalDataStructures() { ++nfu; }
};
struct IS : public ChainIkSolverVel
{
    virtual int CartToJnt(const JntArray& q, const Twist& v, JntArray& o) { EQ(o.rows(), 2, "room for the step"); o(0) = v(0); o(1) = v(1); return 0; }
    virtual int CartToJnt(const JntArray&, const FrameVel&, JntArrayVel&) { return 0; }
    virtual void updateInternalDataStructures() { ++niu; }
};
template <int which> VP_IN void ikpos()
{
    nfu = niu = 0;
    Chain ch; before(ch);
    JntArray p, po; in(p, 10, 1); out(po, 1);
    FS f; IS i;
    Frame g = Frame(vec(900));
    JntArray lo1(1), hi1(1); lo1(0) = vp_c(40); hi1(0) = vp_c(41);
    ChainIkSolverPos_NR s1(ch, f, i, 1, vp_pos(1)); ChainIkSolverPos_NR_JL s2(ch, lo1, hi1, f, i, 1, vp_pos(1)), s3(ch, f, i, 1, vp_pos(1));
    grow<0>(ch);
    JntArray q, a, b, lo(2), hi(2); in(q, 10, 2); out(a, 2); out(b, 2);
    if (which == 0)
    {
        OLD(s1, s1.CartToJnt(q, g, a), "NR"); OLD(s1, s1.CartToJnt(p, g, po), "NR, old sizes");
        s1.updateInternalDataStructures();
        vp_true(nfu > 0, "NR: the pose solver is updated"); vp_true(niu > 0, "NR: the velocity solver is updated");
        ChainIkSolverPos_NR f1(ch, f, i, 1, vp_pos(1));
        int r1 = s1.CartToJnt(q, g, a), r2 = f1.CartToJnt(q, g, b); EQ(r1, r2, "NR: the same result"); SAME(a, b, "NR: the same positions");
        return;
    }
    OLD(s2, s2.CartToJnt(q, g, a), "NR_JL"); OLD(s2, s2.CartToJnt(p, g, po), "NR_JL, old sizes");
    s2.updateInternalDataStructures();
    vp_true(nfu > 0, "NR_JL: the pose solver is updated"); vp_true(niu > 0, "NR_JL: the velocity solver is updated");
    s3.updateInternalDataStructures();
    ChainIkSolverPos_NR_JL f3(ch, f, i, 1, vp_pos(1));
    for (int j = 0; j < 2; ++j)
    {
        EQ(s3.q_min(j), f3.q_min(j), "no lower limits"); EQ(s3.q_max(j), f3.q_max(j), "no upper limits");
        EQ(s2.q_min(j), j == 0 ? lo1(0) : f3.q_min(j), "lower limits are kept, the new joint has none"); EQ(s2.q_max(j), j == 0 ? hi1(0) : f3.q_max(j), "upper limits are kept, the new joint has none");
    }
    EQ(s2.q_min.rows(), 2, "a lower limit for each joint"); EQ(s2.q_max.rows(), 2, "an upper limit for each joint");
    lo(0) = vp_c(40); lo(1) = vp_c(42); hi(0) = vp_c(41); hi(1) = vp_c(43);
    FINE(s2, s2.setJointLimits(lo, hi), "limits for the new chain");
    ChainIkSolverPos_NR_JL f2(ch, lo, hi, f, i, 1, vp_pos(1));
    int r1 = s2.CartToJnt(q, g, a), r2 = f2.CartToJnt(q, g, b); EQ(r1, r2, "NR_JL: the same result"); SAME(a, b, "NR_JL: the same positions");
}
VP_W w_nr() { ikpos<0>(); }
VP_W w_nrjl() { ikpos<1>(); }
// the same history of calls gives the same estimates
template <int n0> VP_IN void estimator()
{
    Chain ch; if (n0) before(ch);
    double fr = vp_pos(410), ga = vp_c(411), fi = vp_c(412);
    ChainExternalWrenchEstimator s(ch, vec(400), fr, ga, fi);
    JntArray p, po; in(p, 10, n0); out(po, n0);
    Wrench x, y;
    if (n0) grow<0>(ch); else { ch.addSegment(turning()); ch.addSegment(sliding()); }
    JntArray q, qd, t, a, b; in(q, 10, 2); in(qd, 20, 2); in(t, 30, 2); out(a, 2); out(b, 2);
    OLD(s, s.setInitialMomentum(q, qd), "initial momentum"); OLD(s, s.setInitialMomentum(p, p), "initial momentum, old sizes");
    OLD(s, s.JntToExtWrench(q, qd, t, x), "estimate"); OLD(s, s.JntToExtWrench(p, p, p, x), "estimate, old sizes");
    s.updateInternalDataStructures();
    ChainExternalWrenchEstimator s2(ch, vec(400), fr, ga, fi);
    FINE(s, s.setInitialMomentum(q, qd), "initial momentum of the new chain"); FINE(s2, s2.setInitialMomentum(q, qd), "initial momentum");
    FINE(s, s.JntToExtWrench(q, qd, t, x), "estimate for the new chain"); FINE(s2, s2.JntToExtWrench(q, qd, t, y), "estimate");
    s.getEstimatedJntTorque(a); s2.getEstimatedJntTorque(b);
    SAME(a, b, "the same torques"); EQ(x, y, "the same wrench");
}
VP_W w_estimator1() { estimator<1>(); }
VP_W w_estimator0() { estimator<0>(); }
