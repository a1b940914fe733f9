// C23: constrained hybrid dynamics (Vereshchagin)
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "articulatedbodyinertia.cpp"
#include "chainfksolvervel_recursive.cpp"
#include "chainidsolver_recursive_newton_euler.cpp"
#include "utilities/svd_eigen_HH.cpp"
#include "chainhdsolver_vereshchagin.cpp"
typedef ChainHdSolver_Vereshchagin HD;
typedef ChainIdSolver_RNE ID;
#define VP_IN static inline __attribute__((always_inline))
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd W;
// The decomposition of the (negative) matrix of unit acceleration energies is
// arbitrary: -R diag(S) R^T, all values large enough or all too small.
static int NC; static bool small_, turn_;
static double M0[4];
#define FLAGS(s, t) small_ = s; turn_ = t;
VP_IN double Sv(int i) { return small_ ? 1e-14 - vp_pos(501 + i) : 1e-14 + vp_pos(501 + i); }
VP_IN double Rv(int i, int j) { return i == j ? turn_ ? cos(vp_c(505)) : 1 : !turn_ ? 0 : i ? sin(vp_c(505)) : -sin(vp_c(505)); }
extern "C" int vp_sub__ZN3KDL12svd_eigen_HHERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERS2_RNS1_IdLin1ELi1ELi0ELin1ELi1EEES5_S7_id(const M* A, M* U, W* S, M* V, W*, int, double)
{
    EQ(A->rows(), NC, "a matrix of the number of constraints"); EQ(A->cols(), NC, "a matrix of the number of constraints");
    for (int i = 0; i < NC; ++i)
    {
        for (int j = 0; j < NC; ++j) { M0[2 * i + j] = (*A)(i, j); (*U)(i, j) = -Rv(i, j); (*V)(i, j) = Rv(i, j); }
        (*S)(i) = Sv(i);
    }
    return 0;
}
VP_IN Joint jnt(int i, Joint::JointType t) { return Joint(t, 1, 0, vp_pos(840 + i)); }
VP_IN Segment dseg(int i, Joint::JointType t, const Frame& tip, const RigidBodyInertia& I) { return Segment(jnt(i, t), tip, I); }
VP_IN Wrench fext(int i) { return wre(900 + 6 * i); }
VP_IN double al(int i, int c) { return vp_c(950 + 6 * c + i); }
template <int n, int nc> VP_IN void solve(Segment* const* S, bool energies, bool again = false)
{
    NC = nc;
    Chain ch;
    for (int i = 0; i < n; ++i) ch.addSegment(*S[i]);
    HD s(ch, Twist(-vec(890), Vector::Zero()), nc);
    JntArray q(n), qd(n), qdd(n), ff(n), ct(n), beta(nc), tau(n);
    Jacobian alfa(nc);
    Wrenches f(n);
    for (int j = 0; j < n; ++j) { q(j) = Q(j); qd(j) = QD(j); ff(j) = vp_c(520 + j); f[j] = fext(j); qdd(j) = vp_c(530 + j); ct(j) = vp_c(540 + j); }
    for (int c = 0; c < nc; ++c) { beta(c) = vp_c(550 + c); for (int i = 0; i < 6; ++i) alfa(i, c) = al(i, c); }
    if (again)
    {
        JntArray q2(n), qd2(n), x2(n), f2(n), c2(n), b2(nc); Jacobian a2(nc); Wrenches w2(n);
        for (int j = 0; j < n; ++j) { q2(j) = vp_c(560 + j); qd2(j) = vp_c(563 + j); f2(j) = vp_c(566 + j); w2[j] = wre(570); }
        for (int c = 0; c < nc; ++c) { b2(c) = vp_c(580); a2(0, c) = vp_c(581); a2(4, c) = vp_c(582); }
        s.HD::CartToJnt(q2, qd2, x2, a2, b2, w2, f2, c2);
    }
    EQ(s.HD::CartToJnt(q, qd, qdd, alfa, beta, f, ff, ct), 0, "succeeds"); EQ(s.getError(), 0, "the result is recorded");
    Eigen::VectorXd nu(nc); s.getContraintForceMagnitude(nu);
    if (small_) for (int c = 0; c < nc; ++c) EQ(nu(c), 0, "no force along directions the constraints cannot accelerate");
    // the twist of the end-effector and how it changes
    ChainFkSolverVel_recursive fk(ch);
    FrameVel x; fk.JntToCart(JntArrayVel(q, qd), x);
    Twist v = x.GetTwist();
    if (energies)
    {
        // spatial acceleration of the end-effector in the base's orientation
        Twist a(Vector(vp_dt(v.vel.data[0]), vp_dt(v.vel.data[1]), vp_dt(v.vel.data[2])), Vector(vp_dt(v.rot.data[0]), vp_dt(v.rot.data[1]), vp_dt(v.rot.data[2])));
        for (int j = 0; j < n; ++j)
        {
            JntArray u(n); u(j) = 1;
            FrameVel y; fk.JntToCart(JntArrayVel(q, u), y);
            a = a + y.GetTwist() * (qdd(j) - QDD(j));
        }
        a.vel = a.vel - CROSS(v.rot, v.vel) - vec(890);
        std::vector<Twist> xdd(n + 1); s.getTransformedLinkAcceleration(xdd);
        EQ(xdd[n], a, "the acceleration of the end-effector belongs to the joint accelerations");
        for (int c = 0; c < nc; ++c)
        {
            double e = 0, w = beta(c);
            for (int i = 0; i < 6; ++i) e += al(i, c) * xdd[n](i);
            for (int k = 0; k < nc; ++k) { w += M0[2 * c + k] * nu(k); for (int l = 0; l < nc; ++l) w += Rv(c, l) * Sv(l) * Rv(k, l) * nu(k); }
            EQ(e, w, "the acceleration energy wanted, if the decomposition is one");
        }
        return;
    }
    // the constraint forces and the torques given make the joints move like that
    Frame X[n];
    Wrench cf = Wrench::Zero();
    for (int c = 0; c < nc; ++c) cf = cf + Wrench(Vector(al(0, c), al(1, c), al(2, c)), Vector(al(3, c), al(4, c), al(5, c))) * nu(c);
    Rotation R = Rotation::Identity();
    for (int i = 0; i < n; ++i) { R = R * S[i]->pose(q(i)).M; f[i] = R.Inverse(fext(i)); if (i == n - 1) f[i] = f[i] - R.Inverse(cf); }
    ID id(ch, vec(890));
    EQ(id.ID::CartToJnt(q, qd, qdd, f, tau), 0, "succeeds");
    for (int j = 0; j < n; ++j) EQ(tau(j), ff(j), "with the constraint forces the accelerations take the torques given");
    for (int j = 0; j < n; ++j) { EQ(q(j), Q(j), "the positions are left alone"); EQ(qd(j), QD(j), "the velocities are left alone"); }
}
// few of the inertial parameters at a time
VP_IN RigidBodyInertia part(int i) { return RigidBodyInertia(vp_pos(700 + 10 * i), Vector(vp_c(701 + 10 * i), 0, 0), RotationalInertia(0, 0, vp_c(706 + 10 * i), 0, 0, 0)); }
VP_IN RigidBodyInertia point(int i) { return RigidBodyInertia(vp_pos(700 + 10 * i), Vector(0, vp_c(702 + 10 * i), 0)); }
template <int nc> VP_IN void one(Joint::JointType t, bool e, const Frame& tip, const RigidBodyInertia& I, bool again = false) { Segment S0 = dseg(0, t, tip, I); Segment* S[1] = {&S0}; solve<1, nc>(S, e, again); }
template <int nc> VP_IN void two(Joint::JointType a, Joint::JointType b, bool e, const Frame& t0, const RigidBodyInertia& i0, const Frame& t1, const RigidBodyInertia& i1)
{
    Segment S0 = dseg(0, a, t0, i0), S1 = dseg(1, b, t1, i1);
    Segment* S[2] = {&S0, &S1};
    solve<2, nc>(S, e);
}
VP_IN void three(Joint::JointType a, Joint::JointType b, Joint::JointType c, bool e)
{
    Segment S0 = dseg(0, a, Frame(Vector(vp_c(10), 0, 0)), point(0)), S1 = dseg(1, b, Frame(Vector(0, vp_c(11), 0)), point(1)), S2 = dseg(2, c, Frame(Vector(vp_c(12), 0, 0)), point(2));
    Segment* S[3] = {&S0, &S1, &S2};
    solve<3, 1>(S, e);
}
#define AX Frame(Vector(vp_c(10), 0, 0)), point(0), Frame(Vector(vp_c(11), 0, 0)), point(1)
#define TU Frame(Rotation::RotX(vp_c(12))), point(0), Frame(Rotation::RotY(vp_c(13)), Vector(vp_c(11), 0, 0)), point(1)
VP_W w_r() { FLAGS(false, false) one<1>(Joint::RotZ, false, frm(0), part(0)); }
VP_W w_t() { FLAGS(false, false) one<1>(Joint::TransX, false, frm(0), inertia(0)); }
VP_W w_r_i() { FLAGS(false, false) one<1>(Joint::RotX, false, Frame(vec(10)), inertia(0)); }
VP_W w_r_e() { FLAGS(false, false) one<1>(Joint::RotZ, true, frm(0), part(0)); }
VP_W w_t_e() { FLAGS(false, false) one<1>(Joint::TransX, true, frm(0), inertia(0)); }
VP_W w_r_i_e() { FLAGS(false, false) one<1>(Joint::RotX, true, Frame(vec(10)), inertia(0)); }
VP_W w_rr() { FLAGS(false, false) two<1>(Joint::RotZ, Joint::RotX, false, AX); }
VP_W w_rt() { FLAGS(false, false) two<1>(Joint::RotY, Joint::TransX, false, AX); }
VP_W w_tr() { FLAGS(false, false) two<1>(Joint::TransZ, Joint::RotX, false, AX); }
VP_W w_rr_e() { FLAGS(false, false) two<1>(Joint::RotZ, Joint::RotX, true, AX); }
VP_W w_rt_e() { FLAGS(false, false) two<1>(Joint::RotY, Joint::TransX, true, AX); }
VP_W w_tr_e() { FLAGS(false, false) two<1>(Joint::TransZ, Joint::RotX, true, AX); }
VP_W w_rt_u() { FLAGS(false, false) two<1>(Joint::RotY, Joint::TransX, false, TU); }
VP_W w_tr_u() { FLAGS(false, false) two<1>(Joint::TransZ, Joint::RotX, false, TU); }
VP_W w_tt_u() { FLAGS(false, false) two<1>(Joint::TransZ, Joint::TransX, false, TU); }
VP_W w_rt_u_e() { FLAGS(false, false) two<1>(Joint::RotY, Joint::TransX, true, TU); }
VP_W w_tr_u_e() { FLAGS(false, false) two<1>(Joint::TransZ, Joint::RotX, true, TU); }
VP_W w_tt_u_e() { FLAGS(false, false) two<1>(Joint::TransZ, Joint::TransX, true, TU); }
VP_W w_tt2() { FLAGS(false, false) two<2>(Joint::TransZ, Joint::TransX, false, TU); }
VP_W w_tt2_e() { FLAGS(false, false) two<2>(Joint::TransZ, Joint::TransX, true, TU); }
VP_W w_tt2i() { FLAGS(false, false) two<2>(Joint::TransZ, Joint::TransX, true, AX); }
VP_W w_r2() { FLAGS(false, false) one<2>(Joint::RotZ, false, Frame(vec(10)), point(0)); }
VP_W w_r2_e() { FLAGS(false, false) one<2>(Joint::RotZ, true, Frame(vec(10)), point(0)); }
VP_W w_ttr() { FLAGS(false, false) three(Joint::TransZ, Joint::TransX, Joint::RotZ, false); }
VP_W w_ttr_e() { FLAGS(false, false) three(Joint::TransZ, Joint::TransX, Joint::RotZ, true); }
VP_W w_tt2_v() { FLAGS(false, true) two<2>(Joint::TransZ, Joint::TransX, false, AX); }
VP_W w_tt2_ve() { FLAGS(false, true) two<2>(Joint::TransZ, Joint::TransX, true, AX); }
VP_W w_r2_v() { FLAGS(false, true) one<2>(Joint::RotZ, false, Frame(vec(10)), point(0)); }
VP_W w_r2_ve() { FLAGS(false, true) one<2>(Joint::RotZ, true, Frame(vec(10)), point(0)); }
VP_W w_small() { FLAGS(true, false) two<1>(Joint::TransZ, Joint::RotX, false, AX); }
VP_W w_small2() { FLAGS(true, true) two<2>(Joint::TransZ, Joint::TransX, false, AX); }
VP_W w_again() { FLAGS(false, false) one<1>(Joint::RotZ, false, Frame(vec(10)), point(0), true); }
VP_W w_again_e() { FLAGS(false, false) one<1>(Joint::RotZ, true, Frame(vec(10)), point(0), true); }
VP_W w_again2() { FLAGS(false, false) one<2>(Joint::RotZ, false, Frame(vec(10)), point(0), true); }
