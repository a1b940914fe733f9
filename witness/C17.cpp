// C17: joint space dynamics: mass matrix, Coriolis and gravity terms add up to
// inverse dynamics; forward dynamics undoes it
#include "kdl.hpp"
#include "chain.hpp"
#include "articulatedbodyinertia.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "chainidsolver_recursive_newton_euler.cpp"
#include "chaindynparam.cpp"
typedef ChainIdSolver_RNE ID;
typedef ChainDynParam DP;
#define VP_IN static inline __attribute__((always_inline))
VP_IN Joint jnt(int i, Joint::JointType t) { return Joint(t, vp_c(800 + i), vp_c(820 + i), vp_c(840 + i)); }
VP_IN Segment dseg(int i, Joint::JointType t, const Frame& tip) { return Segment(jnt(i, t), tip, inertia(i)); }
template <int n, int m>
VP_IN void dyn(Segment* const* S, const int* jof)
{
    Chain ch;
    for (int i = 0; i < n; ++i) ch.addSegment(*S[i]);
    ID s(ch, vec(890));
    DP d(ch, vec(890));
    JntArray q(m), qd(m), qdd(m), tau(m), c(m), g(m);
    JntSpaceInertiaMatrix H(m);
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) H(i, j) = vp_c(860 + 3 * i + j);
    for (int j = 0; j < m; ++j) { q(j) = Q(j); qd(j) = QD(j); qdd(j) = QDD(j); }
    Wrenches f(n, Wrench::Zero());
    EQ(s.ID::CartToJnt(q, qd, qdd, f, tau), 0, "succeeds");
    EQ(d.DP::JntToMass(q, H), 0, "succeeds"); EQ(d.getError(), 0, "the result is recorded");
    EQ(d.DP::JntToCoriolis(q, qd, c), 0, "succeeds"); EQ(d.getError(), 0, "the result is recorded");
    EQ(d.DP::JntToGravity(q, g), 0, "succeeds"); EQ(d.getError(), 0, "the result is recorded");
    for (int i = 0; i < m; ++i)
    {
        double t = c(i) + g(i);
        for (int j = 0; j < m; ++j) { t += H(i, j) * QDD(j); if (j < i) EQ(H(i, j), H(j, i), "the mass matrix is symmetric"); }
        EQ(t, tau(i), "mass times acceleration, Coriolis and gravity terms add up to the inverse dynamics");
    }
    // the Coriolis term vanishes at rest
    for (int j = 0; j < m; ++j) qd(j) = 0;
    d.DP::JntToCoriolis(q, qd, c);
    for (int j = 0; j < m; ++j) EQ(c(j), 0, "no Coriolis term at rest");
}
VP_IN void two(Joint::JointType a, Joint::JointType b)
{
    static const int jof[2] = {0, 1};
    Segment S0 = dseg(0, a, frm(0)), S1 = dseg(1, b, frm(1));
    Segment* S[2] = {&S0, &S1};
    dyn<2, 2>(S, jof);
}
VP_W w_dyn_rr() { two(Joint::RotZ, Joint::RotX); }
VP_W w_dyn_rt() { two(Joint::RotZ, Joint::TransX); }
VP_W w_dyn_tr() { two(Joint::TransY, Joint::RotX); }
VP_W w_dyn_tt() { two(Joint::TransY, Joint::TransX); }
VP_IN void three(Joint::JointType a, Joint::JointType b, Joint::JointType c, const int* jof)
{
    Segment S0 = dseg(0, a, Frame(vec(1000))), S1 = dseg(1, b, frm(1)), S2 = dseg(2, c, Frame(vec(1100)));
    Segment* S[3] = {&S0, &S1, &S2};
    dyn<3, 2>(S, jof);
}
static const int jfrt[3] = {-1, 0, 1}, jrft[3] = {0, -1, 1}, jrtf[3] = {0, 1, -1};
VP_W w_dyn_frt() { three(Joint::Fixed, Joint::RotX, Joint::TransY, jfrt); }
VP_W w_dyn_rft() { three(Joint::RotY, Joint::Fixed, Joint::TransZ, jrft); }
VP_W w_dyn_rtf() { three(Joint::RotZ, Joint::TransX, Joint::Fixed, jrtf); }
VP_W w_dyn_rtr()
{
    static const int jof[3] = {0, 1, 2};
    Segment S0 = dseg(0, Joint::RotX, Frame(vec(1000))), S1 = dseg(1, Joint::TransY, Frame(vec(1050))), S2 = dseg(2, Joint::RotZ, Frame(vec(1100)));
    Segment* S[3] = {&S0, &S1, &S2};
    dyn<3, 3>(S, jof);
}
