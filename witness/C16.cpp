// C16: inverse dynamics: Newton and Euler for every segment, in the coordinates
// of the segment
#include "kdl.hpp"
#include "chain.hpp"
#include "chainidsolver_recursive_newton_euler.cpp"
typedef ChainIdSolver_RNE ID;
#define VP_IN static inline __attribute__((always_inline))
// joints with arbitrary scale, offset and rotor inertia
VP_IN Joint jnt(int i, Joint::JointType t) { return Joint(t, vp_c(800 + i), vp_c(820 + i), vp_c(840 + i)); }
VP_IN Segment dseg(int i, Joint::JointType t, const Frame& tip) { return Segment(jnt(i, t), tip, inertia(i)); }
VP_IN Wrench fext(int i) { return wre(900 + 6 * i); }
VP_IN Vector grav() { return vec(890); }
VP_IN Vector dt(const Vector& v) { return Vector(vp_dt(v.data[0]), vp_dt(v.data[1]), vp_dt(v.data[2])); }
// generalised force of the joints of chain S[0..n): v_k twist of segment k at its tip in its own coordinates
template <int n>
VP_IN void newton(Segment* const* S, const int* jof, double* tau)
{
    Frame X[n];
    Twist V[n], U[n];
    Wrench W[n];
    Rotation R = Rotation::Identity();
    Twist v = Twist::Zero();
    for (int k = 0; k < n; ++k)
    {
        double q = jof[k] < 0 ? 0 : Q(jof[k]), qd = jof[k] < 0 ? 0 : QD(jof[k]);
        X[k] = S[k]->pose(q);
        R = R * X[k].M;
        U[k] = X[k].M.Inverse(S[k]->twist(q, 1));
        // own twist and the twist of the parent seen from here, referenced here
        Vector rel = X[k].p;
        V[k] = Twist(X[k].M.Inverse(v.vel + CROSS(v.rot, rel)), X[k].M.Inverse(v.rot)) + U[k] * qd;
        v = V[k];
        const RigidBodyInertia& I = S[k]->getInertia();
        Vector c = I.getCOG();
        double m = I.getMass();
        RotationalInertia Io = I.getRotationalInertia();
        // momentum and angular momentum about the tip
        Vector p = (v.vel + CROSS(v.rot, c)) * m, L = Io * v.rot + CROSS(c, v.vel) * m;
        // their rates of change seen by a fixed observer
        Vector dp = dt(p) + CROSS(v.rot, p), dL = dt(L) + CROSS(v.rot, L) + CROSS(v.vel, p);
        Vector g = R.Inverse(grav());
        W[k] = Wrench(dp - g * m, dL - CROSS(c, g) * m) - fext(k);
    }
    for (int k = n - 1; k >= 0; --k)
    {
        if (jof[k] >= 0) tau[jof[k]] = DOT(U[k].vel, W[k].force) + DOT(U[k].rot, W[k].torque) + S[k]->getJoint().getInertia() * QDD(jof[k]);
        if (k > 0)
        {
            Vector f = X[k].M * W[k].force, t = X[k].M * W[k].torque;
            W[k - 1] = W[k - 1] + Wrench(f, t + CROSS(X[k].p, f));
        }
    }
}
template <int n, int m>
VP_IN void id(Segment* const* S, const int* jof)
{
    Chain ch;
    for (int i = 0; i < n; ++i) ch.addSegment(*S[i]);
    ID s(ch, grav());
    JntArray q(m), qd(m), qdd(m), tau(m);
    for (int j = 0; j < m; ++j) { q(j) = Q(j); qd(j) = QD(j); qdd(j) = QDD(j); }
    Wrenches f(n);
    for (int i = 0; i < n; ++i) f[i] = fext(i);
    EQ(s.ID::CartToJnt(q, qd, qdd, f, tau), 0, "succeeds"); EQ(s.getError(), 0, "the result is recorded");
    double want[m];
    newton<n>(S, jof, want);
    for (int j = 0; j < m; ++j) EQ(tau(j), want[j], "the joint torques balance the rate of change of momentum, gravity, external forces and the rotors");
}
static const int j2[2] = {0, 1}, j3[3] = {0, -1, 1};
VP_IN void two(Joint::JointType a, Joint::JointType b)
{
    Segment S0 = dseg(0, a, frm(0)), S1 = dseg(1, b, frm(1));
    Segment* S[2] = {&S0, &S1};
    id<2, 2>(S, j2);
}
VP_W w_id_rr() { two(Joint::RotZ, Joint::RotX); }
VP_W w_id_rt() { two(Joint::RotZ, Joint::TransX); }
VP_W w_id_tr() { two(Joint::TransY, Joint::RotX); }
VP_W w_id_tt() { two(Joint::TransY, Joint::TransX); }
// a fixed joint in the chain, and a chain ending in one
VP_IN void three(Joint::JointType a, Joint::JointType b, Joint::JointType c, const int* jof)
{
    Segment S0 = dseg(0, a, Frame(vec(1000))), S1 = dseg(1, b, frm(1)), S2 = dseg(2, c, Frame(vec(1100)));
    Segment* S[3] = {&S0, &S1, &S2};
    id<3, 2>(S, jof);
}
static const int jfrt[3] = {-1, 0, 1}, jrft[3] = {0, -1, 1}, jrtf[3] = {0, 1, -1};
VP_W w_id_frt() { three(Joint::Fixed, Joint::RotX, Joint::TransY, jfrt); }
VP_W w_id_rft() { three(Joint::RotY, Joint::Fixed, Joint::TransZ, jrft); }
VP_W w_id_rtf() { three(Joint::RotZ, Joint::TransX, Joint::Fixed, jrtf); }
// three moving joints
VP_W w_id_rtr()
{
    static const int jof[3] = {0, 1, 2};
    Segment S0 = dseg(0, Joint::RotX, Frame(vec(1000))), S1 = dseg(1, Joint::TransY, Frame(vec(1050))), S2 = dseg(2, Joint::RotZ, Frame(vec(1100)));
    Segment* S[3] = {&S0, &S1, &S2};
    id<3, 3>(S, jof);
}
VP_W w_id_rrr()
{
    static const int jof[3] = {0, 1, 2};
    Segment S0 = dseg(0, Joint::RotX, Frame(vec(1000))), S1 = dseg(1, Joint::RotY, Frame(vec(1050))), S2 = dseg(2, Joint::RotZ, Frame(vec(1100)));
    Segment* S[3] = {&S0, &S1, &S2};
    id<3, 3>(S, jof);
}
