// C14: Jacobians: geometric Jacobian of a chain, change of base, reference
// point and frame, multiplication, time derivative
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "chainfksolverpos_recursive.cpp"
#include "chainjnttojacsolver.cpp"
#include "chainjnttojacdotsolver.cpp"
typedef ChainJntToJacSolver JS;
typedef ChainJntToJacDotSolver JD;
static inline __attribute__((always_inline)) double angle(int i) { return jointof(i) < 0 ? 0 : Q(jointof(i)); }
static inline JntArray angles() { JntArray q(3); for (int j = 0; j < 3; ++j) q(j) = Q(j); return q; }
static inline JntArrayVel moving() { JntArrayVel q(3); for (int j = 0; j < 3; ++j) { q.q(j) = Q(j); q.qdot(j) = QD(j); } return q; }
static inline __attribute__((always_inline)) FrameVel link(Segment* S, int i) { int j = jointof(i); return FrameVel(S->pose(angle(i)), S->twist(angle(i), j < 0 ? 0 : QD(j))); }
static inline __attribute__((always_inline)) Twist times(const Jacobian& J)      // J * qdot
{
    Twist t = Twist::Zero();
    for (int j = 0; j < 3; ++j) t = t + Twist(Vector(J(0, j), J(1, j), J(2, j)), Vector(J(3, j), J(4, j), J(5, j))) * QD(j);
    return t;
}
static inline __attribute__((always_inline)) void jac()
{
    VP_CHAIN4(ch)
    JS js(ch);
    JntArray q = angles();
    Jacobian J(3);
    FrameVel G = FrameVel::Identity();
    for (int n = 0; n <= 4; ++n)
    {
        for (int j = 0; j < 3; ++j) for (int i = 0; i < 6; ++i) J(i, j) = vp_c(500 + 6 * j + i);
        EQ(js.JS::JntToJac(q, J, n), 0, "succeeds for every segment of the chain"); EQ(js.getError(), 0, "the result is recorded");
        EQ(times(J), G.GetTwist(), "J qdot is the velocity of the segment");
        if (n < 4) G = G * link(S[n], n);
    }
    EQ(js.JS::JntToJac(q, J, -1), 0, "succeeds for the end of the chain");
    EQ(times(J), G.GetTwist(), "default is the end of the chain");
}
VP_EACH(jac)
static inline __attribute__((always_inline)) void jac_locked()
{
    VP_CHAIN4(ch)
    JS js(ch);
    JntArray q = angles();
    Jacobian J(3), L(3);
    js.JS::JntToJac(q, J, -1);
    for (int pattern = 0; pattern < 8; ++pattern)
    {
        std::vector<bool> lock(3, false);
        for (int j = 0; j < 3; ++j) lock[j] = (pattern >> j) & 1;
        EQ(js.JS::setLockedJoints(lock), 0, "joints can be locked");
        EQ(js.JS::JntToJac(q, L, -1), 0, "succeeds with locked joints");
        int k = 0;
        for (int j = 0; j < 3; ++j) if (!((pattern >> j) & 1)) EQ(L.getColumn(k++), J.getColumn(j), "columns of joints that are not locked, in order");
        for (; k < 3; ++k) EQ(L.getColumn(k), Twist::Zero(), "nothing for locked joints");
    }
}
VP_EACH(jac_locked)
static inline Jacobian anyjac(int n = 3)
{
    Jacobian J(n);
    for (int j = 0; j < n; ++j) for (int i = 0; i < 6; ++i) J(i, j) = vp_c(500 + 6 * j + i);
    return J;
}
static inline Twist col(int j) { return twi(500 + 6 * j); }
VP_W w_change()
{
    Jacobian J = anyjac(), A = anyjac(), B = anyjac(), C = anyjac(), D(3), E(3), G(3), N(2);
    Vector p = vec(0); Rotation R = mat(10); Frame F = frm(1);
    A.changeRefPoint(p); B.changeBase(R); C.changeRefFrame(F);
    vp_true(changeRefPoint(J, p, D) && changeBase(J, R, E) && changeRefFrame(J, F, G), "changing a Jacobian of the same size succeeds");
    vp_true(!changeRefPoint(J, p, N) && !changeBase(J, R, N) && !changeRefFrame(J, F, N), "changing a Jacobian of a different size is refused");
    for (int j = 0; j < 3; ++j)
    {
        EQ(J.getColumn(j), col(j), "columns are twists");
        EQ(A.getColumn(j), col(j).RefPoint(p), "changes the reference point of every column"); EQ(B.getColumn(j), R * col(j), "changes the base of every column"); EQ(C.getColumn(j), F * col(j), "changes the frame of every column");
        EQ(D.getColumn(j), col(j).RefPoint(p), "changes the reference point of every column into another Jacobian"); EQ(E.getColumn(j), R * col(j), "changes the base of every column into another Jacobian"); EQ(G.getColumn(j), F * col(j), "changes the frame of every column into another Jacobian");
    }
    // onto itself
    Jacobian H = anyjac(), I = anyjac(), K = anyjac();
    changeRefPoint(H, p, H); changeBase(I, R, I); changeRefFrame(K, F, K);
    for (int j = 0; j < 3; ++j) { EQ(H.getColumn(j), col(j).RefPoint(p), "the destination may be the source"); EQ(I.getColumn(j), R * col(j), "the destination may be the source"); EQ(K.getColumn(j), F * col(j), "the destination may be the source"); }
}
VP_W w_multiply()
{
    Jacobian J = anyjac();
    JntArray q(3);
    for (int j = 0; j < 3; ++j) q(j) = QD(j);
    Twist t;
    MultiplyJacobian(J, q, t);
    EQ(t, times(J), "MultiplyJacobian is the sum of the columns times the joint velocities");
    J.setColumn(1, twi(600));
    EQ(J.getColumn(0), col(0), "setColumn leaves other columns alone"); EQ(J.getColumn(1), twi(600), "setColumn sets the column"); EQ(J.getColumn(2), col(2), "setColumn leaves other columns alone");
    Jacobian K(J), L(3); L = J;
    EQ(K.getColumn(1), twi(600), "copies have the same columns"); EQ(L.getColumn(2), col(2), "copies have the same columns"); EQ(L.columns(), 3, "number of columns"); EQ(L.rows(), 6, "number of rows");
    SetToZero(J);
    for (int j = 0; j < 3; ++j) { EQ(J.getColumn(j), Twist::Zero(), "SetToZero"); EQ(L.getColumn(j), j == 1 ? twi(600) : col(j), "copies are independent"); }
    L.resize(4);
    for (int j = 0; j < 3; ++j) EQ(L.getColumn(j), j == 1 ? twi(600) : col(j), "resize keeps columns");
    EQ(L.columns(), 4, "resize");
}
static inline __attribute__((always_inline)) void derivative(const Jacobian& J, const Jacobian& D, int n)
{
    for (int j = 0; j < n; ++j) { Twist a = J.getColumn(j), b = D.getColumn(j); DDT(a.vel, b.vel, "Jdot is the time derivative of J"); DDT(a.rot, b.rot, "Jdot is the time derivative of J"); }
}
// Jdot = dJ/dt, for chains of two moving joints of every kind (all pairs of joints of longer chains contribute alike)
static inline __attribute__((always_inline)) void jdot(Joint::JointType a, Joint::JointType b, int rep)
{
    Segment S0 = seg(0, a), S1 = seg(1, Joint::Fixed), S2 = Segment(Joint(b), Frame(vec(50)));
    Chain ch; ch.addSegment(S0); ch.addSegment(S1); ch.addSegment(S2);
    JD jd(ch); JS js(ch);
    JntArrayVel q(2);
    for (int j = 0; j < 2; ++j) { q.q(j) = Q(j); q.qdot(j) = QD(j); }
    Jacobian J(2), D(2);
    jd.setRepresentation(rep);
    for (int n = 3; n <= 3; ++n)
    {
        EQ(js.JS::JntToJac(q.q, J, n), 0, "the Jacobian can be computed");
        Frame F = S0.pose(Q(0)) * S1.pose(0) * S2.pose(Q(1));
        if (rep == JD::BODYFIXED) J.changeBase(F.M.Inverse());
        if (rep == JD::INERTIAL) J.changeRefPoint(-F.p);
        EQ(jd.JD::JntToJacDot(q, D, n), 0, "succeeds"); EQ(jd.getError(), 0, "the result is recorded");
        derivative(J, D, 2);
    }
    Twist t, u;
    EQ(jd.JD::JntToJacDot(q, t, -1), 0, "succeeds"); EQ(jd.getError(), 0, "the result is recorded");
    MultiplyJacobian(D, q.qdot, u);
    EQ(t, u, "the twist overload is Jdot qdot");
}
VP_W w_jdot_rr_h() { jdot(Joint::RotZ, Joint::RotX, JD::HYBRID); }
VP_W w_jdot_rr_b() { jdot(Joint::RotZ, Joint::RotX, JD::BODYFIXED); }
VP_W w_jdot_rr_i() { jdot(Joint::RotZ, Joint::RotX, JD::INERTIAL); }
VP_W w_jdot_rt_h() { jdot(Joint::RotZ, Joint::TransX, JD::HYBRID); }
VP_W w_jdot_rt_b() { jdot(Joint::RotZ, Joint::TransX, JD::BODYFIXED); }
VP_W w_jdot_rt_i() { jdot(Joint::RotZ, Joint::TransX, JD::INERTIAL); }
VP_W w_jdot_tr_h() { jdot(Joint::TransY, Joint::RotX, JD::HYBRID); }
VP_W w_jdot_tr_b() { jdot(Joint::TransY, Joint::RotX, JD::BODYFIXED); }
VP_W w_jdot_tr_i() { jdot(Joint::TransY, Joint::RotX, JD::INERTIAL); }
static inline __attribute__((always_inline)) void jdot_locked()
{
    VP_CHAIN4(ch)
    JD jd(ch);
    JntArrayVel q = moving();
    Jacobian L(2), D(3);
    std::vector<bool> lock(3, false);
    lock[1] = true;
    EQ(jd.JD::setLockedJoints(lock), 0, "joints can be locked");
    EQ(jd.JD::JntToJacDot(q, L, -1), 0, "succeeds with locked joints");
    Twist t;
    EQ(jd.JD::JntToJacDot(q, t, -1), 0, "succeeds with locked joints");
    EQ(t, L.getColumn(0) * QD(0) + L.getColumn(1) * QD(2), "the twist overload is Jdot qdot of the joints that are not locked");
    // as if the locked joint did not move
    JD je(ch);
    JntArrayVel p = moving();
    p.qdot(1) = 0;
    je.JD::JntToJacDot(p, D, -1);
    EQ(L.getColumn(0), D.getColumn(0), "columns of joints that are not locked, in order"); EQ(L.getColumn(1), D.getColumn(2), "columns of joints that are not locked, in order");
}
VP_EACH(jdot_locked)
