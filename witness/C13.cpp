// C13: chain forward kinematics: pose, velocity of every segment
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "chainfksolverpos_recursive.cpp"
#include "chainfksolvervel_recursive.cpp"
typedef ChainFkSolverPos_recursive FK;
typedef ChainFkSolverVel_recursive FKV;
static inline __attribute__((always_inline)) double angle(int i) { return jointof(i) < 0 ? 0 : Q(jointof(i)); }
static inline JntArray angles() { JntArray q(3); for (int j = 0; j < 3; ++j) q(j) = Q(j); return q; }
static inline JntArrayVel moving() { JntArrayVel q(3); for (int j = 0; j < 3; ++j) { q.q(j) = Q(j); q.qdot(j) = QD(j); } return q; }
static inline __attribute__((always_inline)) void pos()
{
    VP_CHAIN4(ch)
    FK fk(ch);
    JntArray q = angles();
    Frame F, G;
    for (int n = 0; n <= 4; ++n)
    {
        EQ(fk.FK::JntToCart(q, F, n), 0, "succeeds for every segment of the chain"); EQ(fk.getError(), 0, "the result is recorded");
        EQ(F, G, "pose is the product of the segment poses");
        if (n < 4) G = G * S[n]->pose(angle(n));
    }
    EQ(fk.FK::JntToCart(q, F, -1), 0, "succeeds for the end of the chain");
    EQ(F, G, "default is the end of the chain");
}
VP_EACH(pos)
static inline __attribute__((always_inline)) void pos_all()
{
    VP_CHAIN4(ch)
    FK fk(ch);
    JntArray q = angles();
    Frame G;
    std::vector<Frame> v(4), w(2);
    EQ(fk.FK::JntToCart(q, v, -1), 0, "succeeds for all segments"); EQ(fk.FK::JntToCart(q, w, 2), 0, "succeeds for the first segments");
    for (int n = 0; n < 4; ++n)
    {
        G = G * S[n]->pose(angle(n));
        EQ(v[n], G, "poses of all segments");
        if (n < 2) EQ(w[n], G, "poses of the first segments");
    }
}
VP_EACH(pos_all)
static inline __attribute__((always_inline)) FrameVel link(Segment* S, int i) { int j = jointof(i); return FrameVel(S->pose(angle(i)), S->twist(angle(i), j < 0 ? 0 : QD(j))); }
static inline __attribute__((always_inline)) void same(const FrameVel& F, const FrameVel& G, int n)
{
    EQ(F.GetFrame(), G.GetFrame(), "pose is the product of the segment poses");
    EQ(F.GetTwist(), G.GetTwist(), "velocity is that of the product of the moving segment poses (C04, C08: its derivative)");
    if (n > 3) return;
    DDT(F.p.p, F.p.v, "velocity is the derivative of the position");
    DDTROT(F.M.R, F.M.w, "angular velocity is the derivative of the orientation");
}
static inline __attribute__((always_inline)) void vel()
{
    VP_CHAIN4(ch)
    FKV fk(ch);
    JntArrayVel q = moving();
    FrameVel F, G = FrameVel::Identity();
    for (int n = 0; n <= 4; ++n)
    {
        EQ(fk.FKV::JntToCart(q, F, n), 0, "succeeds for every segment of the chain"); EQ(fk.getError(), 0, "the result is recorded");
        same(F, G, n);
        if (n < 4) G = G * link(S[n], n);
    }
    EQ(fk.FKV::JntToCart(q, F, -1), 0, "succeeds for the end of the chain");
    same(F, G, 4);
}
VP_EACH(vel)
static inline __attribute__((always_inline)) void vel_all()
{
    VP_CHAIN4(ch)
    FKV fk(ch);
    JntArrayVel q = moving();
    std::vector<FrameVel> v(4), w(2);
    EQ(fk.FKV::JntToCart(q, v, -1), 0, "succeeds for all segments"); EQ(fk.FKV::JntToCart(q, w, 2), 0, "succeeds for the first segments");
    FrameVel G = FrameVel::Identity();
    for (int n = 0; n < 4; ++n)
    {
        G = G * link(S[n], n);
        same(v[n], G, n + 1);
        if (n < 2) same(w[n], G, n + 1);
    }
}
VP_EACH(vel_all)
