#ifndef VP_CHAIN_HPP
#define VP_CHAIN_HPP
// Arbitrary chains.  The joints of a segment are of fixed types, its joint
// scale, offset and inertial parameters and its tip are arbitrary; C08 decides
// that every other joint type relates pose and twist the same way.
#include "frames.cpp"
#include "joint.cpp"
#include "segment.cpp"
#include "chain.cpp"
#include "jntarray.cpp"
#include "jacobian.cpp"
#include "rigidbodyinertia.cpp"
#include "rotationalinertia.cpp"
#include "norm.hpp"
#include "solveri.hpp"
inline double Q(int j) { return vp_f(10 + j, 0); }
inline double QD(int j) { return vp_f(10 + j, 1); }
inline double QDD(int j) { return vp_f(10 + j, 2); }
inline RigidBodyInertia inertia(int i)
{
    return RigidBodyInertia(vp_c(700 + 10 * i), Vector(vp_c(701 + 10 * i), vp_c(702 + 10 * i), vp_c(703 + 10 * i)),
                            RotationalInertia(vp_c(704 + 10 * i), vp_c(705 + 10 * i), vp_c(706 + 10 * i), vp_c(707 + 10 * i), vp_c(708 + 10 * i), vp_c(709 + 10 * i)));
}
inline Segment seg(int i, Joint::JointType t) { return Segment(Joint(t), Frame(rot(i), vec(30 + 10 * i)), inertia(i)); }
// a turning joint, a fixed one, a sliding one and another turning one (0); the fixed one first (1) or last (2)
static int vp_variant;
static const Joint::JointType vp_types[3][4] = {{Joint::RotZ, Joint::Fixed, Joint::TransY, Joint::RotX}, {Joint::Fixed, Joint::RotZ, Joint::TransY, Joint::RotX}, {Joint::RotZ, Joint::TransY, Joint::RotX, Joint::Fixed}};
static const int vp_jointof[3][4] = {{0, -1, 1, 2}, {-1, 0, 1, 2}, {0, 1, 2, -1}};
static inline __attribute__((always_inline)) int jointof(int i) { return vp_jointof[vp_variant][i]; }
#define VP_CHAIN4(ch) Segment S0 = seg(0, vp_types[vp_variant][0]), S1 = seg(1, vp_types[vp_variant][1]), S2 = seg(2, vp_types[vp_variant][2]), S3 = seg(3, vp_types[vp_variant][3]); \
    Segment* S[4] = {&S0, &S1, &S2, &S3}; Chain ch; for (int i_ = 0; i_ < 4; ++i_) ch.addSegment(*S[i_]);
#define VP_EACH(f) VP_W w_##f() { vp_variant = 0; f(); } VP_W w_##f##_first() { vp_variant = 1; f(); } VP_W w_##f##_last() { vp_variant = 2; f(); }
#endif
