// C07: inertias transform covariantly
#include "kdl.hpp"
#include "frames.cpp"
#include "rotationalinertia.cpp"
#include "rigidbodyinertia.cpp"
#include "articulatedbodyinertia.cpp"
static RotationalInertia ric(int i) { return RotationalInertia(vp_c(i), vp_c(i + 1), vp_c(i + 2), vp_c(i + 3), vp_c(i + 4), vp_c(i + 5)); }
static RigidBodyInertia rbi(int i) { return RigidBodyInertia(vp_c(i), vec(i + 1), ric(i + 4)); }
static Eigen::Matrix3d sym(int i)
{
    Eigen::Matrix3d m;
    m(0, 0) = vp_c(i); m(1, 1) = vp_c(i + 1); m(2, 2) = vp_c(i + 2);
    m(0, 1) = m(1, 0) = vp_c(i + 3); m(0, 2) = m(2, 0) = vp_c(i + 4); m(1, 2) = m(2, 1) = vp_c(i + 5);
    return m;
}
static Eigen::Matrix3d gen(int i)
{
    Eigen::Matrix3d m;
    m(0, 0) = vp_c(i); m(1, 1) = vp_c(i + 1); m(2, 2) = vp_c(i + 2); m(0, 1) = vp_c(i + 3); m(0, 2) = vp_c(i + 4);
    m(1, 2) = vp_c(i + 5); m(1, 0) = vp_c(i + 6); m(2, 0) = vp_c(i + 7); m(2, 1) = vp_c(i + 8);
    return m;
}
static ArticulatedBodyInertia abi(int i) { return ArticulatedBodyInertia(sym(i), gen(i + 6), sym(i + 15)); }
static double POW(const Twist& t, const Wrench& w) { return DOT(t.vel, w.force) + DOT(t.rot, w.torque); }
static void EQI(const RotationalInertia& a, const RotationalInertia& b, const char* l)
{
    EQ(a.data[0], b.data[0], l); EQ(a.data[1], b.data[1], l); EQ(a.data[2], b.data[2], l); EQ(a.data[3], b.data[3], l);
    EQ(a.data[4], b.data[4], l); EQ(a.data[5], b.data[5], l); EQ(a.data[6], b.data[6], l); EQ(a.data[7], b.data[7], l); EQ(a.data[8], b.data[8], l);
}
static void EQI(const RigidBodyInertia& a, const RigidBodyInertia& b, const char* l)
{
    EQ(a.getMass(), b.getMass(), l); EQ(a.getSpatialMomentum(), b.getSpatialMomentum(), l); EQI(a.getRotationalInertia(), b.getRotationalInertia(), l);
}
static void EQM(const Eigen::Matrix3d& a, const Eigen::Matrix3d& b, const char* l)
{
    EQ(a(0, 0), b(0, 0), l); EQ(a(0, 1), b(0, 1), l); EQ(a(0, 2), b(0, 2), l); EQ(a(1, 0), b(1, 0), l); EQ(a(1, 1), b(1, 1), l);
    EQ(a(1, 2), b(1, 2), l); EQ(a(2, 0), b(2, 0), l); EQ(a(2, 1), b(2, 1), l); EQ(a(2, 2), b(2, 2), l);
}
static void EQI(const ArticulatedBodyInertia& a, const ArticulatedBodyInertia& b, const char* l)
{
    EQM(a.M, b.M, l); EQM(a.H, b.H, l); EQM(a.I, b.I, l);
}
VP_W w_rotational()
{
    RotationalInertia I = ric(0), J = ric(10);
    Vector w = vec(20), u = vec(23);
    double a = vp_c(30);
    EQ(I * w, Vector(vp_c(0) * w(0) + vp_c(3) * w(1) + vp_c(4) * w(2), vp_c(3) * w(0) + vp_c(1) * w(1) + vp_c(5) * w(2),
                     vp_c(4) * w(0) + vp_c(5) * w(1) + vp_c(2) * w(2)), "I*omega uses (Ixx,Iyy,Izz,Ixy,Ixz,Iyz)");
    EQ(DOT(u, I * w), DOT(w, I * u), "I is symmetric");
    EQ((a * I) * w, a * (I * w), "scalar multiple"); EQ((I + J) * w, I * w + J * w, "sum");
    EQ(RotationalInertia::Zero() * w, Vector::Zero(), "Zero"); EQ(RotationalInertia() * w, Vector::Zero(), "default is zero");
}
VP_W w_rigid_build()
{
    double m = vp_c(0);
    Vector c = vec(1);
    RotationalInertia Ic = ric(4);
    RigidBodyInertia I(m, c, Ic);
    Twist t = twi(20);
    Vector F = m * (t.vel + CROSS(t.rot, c));
    EQ((I * t).force, F, "force = m * velocity of the centre of gravity");
    EQ((I * t).torque, Ic * t.rot + CROSS(c, F), "torque = Ic*omega + c x force");
    EQ(I.getMass(), m, "getMass"); EQ(I.getSpatialMomentum(), m * c, "getSpatialMomentum");
    EQI(RigidBodyInertia::Zero(), RigidBodyInertia(0, vec(30), RotationalInertia()), "Zero"); EQI(RigidBodyInertia(), RigidBodyInertia::Zero(), "default is zero");
    EQ(RigidBodyInertia(vp_pos(0), c, Ic).getCOG(), c, "getCOG"); EQ(RigidBodyInertia(0.0, c, Ic).getCOG(), Vector::Zero(), "getCOG of massless body");
    EQI(I.getRotationalInertia(), I.RefPoint(Vector::Zero()).getRotationalInertia(), "getRotationalInertia is about the reference point");
    EQI(I.RefPoint(c).getRotationalInertia(), Ic, "inertia about the centre of gravity is Ic");
}
VP_W w_rigid_space()
{
    RigidBodyInertia I = rbi(0), J = rbi(10);
    Twist t = twi(20), s = twi(30);
    double a = vp_c(40);
    EQ((a * I) * t, a * (I * t), "scalar multiple"); EQ((I + J) * t, I * t + J * t, "sum");
    EQ(I * (t + s), I * t + I * s, "linear in the twist"); EQ(POW(s, I * t), POW(t, I * s), "I is symmetric");
    EQI(I + J, J + I, "sum commutes"); EQI((I + J) + rbi(50), I + (J + rbi(50)), "sum associates");
    EQI(a * (I + J), a * I + a * J, "scalar distributes");
}
VP_W w_rigid_rotation()
{
    RigidBodyInertia I = rbi(0);
    Rotation R = rot(0), S = rot(1);
    Twist t = twi(20);
    EQ((R * I) * (R * t), R * (I * t), "(R*I)*(R*t) == R*(I*t)");
    EQ(POW(R * t, (R * I) * (R * t)), POW(t, I * t), "kinetic energy invariant under rotation");
    EQI(R * I, Frame(R) * I, "R*I == Frame(R)*I");
    EQI(Rotation::Identity() * I, I, "Identity*I == I");
}
VP_W w_rigid_rotation_comp() { RigidBodyInertia I = rbi(0); Rotation R = rot(0), S = rot(1); EQI((R * S) * I, R * (S * I), "(R*S)*I == R*(S*I)"); }
VP_W w_rigid_refpoint()
{
    RigidBodyInertia I = rbi(0);
    Vector p = vec(20), q = vec(23);
    Twist t = twi(30);
    EQ(I.RefPoint(p) * t.RefPoint(p), (I * t).RefPoint(p), "I.RefPoint(p)*t.RefPoint(p) == (I*t).RefPoint(p)");
    EQ(POW(t.RefPoint(p), I.RefPoint(p) * t.RefPoint(p)), POW(t, I * t), "kinetic energy invariant under change of reference point");
    EQI(I.RefPoint(p).RefPoint(q), I.RefPoint(p + q), "RefPoint composes"); EQI(I.RefPoint(Vector::Zero()), I, "RefPoint(0)");
    EQI(Frame(-p) * I, I.RefPoint(p), "pure translation == RefPoint");
    EQ(RigidBodyInertia(vp_pos(0), vec(1), ric(4)).RefPoint(p).getCOG(), vec(1) - p, "COG seen from the new reference point");
}
VP_W w_rigid_frame()
{
    RigidBodyInertia I = rbi(0);
    Frame T = frm(0);
    Twist t = twi(20);
    EQ((T * I) * (T * t), T * (I * t), "(T*I)*(T*t) == T*(I*t)");
    EQ(POW(T * t, (T * I) * (T * t)), POW(t, I * t), "kinetic energy invariant under change of frame");
    EQI(Frame::Identity() * I, I, "Identity*I == I");
    EQI(T.Inverse() * (T * I), I, "T.Inverse()*(T*I) == I");
    RigidBodyInertia J(vp_pos(0), vec(1), ric(4));
    EQ((T * J).getCOG(), T * vec(1), "the centre of gravity moves with the frame"); EQ((T * J).getMass(), vp_pos(0), "mass does not change");
}
VP_W w_rigid_frame_comp() { RigidBodyInertia I = rbi(0); Frame T = frm(0), U = frm(1); EQI((T * U) * I, T * (U * I), "(T*U)*I == T*(U*I)"); }
VP_W w_articulated_space()
{
    ArticulatedBodyInertia A = abi(0), B = abi(30);
    RigidBodyInertia I = rbi(60);
    Twist t = twi(80), s = twi(90);
    double a = vp_c(100);
    EQ((a * A) * t, a * (A * t), "scalar multiple"); EQ((A + B) * t, A * t + B * t, "sum"); EQ((A - B) * t, A * t - B * t, "difference");
    EQ(A * (t + s), A * t + A * s, "linear in the twist"); EQ(POW(s, A * t), POW(t, A * s), "A is symmetric");
    EQ(ArticulatedBodyInertia(I) * t, I * t, "rigid body as articulated body"); EQ(ArticulatedBodyInertia::Zero() * t, Wrench::Zero(), "Zero");
    EQ(ArticulatedBodyInertia() * t, Wrench::Zero(), "default is zero");
    EQI(ArticulatedBodyInertia(vp_c(60), vec(61), ric(64)), ArticulatedBodyInertia(I), "ABI(m,c,Ic)");
}
VP_W w_articulated_rotation()
{
    ArticulatedBodyInertia A = abi(0);
    Rotation R = rot(0);
    Twist t = twi(80);
    EQ((R * A) * (R * t), R * (A * t), "(R*A)*(R*t) == R*(A*t)");
    EQI(R * A, Frame(R) * A, "R*A == Frame(R)*A");
}
VP_W w_articulated_refpoint()
{
    ArticulatedBodyInertia A = abi(0);
    Vector p = vec(70), q = vec(73);
    Twist t = twi(80);
    RigidBodyInertia I = rbi(60);
    EQ(A.RefPoint(p) * t.RefPoint(p), (A * t).RefPoint(p), "A.RefPoint(p)*t.RefPoint(p) == (A*t).RefPoint(p)");
    EQI(A.RefPoint(p).RefPoint(q), A.RefPoint(p + q), "RefPoint composes");
    EQI(ArticulatedBodyInertia(I).RefPoint(p), ArticulatedBodyInertia(I.RefPoint(p)), "agrees with the rigid body");
    EQI(Frame(-p) * A, A.RefPoint(p), "pure translation == RefPoint");
}
VP_W w_articulated_frame()
{
    ArticulatedBodyInertia A = abi(0);
    Frame T = frm(0);
    Twist t = twi(80);
    EQ((T * A) * (T * t), T * (A * t), "(T*A)*(T*t) == T*(A*t)");
    EQI(Frame::Identity() * A, A, "Identity*A == A");
}
VP_W w_articulated_rigid()
{
    RigidBodyInertia I = rbi(60);
    Frame T = frm(0);
    EQI(T * ArticulatedBodyInertia(I), ArticulatedBodyInertia(T * I), "T*ABI(I) == ABI(T*I)");
    EQI(rot(0) * ArticulatedBodyInertia(I), ArticulatedBodyInertia(rot(0) * I), "R*ABI(I) == ABI(R*I)");
}
