// C03: rotation and Denavit-Hartenberg constructors are proper rotations with
// the documented conventions, and the inverse conversions round-trip.
#include "kdl.hpp"
#include "frames.cpp"
#include <cmath>

static void proper(const Rotation& R, const char* l)
{
    EQ(R * R.Inverse(), Rotation::Identity(), l);
    EQ(DOT(CROSS(R.UnitX(), R.UnitY()), R.UnitZ()), 1, l);
}
VP_W w_rotxyz()
{
    double a = vp_c(0);
    Rotation X = Rotation::RotX(a), Y = Rotation::RotY(a), Z = Rotation::RotZ(a);
    proper(X, "RotX is proper"); proper(Y, "RotY is proper"); proper(Z, "RotZ is proper");
    EQ(X.UnitX(), Vector(1, 0, 0), "RotX fixes x"); EQ(X.UnitY(), Vector(0, cos(a), sin(a)), "RotX turns y towards z");
    EQ(Y.UnitY(), Vector(0, 1, 0), "RotY fixes y"); EQ(Y.UnitZ(), Vector(sin(a), 0, cos(a)), "RotY turns z towards x");
    EQ(Z.UnitZ(), Vector(0, 0, 1), "RotZ fixes z"); EQ(Z.UnitX(), Vector(cos(a), sin(a), 0), "RotZ turns x towards y");
    double b = vp_c(1);
    EQ(Rotation::RotX(a) * Rotation::RotX(b), Rotation::RotX(a + b), "RotX angles add");
    EQ(Rotation::RotY(a) * Rotation::RotY(b), Rotation::RotY(a + b), "RotY angles add");
    EQ(Rotation::RotZ(a) * Rotation::RotZ(b), Rotation::RotZ(a + b), "RotZ angles add");
    EQ(X.Inverse(), Rotation::RotX(-a), "RotX inverse");
    Rotation M = mat(10), N;
    N = M; N.DoRotX(a); EQ(N, M * X, "DoRotX(a) == *this * RotX(a)");
    N = M; N.DoRotY(a); EQ(N, M * Y, "DoRotY(a) == *this * RotY(a)");
    N = M; N.DoRotZ(a); EQ(N, M * Z, "DoRotZ(a) == *this * RotZ(a)");
}
VP_W w_euler()
{
    double a = vp_c(0), b = vp_c(1), c = vp_c(2);
    EQ(Rotation::RPY(a, b, c), Rotation::RotZ(c) * Rotation::RotY(b) * Rotation::RotX(a), "RPY == RotZ(yaw)*RotY(pitch)*RotX(roll)");
    EQ(Rotation::EulerZYX(a, b, c), Rotation::RotZ(a) * Rotation::RotY(b) * Rotation::RotX(c), "EulerZYX == RotZ*RotY*RotX");
    EQ(Rotation::EulerZYZ(a, b, c), Rotation::RotZ(a) * Rotation::RotY(b) * Rotation::RotZ(c), "EulerZYZ == RotZ*RotY*RotZ");
    proper(Rotation::RPY(a, b, c), "RPY is proper");
    proper(Rotation::EulerZYZ(a, b, c), "EulerZYZ is proper");
}
VP_W w_axis_angle()
{
    // an arbitrary unit axis: third column of a proper rotation
    Vector u = rot(0).UnitZ();
    double a = vp_c(0);
    Rotation R = Rotation::Rot2(u, a);
    proper(R, "Rot2 of a unit axis is proper");
    EQ(R * u, u, "Rot2 fixes its axis");
    // Rodrigues on an arbitrary vector
    Vector v = vec(20);
    EQ(R * v, v * cos(a) + CROSS(u, v) * sin(a) + u * (DOT(u, v) * (1 - cos(a))), "Rot2: Rodrigues formula");
    EQ(Rotation::Rot2(Vector(1, 0, 0), a), Rotation::RotX(a), "Rot2(x) == RotX");
    EQ(Rotation::Rot2(Vector(0, 1, 0), a), Rotation::RotY(a), "Rot2(y) == RotY");
    EQ(Rotation::Rot2(Vector(0, 0, 1), a), Rotation::RotZ(a), "Rot2(z) == RotZ");
}
VP_W w_axis_angle_scaled()
{
    Vector v = vec(20);
    double a = vp_c(0);
    vp_assume(v(0) > 1e-3 && v(0) >= v(1) && v(0) >= v(2) && v(1) >= 0 && v(2) >= 0);
    Vector u = v; u.Normalize();
    EQ(Rotation::Rot(v, a), Rotation::Rot2(u, a), "Rot normalises its axis");
    proper(Rotation::Rot(v, a), "Rot of any axis is proper");
}
VP_W w_quaternion()
{
    double w = vp_q(0, 0), x = vp_q(0, 1), y = vp_q(0, 2), z = vp_q(0, 3);
    proper(Rotation::Quaternion(x, y, z, w), "Quaternion of a unit quaternion is proper");
    EQ(Rotation::Quaternion(x, y, z, w), rotq(w, x, y, z), "Quaternion(x,y,z,w): scalar last");
    EQ(Rotation::Quaternion(0, 0, 0, 1), Rotation::Identity(), "Quaternion(0,0,0,1) == I");
    EQ(Rotation::Quaternion(-x, -y, -z, w), Rotation::Quaternion(x, y, z, w).Inverse(), "conjugate quaternion is the inverse");
    // product of two quaternions
    double b = vp_q(1, 0), c = vp_q(1, 1), d = vp_q(1, 2), e = vp_q(1, 3);
    EQ(Rotation::Quaternion(x, y, z, w) * Rotation::Quaternion(c, d, e, b),
       Rotation::Quaternion(w * c + x * b + y * e - z * d, w * d - x * e + y * b + z * c, w * e + x * d - y * c + z * b,
                            w * b - x * c - y * d - z * e), "quaternion product is the rotation product");
}
VP_W w_get_quaternion()
{
    Rotation R = rot(0);
    double x, y, z, w;
    R.GetQuaternion(x, y, z, w);
    EQ(Rotation::Quaternion(x, y, z, w), R, "Quaternion(GetQuaternion(R)) == R");
    EQ(x * x + y * y + z * z + w * w, 1, "GetQuaternion returns a unit quaternion");
}
VP_W w_get_rpy()
{
    Rotation R = rot(0);
    double r, p, y;
    R.GetRPY(r, p, y);
    vp_assume(p < 1.5 && p > -1.5);
    EQ(Rotation::RPY(r, p, y), R, "RPY(GetRPY(R)) == R away from the singularity");
    double a, b, c;
    R.GetEulerZYX(a, b, c);
    EQ(Rotation::EulerZYX(a, b, c), R, "EulerZYX(GetEulerZYX(R)) == R away from the singularity");
}
VP_W w_get_zyz()
{
    Rotation R = rot(0);
    double a, b, c;
    vp_assume(R(2, 2) < 0.999 && R(2, 2) > -0.999);
    R.GetEulerZYZ(a, b, c);
    EQ(Rotation::EulerZYZ(a, b, c), R, "EulerZYZ(GetEulerZYZ(R)) == R away from the singularity");
}
VP_W w_get_rot()
{
    Rotation R = rot(0);
    Vector axis;
    // q and -q are the same rotation: w > 0 without loss of generality; the
    // axis is taken in the closed first octant with x not small
    vp_assume(vp_q(0, 0) > 0.01 && vp_q(0, 1) > 0.01 && vp_q(0, 0) * vp_q(0, 1) > 0.001);
    vp_assume(vp_q(0, 2) >= 0 && vp_q(0, 3) >= 0);
    double angle = R.GetRotAngle(axis);
    EQ(Rotation::Rot2(axis, angle), R, "Rot2(GetRotAngle(R)) == R away from 0 and pi");
}
VP_W w_dh()
{
    double a = vp_c(0), al = vp_c(1), d = vp_c(2), th = vp_c(3);
    Frame F = Frame::DH(a, al, d, th), G = Frame::DH_Craig1989(a, al, d, th);
    proper(F.M, "DH is proper"); proper(G.M, "DH_Craig1989 is proper");
    Frame Rz(Rotation::RotZ(th)), Tz(Vector(0, 0, d)), Tx(Vector(a, 0, 0)), Rx(Rotation::RotX(al));
    EQ(F, Rz * Tz * Tx * Rx, "DH == RotZ(theta) TransZ(d) TransX(a) RotX(alpha)");
    EQ(G, Rx * Tx * Rz * Tz, "DH_Craig1989 == RotX(alpha) TransX(a) RotZ(theta) TransZ(d)");
}
VP_W w_rot_vector()
{
    Vector v = vec(20);
    vp_assume(v(0) > 1e-3 && v(0) >= v(1) && v(0) >= v(2) && v(1) >= 0 && v(2) >= 0);
    Vector u = v;
    double n = u.Normalize();
    EQ(Rot(v), Rotation::Rot2(u, n), "Rot(v) turns by |v| about v");
    Rotation R = rot(0);
    double dt = vp_pos(0);
    Vector w = v / dt;
    EQ(addDelta(R, w, dt), Rotation::Rot2(u, n) * R, "addDelta(R,w,dt) pre-multiplies by the rotation w*dt");
}
VP_W w_integrate()
{
    Frame F = frm(0);
    Twist t(vec(30), Vector(0, 0, vp_pos(0)));
    double f = vp_pos(1);
    vp_assume(vp_pos(0) > 1);
    vp_assume(vp_pos(0) / f > 1e-2 && f < 100);
    Frame G = F;
    G.Integrate(t, f);
    EQ(G.M, F.M * Rotation::RotZ(vp_pos(0) / f), "Integrate: body rotation by rot/f");
    EQ(G.p, F.p + F.M * (t.vel / f), "Integrate: body translation by vel/f");
}
