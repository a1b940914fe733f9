#ifndef VP_KDL_HPP
#define VP_KDL_HPP
#include "vp.hpp"
#include "utilities/utility.cxx"
#include "frames.hpp"
using namespace KDL;

// ---- arbitrary inputs ------------------------------------------------------
inline Vector vec(int id) { return Vector(vp_c(id), vp_c(id + 1), vp_c(id + 2)); }
inline Rotation rotq(double w, double x, double y, double z)
{
    return Rotation(1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y),
                    2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x),
                    2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y));
}
inline Rotation rot(int id) { return rotq(vp_q(id, 0), vp_q(id, 1), vp_q(id, 2), vp_q(id, 3)); }
inline Frame frm(int id) { return Frame(rot(id), vec(id * 10 + 1000)); }
inline Twist twi(int id) { return Twist(vec(id), vec(id + 3)); }
inline Wrench wre(int id) { return Wrench(vec(id), vec(id + 3)); }
// nine unconstrained entries (for laws that must not need orthogonality)
inline Rotation mat(int id)
{
    return Rotation(vp_c(id), vp_c(id + 1), vp_c(id + 2), vp_c(id + 3), vp_c(id + 4), vp_c(id + 5),
                    vp_c(id + 6), vp_c(id + 7), vp_c(id + 8));
}
// moving quantities
inline Vector fvec(int id, int k) { return Vector(vp_f(id, k), vp_f(id + 1, k), vp_f(id + 2, k)); }
inline Rotation mrot(int id) { return rotq(vp_qm(id, 0), vp_qm(id, 1), vp_qm(id, 2), vp_qm(id, 3)); }
inline Vector momega(int id, int k) { return Vector(vp_qw(id, 0, k), vp_qw(id, 1, k), vp_qw(id, 2, k)); }

// ---- obligations -----------------------------------------------------------
inline void EQ(double a, double b, const char* l) { vp_eq(a, b, l); }
inline void EQ(const Vector& a, const Vector& b, const char* l)
{
    vp_eq(a.data[0], b.data[0], l); vp_eq(a.data[1], b.data[1], l); vp_eq(a.data[2], b.data[2], l);
}
inline void EQ(const Rotation& a, const Rotation& b, const char* l)
{
    vp_eq(a.data[0], b.data[0], l); vp_eq(a.data[1], b.data[1], l); vp_eq(a.data[2], b.data[2], l);
    vp_eq(a.data[3], b.data[3], l); vp_eq(a.data[4], b.data[4], l); vp_eq(a.data[5], b.data[5], l);
    vp_eq(a.data[6], b.data[6], l); vp_eq(a.data[7], b.data[7], l); vp_eq(a.data[8], b.data[8], l);
}
inline void EQ(const Frame& a, const Frame& b, const char* l) { EQ(a.M, b.M, l); EQ(a.p, b.p, l); }
inline void EQ(const Twist& a, const Twist& b, const char* l) { EQ(a.vel, b.vel, l); EQ(a.rot, b.rot, l); }
inline void EQ(const Wrench& a, const Wrench& b, const char* l) { EQ(a.force, b.force, l); EQ(a.torque, b.torque, l); }
inline void EQ(const Vector2& a, const Vector2& b, const char* l) { vp_eq(a(0), b(0), l); vp_eq(a(1), b(1), l); }

inline void DDT(const Vector& a, const Vector& b, const char* l)
{
    vp_ddt(a.data[0], b.data[0], l); vp_ddt(a.data[1], b.data[1], l); vp_ddt(a.data[2], b.data[2], l);
}
inline void DDT(double a, double b, const char* l) { vp_ddt(a, b, l); }
// R' == [w]x R : the angular velocity w (world frame) is the derivative of R
inline void DDTROT(const Rotation& R, const Vector& w, const char* l)
{
    DDT(R.UnitX(), w * R.UnitX(), l); DDT(R.UnitY(), w * R.UnitY(), l); DDT(R.UnitZ(), w * R.UnitZ(), l);
}
inline double DOT(const Vector& a, const Vector& b) { return a.data[0] * b.data[0] + a.data[1] * b.data[1] + a.data[2] * b.data[2]; }
inline Vector CROSS(const Vector& a, const Vector& b)
{
    return Vector(a.data[1] * b.data[2] - a.data[2] * b.data[1], a.data[2] * b.data[0] - a.data[0] * b.data[2],
                  a.data[0] * b.data[1] - a.data[1] * b.data[0]);
}
#endif
