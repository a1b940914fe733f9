#ifndef VEL_HPP
#define VEL_HPP
#include "kdl.hpp"
#include "frames.cpp"
#include "framevel.hpp"
inline doubleVel md(int id) { return doubleVel(vp_f(id, 0), vp_f(id, 1)); }
inline VectorVel mv(int id) { return VectorVel(fvec(id, 0), fvec(id, 1)); }
inline RotationVel mr(int id) { return RotationVel(mrot(id), momega(id, 0)); }
inline FrameVel mf(int id) { return FrameVel(mr(id), mv(id * 10 + 1000)); }
inline TwistVel mt(int id) { return TwistVel(mv(id), mv(id + 3)); }
// the derivative part is the time derivative of the value part
inline void D(const doubleVel& a, const char* l) { vp_ddt(a.t, a.grad, l); }
inline void D(const VectorVel& a, const char* l) { DDT(a.p, a.v, l); }
inline void D(const RotationVel& a, const char* l) { DDTROT(a.R, a.w, l); }
inline void D(const FrameVel& a, const char* l) { D(a.M, l); D(a.p, l); }
inline void D(const TwistVel& a, const char* l) { D(a.vel, l); D(a.rot, l); }
// and the value part is v
inline void V(const doubleVel& a, double v, const char* l) { EQ(a.t, v, l); D(a, l); }
inline void V(const VectorVel& a, const Vector& v, const char* l) { EQ(a.p, v, l); D(a, l); }
inline void V(const RotationVel& a, const Rotation& v, const char* l) { EQ(a.R, v, l); D(a, l); }
inline void V(const FrameVel& a, const Frame& v, const char* l) { EQ(a.M.R, v.M, l); EQ(a.p.p, v.p, l); D(a, l); }
inline void V(const TwistVel& a, const Twist& v, const char* l) { EQ(a.vel.p, v.vel, l); EQ(a.rot.p, v.rot, l); D(a, l); }
inline void EQ(const VectorVel& a, const VectorVel& b, const char* l) { EQ(a.p, b.p, l); EQ(a.v, b.v, l); }
inline void EQ(const RotationVel& a, const RotationVel& b, const char* l) { EQ(a.R, b.R, l); EQ(a.w, b.w, l); }
inline void EQ(const FrameVel& a, const FrameVel& b, const char* l) { EQ(a.M, b.M, l); EQ(a.p, b.p, l); }
inline void EQ(const TwistVel& a, const TwistVel& b, const char* l) { EQ(a.vel, b.vel, l); EQ(a.rot, b.rot, l); }
#endif
