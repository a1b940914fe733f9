#ifndef ACC_HPP
#define ACC_HPP
#include "kdl.hpp"
#include "frames.cpp"
#include "frameacc.hpp"
inline doubleAcc ad(int id) { return doubleAcc(vp_f(id, 0), vp_f(id, 1), vp_f(id, 2)); }
inline VectorAcc av(int id) { return VectorAcc(fvec(id, 0), fvec(id, 1), fvec(id, 2)); }
inline RotationAcc ar(int id) { return RotationAcc(mrot(id), momega(id, 0), momega(id, 1)); }
inline FrameAcc af(int id) { return FrameAcc(ar(id), av(id * 10 + 1000)); }
inline TwistAcc at(int id) { return TwistAcc(av(id), av(id + 3)); }
inline void D(const doubleAcc& a, const char* l) { vp_ddt(a.t, a.d, l); vp_ddt(a.d, a.dd, l); }
inline void D(const VectorAcc& a, const char* l) { DDT(a.p, a.v, l); DDT(a.v, a.dv, l); }
inline void D(const RotationAcc& a, const char* l) { DDTROT(a.R, a.w, l); DDT(a.w, a.dw, l); }
inline void V(const doubleAcc& a, double v, const char* l) { EQ(a.t, v, l); D(a, l); }
inline void V(const VectorAcc& a, const Vector& v, const char* l) { EQ(a.p, v, l); D(a, l); }
inline void V(const RotationAcc& a, const Rotation& v, const char* l) { EQ(a.R, v, l); D(a, l); }
inline void V(const FrameAcc& a, const Frame& v, const char* l) { V(a.M, v.M, l); V(a.p, v.p, l); }
inline void V(const TwistAcc& a, const Twist& v, const char* l) { V(a.vel, v.vel, l); V(a.rot, v.rot, l); }
#endif
