// C09: velocity profiles: velocity and acceleration are the derivatives of the
// position, the profile starts and ends where asked and takes the time it says
#include "kdl.hpp"
#include "velocityprofile_trap.cpp"
#include "velocityprofile_traphalf.cpp"
#include "velocityprofile_rect.cpp"
#include "velocityprofile_dirac.cpp"
#include "velocityprofile_spline.cpp"

template <class P> static inline __attribute__((always_inline)) void smooth(P& p)
{
    double t = vp_ramp(0);
    vp_ddt(p.P::Pos(t), p.P::Vel(t), "velocity is the derivative of the position");
    vp_ddt(p.P::Vel(t), p.P::Acc(t), "acceleration is the derivative of the velocity");
}
template <class P> static inline __attribute__((always_inline)) void ends(P& p, double a, double b)
{
    EQ(p.P::Pos(0), a, "starts at the start position"); EQ(p.P::Pos(p.P::Duration()), b, "ends at the end position");
    EQ(p.P::Pos(-vp_pos(90)), a, "rests at the start position before the start");
    EQ(p.P::Pos(p.P::Duration() + vp_pos(90)), b, "rests at the end position after the end");
    EQ(p.P::Vel(-vp_pos(90)), 0, "rests before the start"); EQ(p.P::Vel(p.P::Duration() + vp_pos(90)), 0, "rests after the end");
}
template <class P> static inline __attribute__((always_inline)) void still(P& p)
{
    EQ(p.P::Acc(-vp_pos(90)), 0, "rests before the start"); EQ(p.P::Acc(p.P::Duration() + vp_pos(90)), 0, "rests after the end");
}
template <class P> static inline __attribute__((always_inline)) void vlimit(P& p, double v)
{
    double t = vp_ramp(0);
    vp_true(p.P::Vel(t) <= v, "velocity limit"); vp_true(p.P::Vel(t) >= -v, "velocity limit");
}
template <class P> static inline __attribute__((always_inline)) void limits(P& p, double v, double a)
{
    double t = vp_ramp(0);
    vlimit(p, v);
    vp_true(p.P::Acc(t) <= a, "acceleration limit"); vp_true(p.P::Acc(t) >= -a, "acceleration limit");
}
template <class P> static inline __attribute__((always_inline)) void clone(P& p)
{
    double t = vp_c(80);
    P* c = static_cast<P*>(p.P::Clone());
    EQ(c->P::Pos(t), p.P::Pos(t), "clone has the same positions"); EQ(c->P::Vel(t), p.P::Vel(t), "clone has the same velocities");
    EQ(c->P::Duration(), p.P::Duration(), "clone has the same duration");
}
// ---- trapezoidal
static void trap(VelocityProfile_Trap& p, double a, double b)
{
    smooth(p); ends(p, a, b); still(p);
    double t = vp_ramp(0);
    vp_cont(p.VelocityProfile_Trap::Pos(t), t, "position is continuous");
    vp_cont(p.VelocityProfile_Trap::Vel(t), t, "velocity is continuous");
    vp_true(p.VelocityProfile_Trap::Duration() > 0, "moving takes time");
    limits(p, vp_pos(2), vp_pos(3));
    clone(p);
}
VP_W w_trap_up()
{
    double a = vp_c(0), b = a + vp_pos(1);
    VelocityProfile_Trap p(vp_pos(2), vp_pos(3));
    p.VelocityProfile_Trap::SetProfile(a, b);
    trap(p, a, b);
}
VP_W w_trap_down()
{
    double a = vp_c(0), b = a - vp_pos(1);
    VelocityProfile_Trap p(vp_pos(2), vp_pos(3));
    p.VelocityProfile_Trap::SetProfile(a, b);
    trap(p, a, b);
}
VP_W w_trap_duration()
{
    double a = vp_c(0), b = a + vp_pos(1);
    VelocityProfile_Trap p(vp_pos(2), vp_pos(3)), q(vp_pos(2), vp_pos(3));
    q.VelocityProfile_Trap::SetProfile(a, b);
    double T = q.VelocityProfile_Trap::Duration() * (1 + vp_pos(4));      // any longer duration
    p.VelocityProfile_Trap::SetProfileDuration(a, b, T);
    trap(p, a, b);
    EQ(p.VelocityProfile_Trap::Duration(), T, "takes the requested duration when that is feasible");
}
VP_W w_trap_duration_short()
{
    double a = vp_c(0), b = a + vp_pos(1);
    VelocityProfile_Trap p(vp_pos(2), vp_pos(3)), q(vp_pos(2), vp_pos(3));
    q.VelocityProfile_Trap::SetProfile(a, b);
    double T = vp_pos(4);
    vp_assume(T < q.VelocityProfile_Trap::Duration());
    p.VelocityProfile_Trap::SetProfileDuration(a, b, T);
    trap(p, a, b);
    EQ(p.VelocityProfile_Trap::Duration(), q.VelocityProfile_Trap::Duration(), "an infeasible duration gives the fastest profile");
}
VP_W w_trap_velocity()
{
    double a = vp_c(0), b = a + vp_pos(1);
    VelocityProfile_Trap p(vp_pos(2), vp_pos(3));
    p.VelocityProfile_Trap::SetProfileVelocity(a, b, vp_pos(4));
    trap(p, a, b);
}
VP_W w_trap_velocity_fraction()     // the velocity is a fraction: 1 and more is the fastest profile, less makes all of it slower
{
    double a = vp_c(0), b = a + vp_pos(1);
    VelocityProfile_Trap p(vp_pos(2), vp_pos(3)), q(vp_pos(2), vp_pos(3)), h(vp_pos(2), vp_pos(3));
    q.VelocityProfile_Trap::SetProfile(a, b);
    p.VelocityProfile_Trap::SetProfileVelocity(a, b, 1 + vp_pos(4));
    EQ(p.VelocityProfile_Trap::Duration(), q.VelocityProfile_Trap::Duration(), "more than the whole velocity is the whole velocity");
    EQ(p.VelocityProfile_Trap::Pos(vp_c(5)), q.VelocityProfile_Trap::Pos(vp_c(5)), "more than the whole velocity is the whole velocity");
    h.VelocityProfile_Trap::SetProfileVelocity(a, b, 0.5);
    vp_assume(epsilon < 0.4);
    EQ(h.VelocityProfile_Trap::Duration(), 2 * q.VelocityProfile_Trap::Duration(), "half the velocity takes twice as long");
    vp_assume(vp_c(5) > 0);
    EQ(h.VelocityProfile_Trap::Pos(vp_c(5)), q.VelocityProfile_Trap::Pos(vp_c(5) / 2), "half the velocity is twice as late everywhere");
}
// the limits may be changed after planning: the planned profile stays
VP_W w_trap_clone_setmax()
{
    VelocityProfile_Trap p(vp_pos(2), vp_pos(3));
    p.VelocityProfile_Trap::SetProfile(vp_c(0), vp_c(1)); p.SetMax(vp_pos(4), vp_pos(5));
    clone(p);
}
// ---- half trapezoidal
static void half(VelocityProfile_TrapHalf& p, double a, double b, bool starting)
{
    smooth(p); ends(p, a, b); still(p);
    double t = vp_ramp(0);
    vp_cont(p.VelocityProfile_TrapHalf::Pos(t), t, "position is continuous");
    vp_true(p.VelocityProfile_TrapHalf::Duration() > 0, "moving takes time");
    limits(p, vp_pos(2), vp_pos(3));
    clone(p);
    if (starting) EQ(p.VelocityProfile_TrapHalf::Vel(0), 0, "a starting profile starts at rest");
    else EQ(p.VelocityProfile_TrapHalf::Vel(p.VelocityProfile_TrapHalf::Duration()), 0, "a stopping profile ends at rest");
}
#define HALF(name, sign, starting)                                                        \
VP_W w_half_##name()                                                                      \
{                                                                                         \
    double a = vp_c(0), b = a + (sign) * vp_pos(1);                                       \
    VelocityProfile_TrapHalf p(vp_pos(2), vp_pos(3), starting);                           \
    p.VelocityProfile_TrapHalf::SetProfile(a, b);                                         \
    half(p, a, b, starting);                                                              \
}                                                                                         \
VP_W w_half_##name##_duration()                                                           \
{                                                                                         \
    double a = vp_c(0), b = a + (sign) * vp_pos(1);                                       \
    VelocityProfile_TrapHalf p(vp_pos(2), vp_pos(3), starting), q(vp_pos(2), vp_pos(3), starting); \
    q.VelocityProfile_TrapHalf::SetProfile(a, b);                                         \
    double T = q.VelocityProfile_TrapHalf::Duration() * (1 + vp_pos(4));                  \
    p.VelocityProfile_TrapHalf::SetProfileDuration(a, b, T);                              \
    half(p, a, b, starting);                                                              \
    EQ(p.VelocityProfile_TrapHalf::Duration(), T, "takes the requested duration when that is feasible"); \
}
HALF(start_up, 1, true)
HALF(start_down, -1, true)
HALF(stop_up, 1, false)
HALF(stop_down, -1, false)
// ---- rectangular
VP_W w_rect_clone_setmax()
{
    VelocityProfile_Rectangular p(vp_pos(2));
    p.VelocityProfile_Rectangular::SetProfileDuration(vp_c(0), vp_c(1), vp_pos(3)); p.SetMax(vp_pos(4));
    clone(p);
}
VP_W w_dirac_clone()
{
    VelocityProfile_Dirac p;
    p.VelocityProfile_Dirac::SetProfileDuration(vp_c(0), vp_c(1), vp_pos(3));
    clone(p);
}
VP_W w_spline_clone(VelocityProfile_Spline& p) { clone(p); }
VP_W w_rect()
{
    double a = vp_c(0), b = vp_c(1), t = vp_ramp(0);
    VelocityProfile_Rectangular p(vp_pos(2));
    p.VelocityProfile_Rectangular::SetProfile(a, b);
    ends(p, a, b);
    vp_ddt(p.VelocityProfile_Rectangular::Pos(t), p.VelocityProfile_Rectangular::Vel(t), "velocity is the derivative of the position");
    vp_cont(p.VelocityProfile_Rectangular::Pos(t), t, "position is continuous");
    vp_true(p.VelocityProfile_Rectangular::Duration() >= 0, "duration is not negative");
    vlimit(p, vp_pos(2));
}
VP_W w_rect_duration()
{
    double a = vp_c(0), b = vp_c(1), t = vp_ramp(0), T = vp_pos(3);
    VelocityProfile_Rectangular p(vp_pos(2));
    p.VelocityProfile_Rectangular::SetProfileDuration(a, b, T);
    ends(p, a, b);
    vp_ddt(p.VelocityProfile_Rectangular::Pos(t), p.VelocityProfile_Rectangular::Vel(t), "velocity is the derivative of the position");
    vp_cont(p.VelocityProfile_Rectangular::Pos(t), t, "position is continuous");
    vp_true(p.VelocityProfile_Rectangular::Duration() >= 0, "duration is not negative");
    vlimit(p, vp_pos(2));
}
VP_W w_rect_duration0()
{
    double a = vp_c(0), b = vp_c(1);
    VelocityProfile_Rectangular p(vp_pos(2));
    p.VelocityProfile_Rectangular::SetProfileDuration(a, b, 0);
    ends(p, a, b);
    vp_true(p.VelocityProfile_Rectangular::Duration() >= 0, "duration is not negative");
    vlimit(p, vp_pos(2));
}
// ---- dirac
VP_W w_dirac()
{
    double a = vp_c(0), b = vp_c(1), t = vp_ramp(0), T = vp_pos(3);
    VelocityProfile_Dirac p;
    p.VelocityProfile_Dirac::SetProfileDuration(a, b, T);
    ends(p, a, b);
    EQ(p.VelocityProfile_Dirac::Duration(), T, "takes the requested duration");
    vp_ddt(p.VelocityProfile_Dirac::Pos(t), p.VelocityProfile_Dirac::Vel(t), "velocity is the derivative of the position");
    vp_cont(p.VelocityProfile_Dirac::Pos(t), t, "position is continuous");
    p.VelocityProfile_Dirac::SetProfile(a, b);
    EQ(p.VelocityProfile_Dirac::Duration(), 0, "a step takes no time");
    EQ(p.VelocityProfile_Dirac::Pos(0), a, "step starts"); EQ(p.VelocityProfile_Dirac::Pos(vp_pos(5)), b, "step ends");
    EQ(p.VelocityProfile_Dirac::Pos(-vp_pos(5)), a, "before the step");
}
// ---- spline
VP_W w_spline_linear()
{
    double a = vp_c(0), b = vp_c(1), T = vp_pos(3);
    vp_assume(T > 1e-3);
    VelocityProfile_Spline p;
    p.VelocityProfile_Spline::SetProfileDuration(a, b, T);
    smooth(p);
    EQ(p.VelocityProfile_Spline::Pos(0), a, "start"); EQ(p.VelocityProfile_Spline::Pos(T), b, "end"); EQ(p.VelocityProfile_Spline::Duration(), T, "duration");
}
VP_W w_spline_cubic()
{
    double a = vp_c(0), b = vp_c(1), T = vp_pos(3);
    vp_assume(T > 1e-3);
    VelocityProfile_Spline p;
    p.VelocityProfile_Spline::SetProfileDuration(a, vp_c(4), b, vp_c(5), T);
    smooth(p);
    EQ(p.VelocityProfile_Spline::Pos(0), a, "start"); EQ(p.VelocityProfile_Spline::Pos(T), b, "end"); EQ(p.VelocityProfile_Spline::Duration(), T, "duration");
    EQ(p.VelocityProfile_Spline::Vel(0), vp_c(4), "start velocity"); EQ(p.VelocityProfile_Spline::Vel(T), vp_c(5), "end velocity");
}
VP_W w_spline_quintic()
{
    double a = vp_c(0), b = vp_c(1), T = vp_pos(3);
    vp_assume(T > 1e-3);
    VelocityProfile_Spline p;
    p.VelocityProfile_Spline::SetProfileDuration(a, vp_c(4), vp_c(6), b, vp_c(5), vp_c(7), T);
    smooth(p);
    EQ(p.VelocityProfile_Spline::Pos(0), a, "start"); EQ(p.VelocityProfile_Spline::Pos(T), b, "end"); EQ(p.VelocityProfile_Spline::Duration(), T, "duration");
    EQ(p.VelocityProfile_Spline::Vel(0), vp_c(4), "start velocity"); EQ(p.VelocityProfile_Spline::Vel(T), vp_c(5), "end velocity");
    EQ(p.VelocityProfile_Spline::Acc(0), vp_c(6), "start acceleration"); EQ(p.VelocityProfile_Spline::Acc(T), vp_c(7), "end acceleration");
}
VP_W w_spline_copy(VelocityProfile_Spline& p)
{
    double t = vp_c(20);
    VelocityProfile_Spline c(p);
    EQ(c.VelocityProfile_Spline::Pos(t), p.VelocityProfile_Spline::Pos(t), "copy has the same positions");
    EQ(c.VelocityProfile_Spline::Duration(), p.VelocityProfile_Spline::Duration(), "copy has the same duration");
}
