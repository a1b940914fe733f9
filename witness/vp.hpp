// Declarations shared by the equation files (witness/C*.cpp).
//
// An equation file is never linked or executed: it is compiled to LLVM IR
// together with the repository sources it names, and lib/eqn.py decides every
// VP_* obligation by value numbering over that IR.  vp_* have no definition.
#ifndef VP_HPP
#define VP_HPP
extern "C" {
double vp_c(int id) noexcept __attribute__((const));            // arbitrary constant
double vp_pos(int id) noexcept __attribute__((const));          // arbitrary positive constant
double vp_f(int id, int k) noexcept __attribute__((const));     // k-th time derivative of an arbitrary function of time
double vp_q(int id, int comp) noexcept __attribute__((const));  // unit quaternion (w,x,y,z), constant
double vp_qm(int id, int comp) noexcept __attribute__((const)); // unit quaternion of a moving frame; q' = 1/2 (0,omega) q
double vp_qw(int id, int comp, int k) noexcept __attribute__((const)); // its world-frame angular velocity, k-th derivative
int    vp_int(int id) noexcept __attribute__((const));
double vp_ramp(int id) noexcept __attribute__((const));         // function of time with derivative 1
double vp_dt(double v) noexcept __attribute__((const));        // the time derivative of v
void vp_eq(double a, double b, const char* label) noexcept;
void vp_ddt(double v, double dv, const char* label) noexcept;   // obligation: d v/dt == dv
void vp_nz(double v, const char* label) noexcept;
void vp_true(bool c, const char* label) noexcept;
void vp_cont(double v, double t, const char* label) noexcept;   // obligation: v continuous in the atom t across every gate on t
void vp_reached(const char* label) noexcept;                   // obligation: execution gets here for all inputs assumed (nothing thrown, no abort)
void vp_assume(bool c) noexcept;
}
#define VP_W extern "C" void
#endif
