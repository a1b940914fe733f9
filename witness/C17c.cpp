// C17, third part: integration of the forward dynamics is the classical
// fourth-order Runge-Kutta step of  q' = qd, qd' = a(q, qd)
#include "kdl.hpp"
#include "chain.hpp"
#include "articulatedbodyinertia.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "chainidsolver_recursive_newton_euler.cpp"
#include "chaindynparam.cpp"
#include "utilities/ldl_solver_eigen.cpp"
#include "chainfdsolver_recursive_newton_euler.cpp"
typedef ChainFdSolver_RNE FD;
#define VP_IN static inline __attribute__((always_inline))
VP_IN double lin(int j, const double* q, const double* v, const double* t, int n)
{
    double a = vp_c(300 + j);
    for (int k = 0; k < n; ++k) a += vp_c(310 + 4 * j + k) * q[k] + vp_c(330 + 4 * j + k) * v[k] + vp_c(350 + 4 * j + k) * t[k];
    if (n == 1) a += vp_c(370) * q[0] * v[0] + vp_c(371) * q[0] * q[0];
    return a;
}
extern "C" int vp_sub__ZN3KDL17ChainFdSolver_RNE9CartToJntERKNS_8JntArrayES3_S3_RKSt6vectorINS_6WrenchESaIS5_EERS1_(FD* s, const JntArray* q, const JntArray* qd, const JntArray* tau, const Wrenches*, JntArray* acc)
{
    double a[2], b[2], c[2];
    unsigned n = s->nj;
    for (unsigned i = 0; i < n; ++i) { a[i] = (*q)(i); b[i] = (*qd)(i); c[i] = (*tau)(i); }
    for (unsigned i = 0; i < n; ++i) (*acc)(i) = lin(i, a, b, c, n);
    return 0;
}
template <int m>
VP_IN void rk()
{
    Chain ch;
    for (int i = 0; i < m; ++i) ch.addSegment(Segment(Joint(Joint::RotZ)));
    FD s(ch, vec(890));
    JntArray q(m), qd(m), qdd(m), tau(m), dq(m), dv(m), t1(m), t2(m);
    double x[m], v[m], u[m];
    for (int j = 0; j < m; ++j) { q(j) = x[j] = Q(j); qd(j) = v[j] = QD(j); tau(j) = u[j] = vp_c(420 + j); qdd(j) = vp_c(430 + j); dq(j) = vp_c(440 + j); dv(j) = vp_c(450 + j); t1(j) = vp_c(460 + j); t2(j) = vp_c(470 + j); }
    Wrenches f(m);
    double h = vp_c(1), t = vp_c(2);
    unsigned n = m;
    s.FD::RK4Integrator(n, t, h, q, qd, tau, f, s, qdd, dq, dv, t1, t2);
    double k1x[m], k1v[m], k2x[m], k2v[m], k3x[m], k3v[m], k4x[m], k4v[m], y[m], w[m];
    for (int j = 0; j < m; ++j) { k1x[j] = v[j]; k1v[j] = lin(j, x, v, u, m); }
    for (int j = 0; j < m; ++j) { y[j] = x[j] + h / 2 * k1x[j]; w[j] = v[j] + h / 2 * k1v[j]; }
    for (int j = 0; j < m; ++j) { k2x[j] = w[j]; k2v[j] = lin(j, y, w, u, m); }
    for (int j = 0; j < m; ++j) { y[j] = x[j] + h / 2 * k2x[j]; w[j] = v[j] + h / 2 * k2v[j]; }
    for (int j = 0; j < m; ++j) { k3x[j] = w[j]; k3v[j] = lin(j, y, w, u, m); }
    for (int j = 0; j < m; ++j) { y[j] = x[j] + h * k3x[j]; w[j] = v[j] + h * k3v[j]; }
    for (int j = 0; j < m; ++j) { k4x[j] = w[j]; k4v[j] = lin(j, y, w, u, m); }
    for (int j = 0; j < m; ++j)
    {
        EQ(q(j), x[j] + h / 6 * (k1x[j] + 2 * k2x[j] + 2 * k3x[j] + k4x[j]), "positions after a Runge-Kutta step");
        EQ(qd(j), v[j] + h / 6 * (k1v[j] + 2 * k2v[j] + 2 * k3v[j] + k4v[j]), "velocities after a Runge-Kutta step");
    }
}
VP_W w_rk1() { rk<1>(); }
VP_W w_rk2() { rk<2>(); }
