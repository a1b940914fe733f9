// C17, second part: forward dynamics solves  H qdd + (Coriolis, gravity and
// external torques) = torques.  What the mass matrix and the inverse dynamics
// are is decided by the first part and by C16; here they are arbitrary.
#include "kdl.hpp"
#include "chain.hpp"
#include "articulatedbodyinertia.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "chainidsolver_recursive_newton_euler.cpp"
#include "chaindynparam.cpp"
#include "utilities/ldl_solver_eigen.cpp"
#include "chainfdsolver_recursive_newton_euler.cpp"
typedef ChainFdSolver_RNE FD;
#define VP_IN static inline __attribute__((always_inline))
VP_IN double h(int i, int j) { return i < j ? vp_c(300 + 10 * i + j) : vp_c(300 + 10 * j + i); }
extern "C" int vp_sub__ZN3KDL13ChainDynParam9JntToMassERKNS_8JntArrayERNS_21JntSpaceInertiaMatrixE(ChainDynParam* d, const JntArray* q, JntSpaceInertiaMatrix* H)
{
    for (unsigned i = 0; i < d->nj; ++i) { vp_eq((*q)(i), Q(i), "the mass matrix is computed at the given positions"); for (unsigned j = 0; j < d->nj; ++j) (*H)(i, j) = h(i, j); }
    return 0;
}
extern "C" int vp_sub__ZN3KDL17ChainIdSolver_RNE9CartToJntERKNS_8JntArrayES3_S3_RKSt6vectorINS_6WrenchESaIS5_EERS1_(ChainIdSolver_RNE* d, const JntArray* q, const JntArray* qd, const JntArray* qdd, const Wrenches* f, JntArray* tau)
{
    for (unsigned i = 0; i < d->nj; ++i) { vp_eq((*q)(i), Q(i), "at the given positions"); vp_eq((*qd)(i), QD(i), "at the given velocities"); vp_eq((*qdd)(i), 0, "without acceleration"); }
    for (unsigned i = 0; i < d->ns; ++i) EQ((*f)[i], wre(900 + 6 * i), "with the external forces");
    for (unsigned i = 0; i < d->nj; ++i) (*tau)(i) = vp_c(400 + i);
    return 0;
}
template <int m>
VP_IN void fd()
{
    Chain ch;
    for (int i = 0; i < m; ++i) ch.addSegment(Segment(Joint(Joint::RotZ)));
    FD s(ch, vec(890));
    JntArray q(m), qd(m), qdd(m), tau(m);
    for (int j = 0; j < m; ++j) { q(j) = Q(j); qd(j) = QD(j); tau(j) = vp_c(420 + j); }
    Wrenches f(m);
    for (int i = 0; i < m; ++i) f[i] = wre(900 + 6 * i);
    EQ(s.FD::CartToJnt(q, qd, tau, f, qdd), 0, "succeeds"); EQ(s.getError(), 0, "the result is recorded");
    for (int i = 0; i < m; ++i)
    {
        double t = vp_c(400 + i);
        for (int j = 0; j < m; ++j) t += h(i, j) * qdd(j);
        EQ(t, vp_c(420 + i), "the accelerations found give the torques back");
    }
}
VP_W w_fd1() { fd<1>(); }
VP_W w_fd2() { fd<2>(); }
VP_W w_fd3() { fd<3>(); }
VP_W w_fd4() { fd<4>(); }
