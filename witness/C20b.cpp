// C20: failures of the solvers used inside, and what the codes are called
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "chainfksolverpos_recursive.cpp"
#include "chainjnttojacsolver.cpp"
#include "chainjnttojacdotsolver.cpp"
#include "chainidsolver_recursive_newton_euler.cpp"
#include "chaindynparam.cpp"
#include "utilities/ldl_solver_eigen.cpp"
#include "chainfdsolver_recursive_newton_euler.cpp"
#include "utilities/svd_HH.cpp"
#include "utilities/svd_eigen_HH.cpp"
#include "articulatedbodyinertia.cpp"
#include "chainhdsolver_vereshchagin.cpp"
#include "chainiksolvervel_pinv.cpp"
#include "chainiksolvervel_pinv_nso.cpp"
#include "chainiksolvervel_wdls.cpp"
#include "chainiksolvervel_pinv_givens.cpp"
#include "chainiksolverpos_nr.cpp"
#include "chainiksolverpos_nr_jl.cpp"
#include "chainiksolverpos_lma.cpp"
#include "chainexternalwrenchestimator.cpp"
#define VP_IN static inline __attribute__((always_inline))
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd W;
// the solvers used inside do what they like, and fail when they like
static int nid;
extern "C" int vp_sub__ZN3KDL19ChainJntToJacSolver8JntToJacERKNS_8JntArrayERNS_8JacobianEi(ChainJntToJacSolver* s, const JntArray* q, Jacobian* J, int)
{
    for (unsigned j = 0; j < s->chain.getNrOfJoints(); ++j) for (int i = 0; i < 6; ++i) (*J)(i, j) = vp_c(3000 + 16 * i + j);
    return vp_int(60);
}
extern "C" int vp_sub__ZN3KDL12svd_eigen_HHERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERS2_RNS1_IdLin1ELi1ELi0ELin1ELi1EEES5_S7_id(const M* A, M* U, W* S, M* V, W* tmp, int, double)
{
    for (int j = 0; j < A->cols(); ++j)
    {
        for (int i = 0; i < A->rows(); ++i) (*U)(i, j) = vp_c(3100 + 16 * i + j);
        for (int i = 0; i < A->cols(); ++i) (*V)(i, j) = vp_c(3200 + 16 * i + j);
        (*S)(j) = 1 + j; (*tmp)(j) = 0;
    }
    return vp_int(61);
}
extern "C" int vp_sub__ZN3KDL6SVD_HH9calculateERKNS_8JacobianERSt6vectorINS_8JntArrayESaIS5_EERS5_S8_i(SVD_HH*, const Jacobian* J, std::vector<JntArray>* U, JntArray* S, std::vector<JntArray>* V, int)
{
    for (unsigned j = 0; j < J->columns(); ++j)
    {
        for (int i = 0; i < 6; ++i) (*U)[i](j) = vp_c(3100 + 16 * i + j);
        for (unsigned i = 0; i < J->columns(); ++i) (*V)[i](j) = vp_c(3200 + 16 * i + j);
        (*S)(j) = 1 + j;
    }
    return vp_int(61);
}
extern "C" int vp_sub__ZN3KDL26ChainFkSolverPos_recursive9JntToCartERKNS_8JntArrayERNS_5FrameEi(ChainFkSolverPos_recursive*, const JntArray*, Frame* p, int)
{
    *p = frm(70);
    return vp_int(62);
}
extern "C" int vp_sub__ZN3KDL13ChainDynParam9JntToMassERKNS_8JntArrayERNS_21JntSpaceInertiaMatrixE(ChainDynParam* s, const JntArray*, JntSpaceInertiaMatrix* H)
{
    for (unsigned i = 0; i < s->nj; ++i) for (unsigned j = 0; j < s->nj; ++j) (*H)(i, j) = vp_c(3300 + 16 * i + j);
    return vp_int(63);
}
extern "C" int vp_sub__ZN3KDL17ChainIdSolver_RNE9CartToJntERKNS_8JntArrayES3_S3_RKSt6vectorINS_6WrenchESaIS5_EERS1_(ChainIdSolver_RNE* s, const JntArray*, const JntArray*, const JntArray*, const Wrenches*, JntArray* t)
{
    for (unsigned i = 0; i < s->nj; ++i) (*t)(i) = vp_c(3400 + i);
    return vp_int(64 + nid++);
}
enum { N = 2 };
VP_IN void setup(Chain& ch, JntArray& q) { nid = 0; for (int i = 0; i < N; ++i) ch.addSegment(Segment(Joint(Joint::RotZ))); q.resize(N); q(0) = Q(0); q(1) = Q(1); }
#define RC(s, got, want, lbl) do { int r_ = (got), w_ = (want); vp_true(r_ == w_, lbl); vp_true((s).getError() == r_, "getError() after: " lbl); } while (0)
VP_W w_jacdot()
{
    Chain ch; JntArray q; setup(ch, q); JntArrayVel v(q, q);
    Jacobian J(N); Twist t;
    ChainJntToJacDotSolver s(ch);
    bool jf = vp_int(60) != 0, ff = vp_int(62) != 0;
    int jc = ChainJntToJacDotSolver::E_JACSOLVER_FAILED, fc = ChainJntToJacDotSolver::E_FKSOLVERPOS_FAILED;
    RC(s, s.JntToJacDot(v, J), jf ? jc : 0, "hybrid");
    RC(s, s.JntToJacDot(v, t), jf ? jc : 0, "hybrid twist");
    s.setInertialRepresentation();
    RC(s, s.JntToJacDot(v, J), jf ? jc : ff ? fc : 0, "inertial");
    RC(s, s.JntToJacDot(v, t), jf ? jc : ff ? fc : 0, "inertial twist");
    s.setBodyFixedRepresentation();
    RC(s, s.JntToJacDot(v, J), jf ? jc : ff ? fc : 0, "body fixed");
    RC(s, s.JntToJacDot(v, t), jf ? jc : ff ? fc : 0, "body fixed twist");
}
VP_W w_dynparam()
{
    Chain ch; JntArray q; setup(ch, q); JntArray o(N);
    ChainDynParam s(ch, vec(400));
    RC(s, s.JntToCoriolis(q, q, o), vp_int(64), "coriolis torques");
    RC(s, s.JntToGravity(q, o), vp_int(65), "gravity torques");
}
VP_W w_forward()
{
    Chain ch; JntArray q; setup(ch, q); JntArray o(N); Wrenches f(N);
    ChainFdSolver_RNE s(ch, vec(400));
    RC(s, s.CartToJnt(q, q, q, f, o), vp_int(63) < 0 ? vp_int(63) : vp_int(64) < 0 ? vp_int(64) : 0, "forward dynamics");
}
VP_W w_estimator()
{
    Chain ch; JntArray q; setup(ch, q); Wrench x;
    ChainExternalWrenchEstimator s(ch, vec(400), vp_pos(410), vp_c(411), vp_c(412));
    typedef ChainExternalWrenchEstimator T;
    RC(s, s.setInitialMomentum(q, q), vp_int(63) != 0 ? (int)T::E_DYNPARAMSOLVERMASS_FAILED : 0, "initial momentum");
    RC(s, s.JntToExtWrench(q, q, q, x), vp_int(63) != 0 ? (int)T::E_DYNPARAMSOLVERMASS_FAILED : vp_int(64) != 0 ? (int)T::E_DYNPARAMSOLVERCORIOLIS_FAILED :
       vp_int(65) != 0 ? (int)T::E_DYNPARAMSOLVERGRAVITY_FAILED : vp_int(62) != 0 ? (int)T::E_FKSOLVERPOS_FAILED : vp_int(60) != 0 ? (int)T::E_JACSOLVER_FAILED :
       vp_int(61) != 0 ? (int)SolverI::E_SVD_FAILED : 0, "estimate");
}
VP_W w_vereshchagin()
{
    Chain ch; ch.addSegment(Segment(Joint(Joint::TransY), Frame(Vector(1, 0, 0)), RigidBodyInertia(2, Vector::Zero(), RotationalInertia(1, 1, 1))));
    JntArray q(1), o(1), c(1), b(1); Wrenches f(1); Jacobian a(1); SetToZero(a); a(0, 0) = 1;
    ChainHdSolver_Vereshchagin v(ch, Twist::Zero(), 1);
    SolverI& s = (SolverI&)v;
    RC(s, v.CartToJnt(q, q, o, a, b, f, q, c), vp_int(61) != 0 ? (int)SolverI::E_SVD_FAILED : 0, "hybrid dynamics");
}
// every code of a solver is a number of its own with a text of its own
#define VP_BASE SolverI::E_DEGRADED, SolverI::E_NOERROR, SolverI::E_NO_CONVERGE, SolverI::E_UNDEFINED, SolverI::E_NOT_UP_TO_DATE, SolverI::E_SIZE_MISMATCH, \
    SolverI::E_MAX_ITERATIONS_EXCEEDED, SolverI::E_OUT_OF_RANGE, SolverI::E_NOT_IMPLEMENTED, SolverI::E_SVD_FAILED
template <int n> VP_IN void texts(const SolverI& s, const int (&c)[n])
{
    const char* unknown = s.strError(-99999);
#pragma GCC unroll 20
    for (int i = 0; i < n; ++i)
    {
        vp_true(s.strError(c[i]) != unknown, "the code has a text");
#pragma GCC unroll 20
        for (int j = 0; j < i; ++j)
        {
            vp_true(c[i] != c[j], "codes differ");
            vp_true(s.strError(c[i]) != s.strError(c[j]), "texts differ");
        }
        vp_true((c[i] < 0) == !(c[i] == SolverI::E_NOERROR || c[i] == SolverI::E_DEGRADED || c[i] == 100), "failures are negative");
    }
}
VP_W w_texts()
{
    Chain ch; JntArray q; setup(ch, q);
    { int c[] = {VP_BASE}; ChainFkSolverPos_recursive s(ch); texts(s, c); }
    { int c[] = {VP_BASE}; ChainJntToJacSolver s(ch); texts(s, c); }
    { int c[] = {VP_BASE, ChainJntToJacDotSolver::E_JAC_DOT_FAILED, ChainJntToJacDotSolver::E_JACSOLVER_FAILED, ChainJntToJacDotSolver::E_FKSOLVERPOS_FAILED}; ChainJntToJacDotSolver s(ch); texts(s, c); }
    { int c[] = {VP_BASE}; ChainIdSolver_RNE s(ch, Vector::Zero()); texts(s, c); }
    { int c[] = {VP_BASE}; ChainFdSolver_RNE s(ch, Vector::Zero()); texts(s, c); }
    { int c[] = {VP_BASE}; ChainDynParam s(ch, Vector::Zero()); texts(s, c); }
}
VP_W w_texts2()
{
    Chain ch; JntArray q; setup(ch, q);
    { int c[] = {VP_BASE, ChainIkSolverVel_pinv::E_CONVERGE_PINV_SINGULAR}; ChainIkSolverVel_pinv s(ch); texts(s, c); }
    { int c[] = {VP_BASE}; ChainIkSolverVel_pinv_nso s(ch); texts(s, c); }
    { int c[] = {VP_BASE, ChainIkSolverVel_wdls::E_CONVERGE_PINV_SINGULAR}; ChainIkSolverVel_wdls s(ch); texts(s, c); }
    { int c[] = {VP_BASE}; ChainIkSolverVel_pinv_givens s(ch); texts(s, c); }
}
VP_W w_texts3()
{
    Chain ch; JntArray q; setup(ch, q);
    ChainFkSolverPos_recursive f(ch); ChainIkSolverVel_pinv_givens i(ch);
    { int c[] = {VP_BASE, ChainIkSolverPos_NR::E_IKSOLVER_FAILED, ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED}; ChainIkSolverPos_NR s(ch, f, i); texts(s, c); }
    { int c[] = {VP_BASE, ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED, ChainIkSolverPos_NR_JL::E_FKSOLVERPOS_FAILED}; ChainIkSolverPos_NR_JL s(ch, f, i); texts(s, c); }
    { int c[] = {VP_BASE, ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL, ChainIkSolverPos_LMA::E_INCREMENT_JOINTS_TOO_SMALL}; ChainIkSolverPos_LMA s(ch); texts(s, c); }
    typedef ChainExternalWrenchEstimator T;
    { int c[] = {VP_BASE, T::E_FKSOLVERPOS_FAILED, T::E_JACSOLVER_FAILED, T::E_DYNPARAMSOLVERMASS_FAILED, T::E_DYNPARAMSOLVERCORIOLIS_FAILED, T::E_DYNPARAMSOLVERGRAVITY_FAILED};
      T s(ch, Vector::Zero(), 1, 1, 0); texts(s, c); }
}
