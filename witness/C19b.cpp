// C19, second part: Levenberg-Marquardt on a chain with one sliding joint, for
// which the exact singular value decomposition is at hand
#include "kdl.hpp"
#include "chain.hpp"
#include "chainiksolverpos_lma.cpp"
#define VP_IN static inline __attribute__((always_inline))
typedef Eigen::MatrixXd M;
typedef Eigen::JacobiSVD<M> SVD;
VP_IN double weight(int i) { return vp_pos(4400 + i); }
VP_IN Frame goal() { return Frame(rot(1), vec(4410)); }
VP_IN Vector turn() { return vec(4420); }
// the difference of two poses (decided by C01 and C03) when all poses of the chain have the same orientation
extern "C" void vp_sub__ZN3KDL4diffERKNS_5FrameES2_d(Twist* r, const Frame* a, const Frame* b, double dt)
{
    EQ(a->M, Rotation::Identity(), "from a pose of the chain"); EQ(b->M, rot(1), "to the goal"); EQ(dt, 1, "in unit time");
    *r = Twist(b->p - a->p, turn());
}
extern "C" SVD* vp_sub__ZN5Eigen9JacobiSVDINS_6MatrixIdLin1ELin1ELi0ELin1ELin1EEELi2EE7computeERKS2_j(SVD* s, const M* A, unsigned)
{
    EQ(A->rows(), 6, "the Jacobian is decomposed"); EQ(A->cols(), 1, "the Jacobian is decomposed");
    EQ((*A)(0, 0), weight(0), "the weighted Jacobian is decomposed");
    for (int i = 1; i < 6; ++i) EQ((*A)(i, 0), 0, "the weighted Jacobian is decomposed");
    s->m_matrixU.resize(6, 1); s->m_matrixV.resize(1, 1); s->m_singularValues.resize(1);
    for (int i = 0; i < 6; ++i) s->m_matrixU(i, 0) = i == 0 ? 1 : 0;
    s->m_matrixV(0, 0) = 1; s->m_singularValues(0) = weight(0);
    s->m_isInitialized = true; s->m_computeFullU = s->m_computeFullV = false; s->m_computeThinU = s->m_computeThinV = true;
    return s;
}
template <int maxit> VP_IN void lma()
{
    Chain ch; ch.addSegment(Segment(Joint(Joint::TransX)));
    Eigen::Matrix<double, 6, 1> L;
    for (int i = 0; i < 6; ++i) L(i) = weight(i);
    double eps = vp_pos(1), epsj = vp_pos(2);
    ChainIkSolverPos_LMA s(ch, L, eps, maxit, epsj);
    JntArray q(1), o(1);
    q(0) = Q(0); o(0) = vp_c(3);
    int r = s.ChainIkSolverPos_LMA::CartToJnt(q, goal(), o);
    EQ(s.getError(), r, "the result is recorded");
    Vector d = goal().p - Vector(o(0), 0, 0), t = turn();
    double E = sqrt(weight(0) * weight(0) * d[0] * d[0] + weight(1) * weight(1) * d[1] * d[1] + weight(2) * weight(2) * d[2] * d[2] + weight(3) * weight(3) * t[0] * t[0] + weight(4) * weight(4) * t[1] * t[1] + weight(5) * weight(5) * t[2] * t[2]);
    EQ(s.lastDifference, E, "the weighted difference at the result");
    EQ(s.lastTransDiff, sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]), "the unweighted translational difference at the result");
    EQ(s.lastRotDiff, sqrt(t[0] * t[0] + t[1] * t[1] + t[2] * t[2]), "the unweighted rotational difference at the result");
    EQ(s.lastSV(0), weight(0), "the singular values at the result");
    EQ(r == 0, s.lastDifference < eps, "success exactly if the weighted difference is within the tolerance");
    vp_true(r == 0 || r == SolverI::E_MAX_ITERATIONS_EXCEEDED || r == ChainIkSolverPos_LMA::E_GRADIENT_JOINTS_TOO_SMALL || r == ChainIkSolverPos_LMA::E_INCREMENT_JOINTS_TOO_SMALL, "a documented code");
    vp_true(s.lastNrOfIter <= maxit, "at most as many iterations as allowed");
}
VP_W w_lma1() { lma<1>(); }
VP_W w_lma2() { lma<2>(); }
