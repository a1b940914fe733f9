#ifndef VP_SVD_HPP
#define VP_SVD_HPP
// Summaries of the Jacobian solver and of the singular value decompositions:
// arbitrary results, arbitrary success; the arguments they are given are obligations.
#include <Eigen/Core>
static int n_jac, n_svd;
inline double jacv(int i, int j) { return vp_c(3000 + 16 * i + j); }
inline double Us(int i, int j) { return vp_c(3100 + 16 * i + j); }
inline double Vs(int i, int j) { return vp_c(3300 + 16 * i + j); }
extern "C" double vp_S(int i);   // defined by the equation file: singular values
extern "C" int vp_sub__ZN3KDL19ChainJntToJacSolver8JntToJacERKNS_8JntArrayERNS_8JacobianEi(ChainJntToJacSolver* s, const JntArray* q, Jacobian* J, int)
{
    int r = vp_int(60);
    for (unsigned j = 0; j < s->chain.getNrOfJoints(); ++j)
    {
        vp_eq((*q)(j), vp_c(3600 + j), "the Jacobian is taken at the given positions");
        for (int i = 0; i < 6; ++i) (*J)(i, j) = jacv(i, j);
    }
    ++n_jac;
    return r;
}
#endif
