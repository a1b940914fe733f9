// C18: velocity inverse kinematics from a singular value decomposition
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "chainjnttojacsolver.cpp"
#include "utilities/svd_HH.cpp"
#include "svd.hpp"
#include "chainiksolvervel_pinv.cpp"
#include "chainiksolvervel_pinv_nso.cpp"
#include "chainiksolvervel_wdls.cpp"
#include "chainiksolvervel_pinv_givens.cpp"
#define VP_IN static inline __attribute__((always_inline))
static int nj_, free_;
static bool weighted;
// the first singular values are not small, `free_` of them are arbitrary
extern "C" double vp_S(int i) { return i < nj_ - free_ ? vp_pos(3500) + vp_pos(3501 + i) : vp_c(3501 + i); }
VP_IN double eps() { return vp_pos(3500); }
VP_IN double Sinv(int i) { double s = vp_S(i); return fabs(s) < eps() ? 0 : 1 / s; }
VP_IN double wq(int i, int j) { return vp_c(3700 + 16 * i + j); }
VP_IN double wy(int i, int j) { return vp_c(3900 + 16 * i + j); }
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd W;
extern "C" int vp_sub__ZN3KDL6SVD_HH9calculateERKNS_8JacobianERSt6vectorINS_8JntArrayESaIS5_EERS5_S8_i(SVD_HH*, const Jacobian* J, std::vector<JntArray>* U, JntArray* S, std::vector<JntArray>* V, int)
{
    for (int j = 0; j < nj_; ++j)
    {
        for (int i = 0; i < 6; ++i) { vp_eq((*J)(i, j), jacv(i, j), "the Jacobian is decomposed"); (*U)[i](j) = Us(i, j); }
        for (int i = 0; i < nj_; ++i) (*V)[i](j) = Vs(i, j);
        (*S)(j) = vp_S(j);
    }
    ++n_svd;
    return vp_int(61);
}
extern "C" int vp_sub__ZN3KDL12svd_eigen_HHERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERS2_RNS1_IdLin1ELi1ELi0ELin1ELi1EEES5_S7_id(const M* A, M* U, W* S, M* V, W* tmp, int, double)
{
    for (int j = 0; j < nj_; ++j)
    {
        for (int i = 0; i < 6; ++i)
        {
            double a = jacv(i, j);
            if (weighted)
            {
                a = 0;
                for (int k = 0; k < 6; ++k) for (int l = 0; l < nj_; ++l) a += wy(i, k) * jacv(k, l) * wq(l, j);
            }
            vp_eq((*A)(i, j), a, "the (weighted) Jacobian is decomposed");
            (*U)(i, j) = Us(i, j);
        }
        for (int i = 0; i < nj_; ++i) (*V)(i, j) = Vs(i, j);
        (*S)(j) = vp_S(j);
        (*tmp)(j) = vp_c(3550 + j);
    }
    ++n_svd;
    return vp_int(61);
}
VP_IN Twist want() { return twi(3800); }
template <int n> VP_IN void setup(Chain& ch, JntArray& q, JntArray& qd, int fr)
{
    nj_ = n; free_ = fr; n_jac = n_svd = 0; weighted = false;
    for (int i = 0; i < n; ++i) ch.addSegment(Segment(Joint(Joint::RotZ)));
    q.resize(n); qd.resize(n);
    for (int i = 0; i < n; ++i) { q(i) = vp_c(3600 + i); qd(i) = vp_c(3620 + i); }
}
// Ut v
VP_IN double uv(int i) { Twist v = want(); double s = 0; for (int k = 0; k < 6; ++k) s += Us(k, i) * v(k); return s; }
template <int n, class S> VP_IN bool failures(S& s, int r, const JntArray& qd)
{
    if (vp_int(60) < 0)
    {
        EQ(r, vp_int(60), "a failure to compute the Jacobian is passed on");
        for (int i = 0; i < n; ++i) EQ(qd(i), vp_c(3620 + i), "the result is left alone");
        return true;
    }
    if (vp_int(61) != 0)
    {
        EQ(r, SolverI::E_SVD_FAILED, "failure of the decomposition is reported");
        for (int i = 0; i < n; ++i) EQ(qd(i), 0, "no motion");
        EQ(s.getSVDResult(), vp_int(61), "the result of the decomposition can be asked for");
        return true;
    }
    return false;
}
template <int n> VP_IN int small() { int c = 0; for (int i = 0; i < n; ++i) if (fabs(vp_S(i)) < eps()) ++c; return c; }
template <int n> VP_IN void pinv(int fr)
{
    Chain ch; JntArray q, qd; setup<n>(ch, q, qd, fr);
    ChainIkSolverVel_pinv s(ch, eps(), 100);
    int r = s.ChainIkSolverVel_pinv::CartToJnt(q, want(), qd);
    EQ(s.getError(), r, "the result is recorded");
    if (failures<n>(s, r, qd)) return;
    for (int j = 0; j < n; ++j)
    {
        double x = 0;
        for (int i = 0; i < n; ++i) x += Vs(j, i) * (uv(i) * Sinv(i));
        EQ(qd(j), x, "V S+ Ut v, with small singular values truncated");
    }
    EQ(s.getNrZeroSigmas(), small<n>(), "number of truncated singular values");
    if (n >= 6) EQ(r, small<n>() > n - 6 ? 100 : 0, "singularity is reported");
}
VP_W w_pinv1() { pinv<1>(1); }
VP_W w_pinv2() { pinv<2>(2); }
VP_W w_pinv6() { pinv<6>(3); }
VP_W w_pinv7() { pinv<7>(3); }
template <int n> VP_IN void nso(int fr)
{
    Chain ch; JntArray q, qd; setup<n>(ch, q, qd, fr);
    JntArray o(n), w(n);
    for (int i = 0; i < n; ++i) { o(i) = vp_c(4200 + i); w(i) = vp_c(4220 + i); }
    double alpha = vp_c(4240);
    ChainIkSolverVel_pinv_nso s(ch, o, w, eps(), 100, alpha);
    int r = s.ChainIkSolverVel_pinv_nso::CartToJnt(q, want(), qd);
    EQ(s.getError(), r, "the result is recorded");
    if (failures<n>(s, r, qd)) return;
    EQ(r, 0, "succeeds");
    double g = 0, A = 0, e[n];
    for (int i = 0; i < n; ++i) { double d = vp_c(3600 + i) - vp_c(4200 + i); e[i] = vp_c(4220 + i) * d; g += e[i] * d / 2; A += e[i] * e[i]; }
    double P[n];    // (I - V S+ Ut U S Vt) e
    for (int a = 0; a < n; ++a)
    {
        P[a] = e[a];
        for (int i = 0; i < n; ++i) for (int k = 0; k < 6; ++k) for (int l = 0; l < n; ++l) for (int b = 0; b < n; ++b)
            P[a] -= Vs(a, i) * Sinv(i) * Us(k, i) * Us(k, l) * vp_S(l) * Vs(b, l) * e[b];
    }
    for (int j = 0; j < n; ++j)
    {
        double x = 0;
        for (int i = 0; i < n; ++i) x += Vs(j, i) * Sinv(i) * uv(i);
        if (A > 1e-9) x += -2 * alpha * g / A * P[j];
        EQ(qd(j), x, "V S+ Ut v plus the optimising motion projected into the null space");
    }
}
VP_W w_nso1() { nso<1>(1); }
VP_W w_nso2() { nso<2>(1); }
template <int n> VP_IN void wdls(int fr)
{
    Chain ch; JntArray q, qd; setup<n>(ch, q, qd, fr);
    weighted = true;
    ChainIkSolverVel_wdls s(ch, eps(), 100);
    M Wy(6, 6), Wq(n, n);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 6; ++j) Wy(i, j) = wy(i, j);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Wq(i, j) = wq(i, j);
    EQ(s.setWeightJS(Wq), 0, "weights can be set"); EQ(s.setWeightTS(Wy), 0, "weights can be set");
    s.setLambda(vp_pos(4300));
    int r = s.ChainIkSolverVel_wdls::CartToJnt(q, want(), qd);
    EQ(s.getError(), r, "the result is recorded");
    if (failures<n>(s, r, qd)) return;
    double smin = n >= 6 ? vp_S(5) : 0;
    vp_assume(smin >= 0);
    double lam = smin < eps() ? sqrt(1 - (smin / eps()) * (smin / eps())) * vp_pos(4300) : 0;
    double t[n];
    for (int i = 0; i < n; ++i)
    {
        double c = 0;   // (Ut Wy v)_i
        Twist v = want();
        for (int k = 0; k < 6; ++k) for (int l = 0; l < 6; ++l) c += Us(l, i) * wy(k, l) * v(k);
        double S = vp_S(i);
        t[i] = i >= 6 ? 0 : fabs(S) < eps() ? c * S / (S * S + lam * lam) : c / S;
    }
    for (int j = 0; j < n; ++j)
    {
        double x = 0;
        for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) x += wq(j, k) * Vs(k, i) * t[i];
        EQ(qd(j), x, "Wq V (damped S+) Ut Wy v");
    }
    EQ(s.getNrZeroSigmas(), small<n>(), "number of damped singular values");
    if (n >= 6) EQ(r, small<n>() > n - 6 ? 100 : 0, "damping is reported");
}
VP_W w_wdls1() { wdls<1>(1); }
VP_W w_wdls2() { wdls<2>(2); }
VP_W w_wdls6() { wdls<6>(1); }
// Jacobians with more columns than rows are decomposed transposed
extern "C" int vp_sub__ZN3KDL15svd_eigen_MacieERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERS2_RNS1_IdLin1ELi1ELi0ELin1ELi1EEES5_S5_S7_db(const M* A, M* U, W* S, M* V, M*, W*, double, bool)
{
    bool tr = nj_ > 6;
    int m = tr ? nj_ : 6, n = tr ? 6 : nj_;
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) vp_eq((*A)(i, j), tr ? jacv(j, i) : jacv(i, j), "the Jacobian is decomposed");
    for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) (*U)(i, j) = Us(i, j);
    for (int i = 0; i < n; ++i) { (*S)(i) = vp_S(i); for (int j = 0; j < n; ++j) (*V)(i, j) = Vs(i, j); }
    ++n_svd;
    return vp_int(61);
}
template <int n> VP_IN void givens(int fr)
{
    Chain ch; JntArray q, qd; setup<n>(ch, q, qd, fr);
    ChainIkSolverVel_pinv_givens s(ch);
    int r = s.ChainIkSolverVel_pinv_givens::CartToJnt(q, want(), qd);
    EQ(s.getError(), r, "the result is recorded");
    if (vp_int(60) < 0) { EQ(r, vp_int(60), "a failure to compute the Jacobian is passed on"); return; }
    EQ(r, 0, "succeeds");
    const int k = n > 6 ? 6 : n;
    double t[k];
    Twist v = want();
    for (int i = 0; i < k; ++i)
    {
        double c = 0, S = vp_S(i);
        for (int l = 0; l < 6; ++l) c += (n > 6 ? Vs(l, i) : Us(l, i)) * v(l);
        t[i] = S != 0 ? c / S : 0;
    }
    for (int j = 0; j < n; ++j)
    {
        double x = 0;
        for (int i = 0; i < k; ++i) x += (n > 6 ? Us(j, i) : Vs(j, i)) * t[i];
        EQ(qd(j), x, "V S+ Ut v");
    }
}
VP_W w_givens2() { givens<2>(2); }
VP_W w_givens6() { givens<6>(2); }
VP_W w_givens7() { givens<7>(2); }
