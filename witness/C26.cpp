// C26: inverse kinematics of trees
#include "kintree.hpp"
#include "treejnttojacsolver.cpp"
#include "treeiksolvervel_wdls.cpp"
#include "treeiksolverpos_nr_jl.cpp"
#include "treeiksolverpos_online.cpp"
#include "utilities/svd_eigen_HH.hpp"
#define VP_IN static inline __attribute__((always_inline))
typedef Eigen::MatrixXd M; typedef Eigen::VectorXd W;
typedef std::string N_;
// ---- velocities: arbitrary Jacobians of the endpoints, arbitrary decomposition --------------------------------------------------
static int nj_, ne_, n_jac, n_svd;
VP_IN double jacv(int e, int i, int j) { return vp_c(3000 + 100 * e + 16 * i + j); }
VP_IN double Us(int i, int j) { return vp_c(3300 + 16 * i + j); }
VP_IN double Vs(int i, int j) { return vp_c(3600 + 16 * i + j); }
VP_IN double Sv(int i) { return vp_c(3800 + i); }
VP_IN double wq(int i, int j) { return vp_c(4000 + 16 * i + j); }
VP_IN double wy(int i, int j) { return vp_c(4200 + 16 * i + j); }
VP_IN int rcj(int e) { return vp_int(60 + e); }
VP_IN Twist want(int e) { return twi(3900 + 6 * e); }
VP_IN double w1(int k) { return want(k / 6)(k % 6); }
VP_IN double lam() { return vp_c(3890); }
extern "C" int vp_sub__ZN3KDL18TreeJntToJacSolver8JntToJacERKNS_8JntArrayERNS_8JacobianERKSt6vpname(TreeJntToJacSolver* s, const JntArray* q, Jacobian* J, const N_* name)
{
    int e = *name == N_("a") ? 0 : 1;
    vp_true(*name == N_("a") || *name == N_("b"), "the Jacobians are those of the endpoints");
    for (int j = 0; j < nj_; ++j)
    {
        vp_eq((*q)(j), Q(j), "the Jacobian is taken at the given positions");
        for (int i = 0; i < 6; ++i) J->data(i, j) = jacv(e, i, j);
    }
    ++n_jac;
    return rcj(e);
}
extern "C" int vp_sub__ZN3KDL12svd_eigen_HHERKN5Eigen6MatrixIdLin1ELin1ELi0ELin1ELin1EEERS2_RNS1_IdLin1ELi1ELi0ELin1ELi1EEES5_S7_id(const M* A, M* U, W* S, M* V, W* tmp, int, double)
{
    const int m = 6 * ne_;
    vp_true(A->rows() == m && A->cols() == nj_, "one row per endpoint and direction, one column per joint");
    for (int j = 0; j < nj_; ++j)
    {
        for (int i = 0; i < m; ++i)
        {
            double a = 0;
            for (int k = 0; k < m; ++k) for (int l = 0; l < nj_; ++l) a += wy(i, k) * jacv(k / 6, k % 6, l) * wq(l, j);
            vp_eq((*A)(i, j), a, "the weighted Jacobians of all endpoints are decomposed");
            (*U)(i, j) = Us(i, j);
        }
        for (int i = 0; i < nj_; ++i) (*V)(i, j) = Vs(i, j);
        (*S)(j) = Sv(j);
        (*tmp)(j) = vp_c(3550 + j);
    }
    ++n_svd;
    return vp_int(65);
}
VP_IN Tree joints(int n)
{
    Tree t("r");
    static const char* nm[7] = {"a", "b", "c", "d", "e", "f", "g"};
    for (int i = 0; i < n; ++i) t.addSegment(Segment(nm[i], Joint(nm[i], Joint::RotZ)), "r");
    return t;
}
template <int n, int m> VP_IN void wdls()
{
    nj_ = n; ne_ = m; n_jac = n_svd = 0;
    std::vector<N_> ends;
    if (m > 1) ends.push_back("b");     // the endpoints are used in the order of their names
    ends.push_back("a");
    TreeIkSolverVel_wdls s(joints(n), ends);
    M Wy(6 * m, 6 * m), Wq(n, n);
    for (int i = 0; i < 6 * m; ++i) for (int j = 0; j < 6 * m; ++j) Wy(i, j) = wy(i, j);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) Wq(i, j) = wq(i, j);
    s.setWeightJS(Wq); s.setWeightTS(Wy); s.setLambda(lam());
    JntArray q(n), qd(n);
    for (int j = 0; j < n; ++j) { q(j) = Q(j); qd(j) = vp_c(3700 + j); }
    Twists v;
    v["a"] = want(0);
    if (m > 1) v["b"] = want(1);
    double r = s.TreeIkSolverVel_wdls::CartToJnt(q, v, qd);
    for (int e = 0; e < m; ++e) if (rcj(e) < 0) { EQ(r, rcj(e), "failures of the Jacobian are reported"); return; }
    if (vp_int(65) < 0) { vp_true(r < 0, "a failed decomposition is reported"); return; }
    double t[n], nn = 0;
    for (int k = 0; k < 6 * m; ++k) { double c = 0; for (int l = 0; l < 6 * m; ++l) c += wy(k, l) * w1(l); nn += c * c; }
    EQ(r, sqrt(nn), "the weighted norm of the twists is returned");
    for (int i = 0; i < n; ++i)
    {
        double c = 0, d = Sv(i) * Sv(i) + lam() * lam();
        if (i < 6 * m) for (int k = 0; k < 6 * m; ++k) for (int l = 0; l < 6 * m; ++l) c += Us(k, i) * wy(k, l) * w1(l);
        t[i] = d > 0 ? c * Sv(i) / d : 0;
    }
    for (int j = 0; j < n; ++j)
    {
        double x = 0;
        for (int i = 0; i < n; ++i) for (int k = 0; k < n; ++k) x += wq(j, k) * Vs(k, i) * t[i];
        EQ(qd(j), x, "Wq V (damped S+) Ut Wy v");
    }
}
VP_W w_wdls_1_1() { wdls<1, 1>(); }
VP_W w_wdls_2_1() { wdls<2, 1>(); }
VP_W w_wdls_1_2() { wdls<1, 2>(); }
VP_W w_wdls_defaults()
{   // no weights given: the identity; nothing damped
    nj_ = 2; ne_ = 2; n_jac = n_svd = 0;
    std::vector<N_> ends; ends.push_back("a"); ends.push_back("b");
    TreeIkSolverVel_wdls s(joints(2), ends);
    for (int i = 0; i < 12; ++i) for (int j = 0; j < 12; ++j) EQ(s.getWeightTS()(i, j), i == j, "the default weights are one");
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) EQ(s.getWeightJS()(i, j), i == j, "the default weights are one");
    EQ(s.getLambda(), 0, "the default is not to damp");
    s.setLambda(lam()); EQ(s.getLambda(), lam(), "the damping is that given");
}
VP_W w_wdls_codes()
{
    nj_ = 2; ne_ = 2; n_jac = n_svd = 0;
    std::vector<N_> ends; ends.push_back("a"); ends.push_back("b");
    TreeIkSolverVel_wdls s(joints(2), ends);
    JntArray q(2), qd(2), q1(1), q3(3);
    for (int j = 0; j < 2; ++j) q(j) = Q(j);
    Twists v, u, x;
    v["a"] = want(0); v["b"] = want(1); u["b"] = want(1); x = v; x["c"] = twi(990);
    vp_true(s.TreeIkSolverVel_wdls::CartToJnt(q1, v, qd) < 0, "a wrong number of joint values is reported"); vp_true(s.TreeIkSolverVel_wdls::CartToJnt(q3, v, qd) < 0, "a wrong number of joint values is reported");
    vp_true(s.TreeIkSolverVel_wdls::CartToJnt(q, u, qd) < 0, "an endpoint without twist is reported"); vp_true(s.TreeIkSolverVel_wdls::CartToJnt(q, x, qd) < 0, "a twist of no endpoint is reported");
    EQ(n_jac, 0, "nothing is computed then");
}
// ---- positions: arbitrary solvers -----------------------------------------------------------------------------------------------
static int nfk, nik, ndiff, first, last;     // endpoints asked for: first..last
static bool fks, scaled;
static double cur[2];
VP_IN int rcf(int k, int e) { return vp_int(70 + 2 * k + e); }
VP_IN double step(int k, int j) { return vp_c(4600 + 4 * k + j); }
VP_IN Twist left(int k, int e) { return twi(4700 + 12 * k + 6 * e); }
VP_IN double res(int k) { return vp_c(4800 + k); }
VP_IN double lo(int j) { return vp_c(4810 + j); }
VP_IN double hi(int j) { return vp_c(4820 + j); }
VP_IN Frame goal(int e) { return frm(90 + e); }
VP_IN Frame at(int k, int e) { return frm(70 + 2 * k + e); }
VP_IN double vmax() { return vp_pos(4830); }
VP_IN double wmax() { return vp_pos(4831); }
struct F : public TreeFkSolverPos
{
    virtual int JntToCart(const JntArray& q, Frame& p, N_ name)
    {
        int n = last - first + 1, k = nfk / n, e = first + nfk % n;
        ++nfk;
        vp_true(name == (e ? N_("b") : N_("a")), "the poses of the endpoints asked for are computed");
        for (int j = 0; j < 2; ++j) vp_eq(q(j), cur[j], "the pose is computed at the current joint positions");
        p = at(k, e);
        return rcf(k, e);
    }
};
extern "C" void vp_sub__ZN3KDL4diffERKNS_5FrameES2_d(Twist* r, const Frame* a, const Frame* b, double dt)
{
    int n = last - first + 1, k = ndiff / n, e = first + ndiff % n;
    ++ndiff;
    EQ(*a, at(k, e), "from the pose reached"); EQ(*b, goal(e), "to the desired pose"); EQ(dt, 1, "in unit time");
    *r = left(k, e);
}
VP_IN Twist limited(const Twist& t)
{   // scaled down so that neither velocity exceeds its maximum
    double v = t.vel.Norm(), w = t.rot.Norm(), f = 1;
    if (v > vmax()) f = vmax() / v;
    if (w > wmax() && wmax() / w < f) f = wmax() / w;
    return t * f;
}
struct I : public TreeIkSolverVel
{
    virtual double CartToJnt(const JntArray& q, const Twists& v, JntArray& qd)
    {
        int k = nik++;
        for (int j = 0; j < 2; ++j) { vp_eq(q(j), cur[j], "the step is computed at the current joint positions"); qd(j) = step(k, j); }
        vp_true(v.size() == 2, "there is a twist for every endpoint");
        for (int e = 0; e < 2; ++e)
        {
            Twist t = first <= e && e <= last ? left(k, e) : Twist::Zero();
            EQ(v.find(e ? "b" : "a")->second, scaled ? limited(t) : t, "the step is to remove the difference, the endpoints not asked for are to stay");
        }
        // the solver is to move on like this
        for (int j = 0; j < 2; ++j) { double x = cur[j] + step(k, j); cur[j] = x < lo(j) ? lo(j) : x > hi(j) ? hi(j) : x; }
        return res(k);
    }
};
#define SETUP JntArray q(2), o(2), mn(2), mx(2); for (int j = 0; j < 2; ++j) { q(j) = Q(j); o(j) = vp_c(4840 + j); mn(j) = lo(j); mx(j) = hi(j); vp_assume(lo(j) <= hi(j)); } \
    std::vector<N_> ends; ends.push_back("a"); ends.push_back("b"); F f; I i; scaled = false;
VP_IN Frames ask(int a, int b, const JntArray& q) { nfk = nik = ndiff = 0; first = a; last = b; for (int j = 0; j < 2; ++j) cur[j] = q(j); Frames p; for (int e = a; e <= b; ++e) p[e ? "b" : "a"] = goal(e); return p; }
template <int maxit> VP_IN void result(double r, const JntArray& o, double eps)
{
    int iters = maxit;
    double want = -3;
    for (int k = 0; k < maxit && iters == maxit; ++k)
    {
        for (int e = first; e <= last && iters == maxit; ++e) if (rcf(k, e) < 0) { want = rcf(k, e); iters = k; }
        if (iters == maxit && res(k) < eps) { want = res(k); iters = k; }
    }
    EQ(r, want, "the remaining distance when it is within the tolerance; failures of the solvers used and running out of iterations are reported");
    for (int j = 0; j < 2; ++j)
    {
        double x = Q(j);
        for (int k = 0; k < maxit; ++k) if (k < iters) { x += step(k, j); if (x < lo(j)) x = lo(j); if (x > hi(j)) x = hi(j); }
        EQ(o(j), x, "the result is the start plus the steps taken, each kept within the joint limits");
    }
}
template <int maxit> VP_IN void nr(int a, int b)
{
    SETUP
    TreeIkSolverPos_NR_JL s(joints(2), ends, mn, mx, f, i, maxit, vp_pos(4850));
    Frames p = ask(a, b, q);
    double r = s.TreeIkSolverPos_NR_JL::CartToJnt(q, p, o);
    result<maxit>(r, o, vp_pos(4850));
}
VP_W w_nr0() { nr<0>(0, 1); }
VP_W w_nr1() { nr<1>(0, 1); }
VP_W w_nr1_b() { nr<1>(1, 1); }
VP_W w_nr1_a() { nr<1>(0, 0); }
VP_W w_nr2_a() { nr<2>(0, 0); }
VP_W w_nr_again()
{   // other endpoints than in an earlier call
    SETUP
    TreeIkSolverPos_NR_JL s(joints(2), ends, mn, mx, f, i, 1, vp_pos(4850));
    Frames p = ask(0, 0, q);
    s.TreeIkSolverPos_NR_JL::CartToJnt(q, p, o);
    p = ask(1, 1, q);
    double r = s.TreeIkSolverPos_NR_JL::CartToJnt(q, p, o);
    result<1>(r, o, vp_pos(4850));
    p["c"] = frm(95);
    vp_true(s.TreeIkSolverPos_NR_JL::CartToJnt(q, p, o) < 0, "a pose of no endpoint is reported");
}
VP_IN double qm(int j) { return vp_pos(4860 + j); }
VP_IN void online(TreeIkSolverPos_Online& s, const JntArray& q, JntArray& o, int a, int b)
{
    Frames p = ask(a, b, q);
    double r = s.TreeIkSolverPos_Online::CartToJnt(q, p, o);
    for (int e = a; e <= b; ++e) if (rcf(0, e) < 0) { EQ(r, rcf(0, e), "failures of the forward kinematics are reported"); return; }
    EQ(r, res(0), "the remaining distance or the failure of the velocity solver is returned");
    if (r < 0) { for (int j = 0; j < 2; ++j) EQ(o(j), Q(j), "nothing moves when the velocity solver failed"); return; }
    double d0 = step(0, 0), d1 = step(0, 1), f = 1, f0 = fabs(d0) > qm(0) ? qm(0) / fabs(d0) : 1, f1 = fabs(d1) > qm(1) ? qm(1) / fabs(d1) : 1;
    f = f0 < f1 ? f0 : f1;
    for (int j = 0; j < 2; ++j)
    {
        double x = Q(j) + f * step(0, j);
        EQ(o(j), x < lo(j) ? lo(j) : x > hi(j) ? hi(j) : x, "one step in the direction found, scaled so that no joint is too fast, and kept within the joint limits");
    }
}
#define ONLINE TreeIkSolverPos_Online s(2, ends, mn, mx, qx, vmax(), wmax(), f, i);
VP_IN void on(int a, int b) { SETUP JntArray qx(2); qx(0) = qm(0); qx(1) = qm(1); scaled = true; ONLINE online(s, q, o, a, b); }
VP_W w_online_a() { on(0, 0); }
VP_W w_online_b() { on(1, 1); }
VP_W w_online_ab() { on(0, 1); }
VP_W w_online_again()
{
    SETUP
    JntArray qx(2); qx(0) = qm(0); qx(1) = qm(1); scaled = true;
    ONLINE
    Frames p = ask(0, 0, q);
    s.TreeIkSolverPos_Online::CartToJnt(q, p, o);
    online(s, q, o, 1, 1);
    p["c"] = frm(95);
    vp_true(s.TreeIkSolverPos_Online::CartToJnt(q, p, o) < 0, "a pose of no endpoint is reported");
}
