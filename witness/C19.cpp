// C19: position inverse kinematics: what success means, how failures of the
// solvers used are reported, joint limits, iteration bound
#include "kdl.hpp"
#include "chain.hpp"
#include "framevel.hpp"
#include "jntarrayvel.cpp"
#include "chainiksolverpos_nr.cpp"
#include "chainiksolverpos_nr_jl.cpp"
#define VP_IN static inline __attribute__((always_inline))
enum { N = 2 };
static int nfk, nik, ndiff;
static double cur[N];       // the joint positions the solver should be at
VP_IN Frame goal() { return frm(900); }
// the solvers used are arbitrary: they return what they like and fail when they like
VP_IN int rcf(int k) { return vp_int(70 + k); }
VP_IN int rci(int k) { return vp_int(80 + k); }
VP_IN double step(int k, int j) { return vp_c(4000 + 4 * k + j); }
VP_IN Twist left(int k) { return twi(4100 + 6 * k); }        // difference between reached and desired pose
struct F : public ChainFkSolverPos
{
    virtual int JntToCart(const JntArray& q, Frame& p, int = -1)
    {
        int k = nfk++;
        for (int j = 0; j < N; ++j) vp_eq(q(j), cur[j], "the pose is computed at the current joint positions");
        p = frm(910 + k);
        return rcf(k);
    }
    virtual int JntToCart(const JntArray&, std::vector<Frame>&, int = -1) { return -1; }
    virtual void updateInternalDataStructures() {}
};
extern "C" void vp_sub__ZN3KDL4diffERKNS_5FrameES2_d(Twist* r, const Frame* a, const Frame* b, double dt)
{
    int k = ndiff++;
    EQ(*a, frm(910 + k), "from the pose reached"); EQ(*b, goal(), "to the desired pose"); EQ(dt, 1, "in unit time");
    *r = left(k);
}
struct I : public ChainIkSolverVel
{
    virtual int CartToJnt(const JntArray& q, const Twist& v, JntArray& qd)
    {
        int k = nik++;
        for (int j = 0; j < N; ++j) { vp_eq(q(j), cur[j], "the step is computed at the current joint positions"); qd(j) = step(k, j); }
        EQ(v, left(k), "the step is to remove the difference");
        // the solver is to move on like this
        for (int j = 0; j < N; ++j) cur[j] = next(cur[j] + step(k, j), j);
        return rci(k);
    }
    virtual double next(double q, int) { return q; }
    virtual int CartToJnt(const JntArray&, const FrameVel&, JntArrayVel&) { return -1; }
    virtual void updateInternalDataStructures() {}
};
VP_IN double lo(int j) { return vp_c(4200 + j); }
VP_IN double hi(int j) { return vp_c(4210 + j); }       // lower limits may equal upper limits
struct IL : public I { virtual double next(double q, int j) { return q < lo(j) ? lo(j) : q > hi(j) ? hi(j) : q; } };
// whether the difference is zero within the tolerance (what Equal means is decided by C12)
VP_IN bool within(int k) { return vp_int(90 + k) != 0; }
VP_IN double eps() { return vp_pos(4220); }
extern "C" bool vp_sub__ZN3KDL5EqualERKNS_5TwistES2_d(const Twist* a, const Twist* b, double e)
{
    int k = ndiff - 1;
    // in either order: the comparison of the two is symmetric (C12)
    const Twist l = left(k);
    for (int j = 0; j < 6; ++j) EQ(((*a)(j) - (*b)(j)) * ((*a)(j) - (*b)(j)), l(j) * l(j), "the difference is compared with zero");
    EQ(e, eps(), "within the tolerance asked for");
    return within(k);
}
VP_IN void setup(Chain& ch, JntArray& q, JntArray& o)
{
    nfk = nik = ndiff = 0;
    for (int i = 0; i < N; ++i) ch.addSegment(Segment(Joint(Joint::RotZ)));
    q.resize(N); o.resize(N);
    for (int j = 0; j < N; ++j) { q(j) = cur[j] = Q(j); o(j) = vp_c(4300 + j); }
}
template <int maxit> VP_IN void nr()
{
    Chain ch; JntArray q, o; setup(ch, q, o);
    F f; I i;
    ChainIkSolverPos_NR s(ch, f, i, maxit, eps());
    int r = s.ChainIkSolverPos_NR::CartToJnt(q, goal(), o);
    EQ(s.getError(), r, "the result is recorded");
    int want = SolverI::E_MAX_ITERATIONS_EXCEEDED;
    int iters = maxit;
    for (int k = 0; k < maxit; ++k)
    {
        if (rcf(k) < 0) { want = ChainIkSolverPos_NR::E_FKSOLVERPOS_FAILED; iters = k; break; }
        if (rci(k) < 0) { want = ChainIkSolverPos_NR::E_IKSOLVER_FAILED; iters = k; break; }
        if (within(k)) { want = rci(k) > 0 ? SolverI::E_DEGRADED : 0; iters = k + 1; break; }
    }
    EQ(r, want, "success exactly if the desired pose is reached within the tolerance; failures of the solvers used and running out of iterations are reported");
    for (int j = 0; j < N; ++j)
    {
        double x = Q(j);
        for (int k = 0; k < maxit; ++k) if (k < iters) x += step(k, j);
        EQ(o(j), x, "the result is the start plus the steps taken");
    }
}
VP_W w_nr0() { nr<0>(); }
VP_W w_nr1() { nr<1>(); }
VP_W w_nr2() { nr<2>(); }
template <int maxit> VP_IN void jl()
{
    Chain ch; JntArray q, o; setup(ch, q, o);
    F f; IL i;
    JntArray mn(N), mx(N);
    for (int j = 0; j < N; ++j) { vp_assume(lo(j) <= hi(j)); mn(j) = lo(j); mx(j) = hi(j); }
    ChainIkSolverPos_NR_JL s(ch, mn, mx, f, i, maxit, eps());
    int r = s.ChainIkSolverPos_NR_JL::CartToJnt(q, goal(), o);
    EQ(s.getError(), r, "the result is recorded");
    int want = SolverI::E_MAX_ITERATIONS_EXCEEDED;
    int iters = maxit;
    for (int k = 0; k < maxit; ++k)
    {
        if (rcf(k) < 0) { want = ChainIkSolverPos_NR_JL::E_FKSOLVERPOS_FAILED; iters = k; break; }
        if (within(k)) { want = 0; iters = k; break; }
        if (rci(k) < 0) { want = ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED; iters = k; break; }
    }
    EQ(r, want, "success exactly if the desired pose is reached within the tolerance; failures of the solvers used and running out of iterations are reported");
    for (int j = 0; j < N; ++j)
    {
        double x = Q(j);
        for (int k = 0; k < maxit; ++k) if (k < iters) { x += step(k, j); if (x < lo(j)) x = lo(j); if (x > hi(j)) x = hi(j); }
        EQ(o(j), x, "the result is the start plus the steps taken, each kept within the joint limits");
        if (iters > 0) { vp_true(o(j) >= lo(j), "within the joint limits"); vp_true(o(j) <= hi(j), "within the joint limits"); }
    }
}
VP_W w_jl0() { jl<0>(); }
VP_W w_jl1() { jl<1>(); }
VP_W w_jl2() { jl<2>(); }
