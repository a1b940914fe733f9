// C25: trees: forward kinematics, Jacobians and inverse dynamics
#include "kintree.hpp"
#include "treefksolverpos_recursive.cpp"
#include "treejnttojacsolver.cpp"
#include "treeidsolver_recursive_newton_euler.cpp"
#define VP_IN static inline __attribute__((always_inline))
// the joints have arbitrary scale, offset and rotor inertia, tips and inertias are arbitrary
VP_IN Joint jnt(const char* n, int i, Joint::JointType t) { return Joint(n, t, vp_c(800 + i), vp_c(820 + i), vp_c(840 + i)); }
VP_IN Segment dseg(const char* n, int i, Joint::JointType t, const Frame& tip) { return Segment(n, jnt(n, i, t), tip, inertia(i)); }
// r -+- a (turns) -+- c (turns)
//    |             +- d (fixed) --- e (slides)
//    +- b (slides)           joints in the order added: a 0, b 1, c 2, e 3
#define SEGMENTS Segment a = dseg("a", 0, Joint::RotZ, frm(0)), b = dseg("b", 1, Joint::TransX, frm(1)), c = dseg("c", 2, Joint::RotX, frm(2)), d = dseg("d", 3, Joint::Fixed, frm(3)), e = dseg("e", 4, Joint::TransY, frm(4));
#define TREE(t) Tree t("r"); t.addSegment(a, "r"); t.addSegment(d, "a"); t.addSegment(b, "r"); t.addSegment(c, "a"); t.addSegment(e, "d");
VP_IN JntArray arr(int n, int k) { JntArray q(n); for (int j = 0; j < n; ++j) q(j) = vp_f(10 + j, k); return q; }
VP_W w_fk()
{
    SEGMENTS
    TREE(t)
    TreeFkSolverPos_recursive fk(t);
    JntArray q = arr(4, 0);
    Frame F, A = a.pose(Q(0));
    EQ(fk.TreeFkSolverPos_recursive::JntToCart(q, F, "r"), 0, "succeeds"); EQ(F, Frame::Identity(), "the root is the reference");
    EQ(fk.TreeFkSolverPos_recursive::JntToCart(q, F, "a"), 0, "succeeds"); EQ(F, A, "pose is the product of the poses from the root, with the joint values by their numbers");
    EQ(fk.TreeFkSolverPos_recursive::JntToCart(q, F, "b"), 0, "succeeds"); EQ(F, b.pose(Q(1)), "pose is the product of the poses from the root, with the joint values by their numbers");
    EQ(fk.TreeFkSolverPos_recursive::JntToCart(q, F, "c"), 0, "succeeds"); EQ(F, A * c.pose(Q(2)), "pose is the product of the poses from the root, with the joint values by their numbers");
    EQ(fk.TreeFkSolverPos_recursive::JntToCart(q, F, "d"), 0, "succeeds"); EQ(F, A * d.pose(0), "pose is the product of the poses from the root, with the joint values by their numbers");
    EQ(fk.TreeFkSolverPos_recursive::JntToCart(q, F, "e"), 0, "succeeds"); EQ(F, A * d.pose(0) * e.pose(Q(3)), "pose is the product of the poses from the root, with the joint values by their numbers");
}
VP_W w_fk_codes()
{
    SEGMENTS
    TREE(t)
    TreeFkSolverPos_recursive fk(t);
    Frame F;
    JntArray q = arr(4, 0);
    vp_true(fk.TreeFkSolverPos_recursive::JntToCart(q, F, "x") < 0, "a name that is not there is reported");
    for (int n = 0; n < 6; ++n) if (n != 4) vp_true(fk.TreeFkSolverPos_recursive::JntToCart(arr(n, 0), F, "e") < 0, "a wrong number of joint values is reported");
    vp_true(fk.TreeFkSolverPos_recursive::JntToCart(arr(3, 0), F, "x") < 0, "both wrong is reported");
}
VP_W w_fixed_only()
{   // a tree without joints
    Segment d = dseg("d", 3, Joint::Fixed, frm(3));
    Tree t("r"); t.addSegment(d, "r");
    TreeFkSolverPos_recursive fk(t);
    TreeJntToJacSolver js(t);
    JntArray q(0);
    Frame F;
    Jacobian J(0);
    EQ(fk.TreeFkSolverPos_recursive::JntToCart(q, F, "d"), 0, "succeeds without joints"); EQ(F, frm(3), "pose without joints");
    EQ(js.JntToJac(q, J, "d"), 0, "succeeds without joints");
    vp_reached("trees without joints are handled");
}
VP_IN void jac(const char* name, const Frame& T, bool u0, bool u1, bool u2, bool u3)
{
    SEGMENTS
    TREE(t)
    TreeJntToJacSolver js(t);
    JntArray q = arr(4, 0);
    Jacobian J(4);
    for (int i = 0; i < 6; ++i) for (int j = 0; j < 4; ++j) J.data(i, j) = vp_c(1500 + 4 * i + j);   // whatever was there before
    EQ(js.JntToJac(q, J, name), 0, "succeeds");
    const bool used[4] = {u0, u1, u2, u3};
    Twist s = Twist::Zero();
    for (int j = 0; j < 4; ++j)
    {
        if (!used[j]) EQ(J.getColumn(j), Twist::Zero(), "joints that do not move the segment have columns of zeros");
        s += J.getColumn(j) * QD(j);
    }
    DDT(T.p, s.vel, "the Jacobian times the joint velocities is the velocity of the segment");
    DDTROT(T.M, s.rot, "the Jacobian times the joint velocities is the angular velocity of the segment");
}
VP_W w_jac_c() { SEGMENTS jac("c", a.pose(Q(0)) * c.pose(Q(2)), true, false, true, false); }
VP_W w_jac_e() { SEGMENTS jac("e", a.pose(Q(0)) * d.pose(0) * e.pose(Q(3)), true, false, false, true); }
VP_W w_jac_b() { SEGMENTS jac("b", b.pose(Q(1)), false, true, false, false); }
VP_W w_jac_d() { SEGMENTS jac("d", a.pose(Q(0)) * d.pose(0), true, false, false, false); }
VP_W w_jac_r() { jac("r", Frame::Identity(), false, false, false, false); }
VP_W w_jac_codes()
{
    SEGMENTS
    TREE(t)
    TreeJntToJacSolver js(t);
    JntArray q = arr(4, 0);
    Jacobian J(4);
    vp_true(js.JntToJac(q, J, "x") < 0, "a name that is not there is reported");
    for (int n = 0; n < 6; ++n) if (n != 4) { Jacobian K(n); vp_true(js.JntToJac(arr(n, 0), J, "e") < 0, "a wrong number of joint values is reported"); vp_true(js.JntToJac(q, K, "e") < 0, "a Jacobian of the wrong size is reported"); vp_true(js.JntToJac(arr(n, 0), K, "e") < 0, "both wrong is reported"); }
}
// ---- inverse dynamics ---------------------------------------------------------------------------------------------------
VP_IN Wrench fext(int i) { return wre(900 + 6 * i); }
VP_IN Vector grav() { return vec(890); }
VP_IN Vector dt(const Vector& v) { return Vector(vp_dt(v.data[0]), vp_dt(v.data[1]), vp_dt(v.data[2])); }
// joint torques by Newton and Euler: S[k] hangs below S[par[k]] (parents first), has joint jof[k] and feels f[k]
template <int n>
VP_IN void newton(Segment* const* S, const int* par, const int* jof, const bool* pushed, double* tau)
{
    Frame X[n];
    Twist V[n], U[n];
    Wrench W[n];
    Rotation R[n];
    for (int k = 0; k < n; ++k)
    {
        double q = jof[k] < 0 ? 0 : Q(jof[k]), qd = jof[k] < 0 ? 0 : QD(jof[k]);
        Twist v = par[k] < 0 ? Twist::Zero() : V[par[k]];
        X[k] = S[k]->pose(q);
        R[k] = par[k] < 0 ? X[k].M : R[par[k]] * X[k].M;
        U[k] = X[k].M.Inverse(S[k]->twist(q, 1));
        V[k] = Twist(X[k].M.Inverse(v.vel + CROSS(v.rot, X[k].p)), X[k].M.Inverse(v.rot)) + U[k] * qd;
        v = V[k];
        const RigidBodyInertia& I = S[k]->getInertia();
        Vector c = I.getCOG();
        double m = I.getMass();
        RotationalInertia Io = I.getRotationalInertia();
        Vector p = (v.vel + CROSS(v.rot, c)) * m, L = Io * v.rot + CROSS(c, v.vel) * m;
        Vector dp = dt(p) + CROSS(v.rot, p), dL = dt(L) + CROSS(v.rot, L) + CROSS(v.vel, p);
        Vector g = R[k].Inverse(grav());
        W[k] = Wrench(dp - g * m, dL - CROSS(c, g) * m);
        if (pushed[k]) W[k] = W[k] - fext(k);
    }
    for (int k = n - 1; k >= 0; --k)
    {
        if (jof[k] >= 0) tau[jof[k]] = DOT(U[k].vel, W[k].force) + DOT(U[k].rot, W[k].torque) + S[k]->getJoint().getInertia() * QDD(jof[k]);
        if (par[k] >= 0)
        {
            Vector f = X[k].M * W[k].force, t = X[k].M * W[k].torque;
            W[par[k]] = W[par[k]] + Wrench(f, t + CROSS(X[k].p, f));
        }
    }
}
template <int n, int m>
VP_IN void id(Segment* const* S, const int* par, const int* jof, const bool* pushed)
{
    Tree t("r");
    for (int i = 0; i < n; ++i) t.addSegment(*S[i], par[i] < 0 ? std::string("r") : S[par[i]]->getName());
    TreeIdSolver_RNE s(t, grav());
    JntArray tau(m);
    WrenchMap f;
    for (int i = 0; i < n; ++i) if (pushed[i]) f[S[i]->getName()] = fext(i);
    f["x"] = wre(990);     // nobody of that name
    EQ(s.TreeIdSolver_RNE::CartToJnt(arr(m, 0), arr(m, 1), arr(m, 2), f, tau), 0, "succeeds"); EQ(s.getError(), 0, "the result is recorded");
    double want[m];
    newton<n>(S, par, jof, pushed, want);
    for (int j = 0; j < m; ++j) EQ(tau(j), want[j], "the joint torques balance the rate of change of momentum, gravity, external forces and the rotors");
}
static const int fork[3] = {-1, 0, 0}, roots[3] = {-1, -1, 0}, n012[3] = {0, 1, 2}, nf01[3] = {-1, 0, 1}, n0f1[3] = {0, -1, 1};
static const bool all[3] = {true, true, true}, some[3] = {false, true, false}, some2[3] = {true, false, true};
#define THREE(ta, tb, tc) Segment A = dseg("b", 0, ta, Frame(vec(1000))), B = dseg("a", 1, tb, frm(1)), C = dseg("c", 2, tc, Frame(vec(1100))); Segment* S[3] = {&A, &B, &C};
VP_W w_id_fork_rrt() { THREE(Joint::RotZ, Joint::RotX, Joint::TransY) id<3, 3>(S, fork, n012, all); }
VP_W w_id_fork_trr() { THREE(Joint::TransX, Joint::RotY, Joint::RotZ) id<3, 3>(S, fork, n012, some); }
VP_W w_id_fork_frt() { THREE(Joint::Fixed, Joint::RotX, Joint::TransY) id<3, 2>(S, fork, nf01, all); }
VP_W w_id_fork_rfr() { THREE(Joint::RotY, Joint::Fixed, Joint::RotX) id<3, 2>(S, fork, n0f1, some2); }
VP_W w_id_roots_rtr() { THREE(Joint::RotX, Joint::TransZ, Joint::RotY) id<3, 3>(S, roots, n012, all); }
VP_W w_id_roots_rrt() { THREE(Joint::RotY, Joint::RotX, Joint::TransX) id<3, 3>(S, roots, n012, some2); }
VP_W w_id_roots_rft() { THREE(Joint::RotZ, Joint::Fixed, Joint::TransY) id<3, 2>(S, roots, n0f1, all); }
VP_W w_id_codes()
{
    SEGMENTS
    TREE(t)
    TreeIdSolver_RNE s(t, grav());
    WrenchMap f;
    JntArray tau(4), q = arr(4, 0), qd = arr(4, 1), qdd = arr(4, 2);
    for (int n = 3; n < 6; n += 2)
    {
        JntArray x(n);
        for (int j = 0; j < n; ++j) x(j) = vp_c(1200 + j);
        EQ(s.TreeIdSolver_RNE::CartToJnt(x, qd, qdd, f, tau), SolverI::E_SIZE_MISMATCH, "joint positions of the wrong size are reported"); EQ(s.getError(), SolverI::E_SIZE_MISMATCH, "the result is recorded");
        EQ(s.TreeIdSolver_RNE::CartToJnt(q, x, qdd, f, tau), SolverI::E_SIZE_MISMATCH, "joint velocities of the wrong size are reported");
        EQ(s.TreeIdSolver_RNE::CartToJnt(q, qd, x, f, tau), SolverI::E_SIZE_MISMATCH, "joint accelerations of the wrong size are reported");
        EQ(s.TreeIdSolver_RNE::CartToJnt(q, qd, qdd, f, x), SolverI::E_SIZE_MISMATCH, "joint torques of the wrong size are reported");
    }
}
VP_W w_id_grown()
{   // the tree grows by a moving and by a fixed segment
    THREE(Joint::RotZ, Joint::RotX, Joint::TransY)
    Segment D = dseg("d", 3, Joint::Fixed, frm(2));
    WrenchMap f;
    for (int k = 0; k < 2; ++k)
    {
        Tree t("r"); t.addSegment(A, "r"); t.addSegment(B, "b");
        TreeIdSolver_RNE s(t, grav());
        JntArray u(2), w(2);
        EQ(s.TreeIdSolver_RNE::CartToJnt(arr(2, 0), arr(2, 1), arr(2, 2), f, u), 0, "succeeds");
        if (k) t.addSegment(C, "b"); else t.addSegment(D, "b");
        int n = k ? 3 : 2;
        JntArray tau(n), want(n);
        EQ(s.TreeIdSolver_RNE::CartToJnt(arr(2, 0), arr(2, 1), arr(2, 2), f, u), SolverI::E_NOT_UP_TO_DATE, "a tree that has grown is noticed"); EQ(s.getError(), SolverI::E_NOT_UP_TO_DATE, "the result is recorded");
        EQ(s.TreeIdSolver_RNE::CartToJnt(arr(n, 0), arr(n, 1), arr(n, 2), f, tau), SolverI::E_NOT_UP_TO_DATE, "a tree that has grown is noticed");
        s.updateInternalDataStructures();
        TreeIdSolver_RNE fresh(t, grav());
        EQ(s.TreeIdSolver_RNE::CartToJnt(arr(n, 0), arr(n, 1), arr(n, 2), f, tau), 0, "succeeds after the update"); EQ(fresh.TreeIdSolver_RNE::CartToJnt(arr(n, 0), arr(n, 1), arr(n, 2), f, want), 0, "succeeds");
        for (int j = 0; j < n; ++j) EQ(tau(j), want(j), "after the update the solver is one for the grown tree");
    }
}
