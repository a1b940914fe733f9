// C15: joint arrays with their derivatives, joint space matrices and Jacobians
#include "vel.hpp"
#include "frameacc.hpp"
#include "jntarray.cpp"
#include "jntarrayvel.cpp"
#include "jntarrayacc.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "jacobian.cpp"
#define VP_IN static inline __attribute__((always_inline))
enum { N = 3 };
// moving arrays: element i is an arbitrary function of time
VP_IN JntArray ja(int id, int k = 0) { JntArray r(N); for (int i = 0; i < N; ++i) r(i) = vp_f(id + i, k); return r; }
VP_IN JntArrayVel jv(int id) { return JntArrayVel(ja(id), ja(id, 1)); }
VP_IN JntArrayAcc jc(int id) { return JntArrayAcc(ja(id), ja(id, 1), ja(id, 2)); }
VP_IN JntArray cons(int id) { JntArray r(N); for (int i = 0; i < N; ++i) r(i) = vp_c(id + i); return r; }
VP_IN doubleVel dv() { return doubleVel(vp_f(50, 0), vp_f(50, 1)); }
VP_IN doubleAcc da() { return doubleAcc(vp_f(50, 0), vp_f(50, 1), vp_f(50, 2)); }
VP_IN doubleVel ramp() { return doubleVel(2 + vp_c(51) * vp_ramp(52), vp_c(51)); }       // no acceleration
// the value is v and the derivatives are those of the value
template <class G> VP_IN void is(const JntArray& a, G v, const char* l) { EQ(a.rows(), N, l); for (int i = 0; i < N; ++i) EQ(a(i), v(i), l); }
template <class G> VP_IN void is(const JntArrayVel& a, G v, const char* l) { is(a.q, v, l); EQ(a.qdot.rows(), N, l); for (int i = 0; i < N; ++i) vp_ddt(a.q(i), a.qdot(i), l); }
template <class G> VP_IN void is(const JntArrayAcc& a, G v, const char* l)
{
    is(a.q, v, l); EQ(a.qdot.rows(), N, l); EQ(a.qdotdot.rows(), N, l);
    for (int i = 0; i < N; ++i) { vp_ddt(a.q(i), a.qdot(i), l); vp_ddt(a.qdot(i), a.qdotdot(i), l); }
}
VP_IN const JntArray& val(const JntArray& a) { return a; }
VP_IN const JntArray& val(const JntArrayVel& a) { return a.q; }
VP_IN const JntArray& val(const JntArrayAcc& a) { return a.q; }
VP_IN double val(double a) { return a; }
VP_IN double val(const doubleVel& a) { return a.t; }
VP_IN double val(const doubleAcc& a) { return a.t; }
// destinations with old contents
VP_IN void old(JntArray& z) { z = ja(70); }
VP_IN void old(JntArrayVel& z) { z = jv(70); }
VP_IN void old(JntArrayAcc& z) { z = jc(70); }
template <class T, class U> VP_IN void sums(const T& a, const U& b)
{
    auto s = [&](int i) { return val(a)(i) + val(b)(i); };
    auto d = [&](int i) { return val(a)(i) - val(b)(i); };
    T r, q, z;
    Add(a, b, r); is(r, s, "sum"); old(z); Add(a, b, z); is(z, s, "sum"); Subtract(a, b, q); is(q, d, "difference"); old(z); Subtract(a, b, z); is(z, d, "difference");
    r = a; Add(r, b, r); is(r, s, "sum in place of the first term"); r = a; Subtract(r, b, r); is(r, d, "difference in place of the first term");
}
template <class T> VP_IN void own(const T& a, const T& b)
{
    auto s = [&](int i) { return val(a)(i) + val(b)(i); };
    auto d = [&](int i) { return val(a)(i) - val(b)(i); };
    T r;
    r = b; Add(a, r, r); is(r, s, "sum in place of the second term"); r = b; Subtract(a, r, r); is(r, d, "difference in place of the second term");
    r = a; Add(r, r, r); is(r, [&](int i) { return 2 * val(a)(i); }, "added to itself"); r = a; Subtract(r, r, r); is(r, [&](int) { return 0.0; }, "subtracted from itself");
    T c(a); is(c, [&](int i) { return val(a)(i); }, "copy"); c = b; is(c, [&](int i) { return val(b)(i); }, "assignment"); is(a, [&](int i) { return val(a)(i); }, "the original stays");
    SetToZero(c); is(c, [&](int) { return 0.0; }, "zero");
}
template <class T, class S> VP_IN void scaled(const T& a, const S& f)
{
    auto p = [&](int i) { return val(a)(i) * val(f); };
    auto q = [&](int i) { return val(a)(i) / val(f); };
    T r, s, z;
    Multiply(a, f, r); is(r, p, "multiple"); old(z); Multiply(a, f, z); is(z, p, "multiple"); Divide(a, f, s); is(s, q, "quotient"); old(z); Divide(a, f, z); is(z, q, "quotient");
    r = a; Multiply(r, f, r); is(r, p, "multiple in place"); r = a; Divide(r, f, r); is(r, q, "quotient in place");
}
VP_W w_sums() { sums(ja(0), ja(10)); sums(ja(0), cons(10)); }
VP_W w_sums_vel() { sums(jv(0), jv(10)); sums(jv(0), cons(10)); }
VP_W w_sums_acc() { sums(jc(0), jc(10)); sums(jc(0), cons(10)); }
VP_W w_sums_acc_vel()
{   // terms that move with constant velocity
    JntArray k(N), z(N); for (int i = 0; i < N; ++i) { k(i) = vp_c(60 + i) * vp_ramp(52); z(i) = vp_c(60 + i); }
    sums(jc(0), JntArrayVel(k, z));
}
VP_W w_own() { own(ja(0), ja(10)); }
VP_W w_own_vel() { own(jv(0), jv(10)); }
VP_W w_own_acc() { own(jc(0), jc(10)); }
VP_W w_scaled() { vp_assume(vp_c(53) > 0.1 || vp_c(53) < -0.1); scaled(ja(0), vp_c(53)); scaled(jv(0), vp_c(53)); scaled(jc(0), vp_c(53)); }
VP_W w_scaled_vel() { scaled(jv(0), dv()); }
VP_W w_scaled_acc() { scaled(jc(0), da()); }
VP_W w_scaled_acc_vel() { scaled(jc(0), ramp()); }
VP_W w_construct()
{
    JntArray a(N), e; const char* l = "new arrays are zero"; auto z = [](int) { return 0.0; };
    is(a, z, l); is(JntArrayVel(N), z, l); is(JntArrayAcc(N), z, l); EQ(e.rows(), 0, "nothing in an empty array"); EQ(a.columns(), 1, "arrays have one column");
    JntArray q = cons(0), v = cons(10), w = cons(20); auto Q = [](int i) { return vp_c(i); };
    is(JntArrayVel(q), Q, "constant"); is(JntArrayAcc(q), Q, "constant");
    JntArrayVel x(q, v); JntArrayAcc y(q, v, w), u(q, v);
    for (int i = 0; i < N; ++i)
    {
        EQ(x.q(i), q(i), "value"); EQ(x.qdot(i), v(i), "velocity"); EQ(y.q(i), q(i), "value"); EQ(y.qdot(i), v(i), "velocity"); EQ(y.qdotdot(i), w(i), "acceleration");
        EQ(u.q(i), q(i), "value"); EQ(u.qdot(i), v(i), "velocity"); EQ(u.qdotdot(i), 0, "no acceleration");
        EQ(x.value()(i), q(i), "value"); EQ(x.deriv()(i), v(i), "velocity"); EQ(y.value()(i), q(i), "value"); EQ(y.deriv()(i), v(i), "velocity"); EQ(y.dderiv()(i), w(i), "acceleration");
    }
}
VP_W w_resize()
{
    JntArray a = cons(0), b = cons(0), e; JntArrayVel x(cons(0), cons(10)); JntArrayAcc y(cons(0), cons(10), cons(20));
    a.resize(N + 2); EQ(a.rows(), N + 2, "new size"); EQ(a(N), 0, "new elements are zero"); EQ(a(N + 1), 0, "new elements are zero");
    b.resize(1); EQ(b.rows(), 1, "new size"); e.resize(2); EQ(e.rows(), 2, "new size"); EQ(e(0), 0, "new elements are zero"); EQ(e(1), 0, "new elements are zero");
    x.resize(N + 1); EQ(x.q.rows(), N + 1, "new size"); EQ(x.qdot.rows(), N + 1, "new size"); EQ(x.q(N), 0, "new elements are zero"); EQ(x.qdot(N), 0, "new elements are zero");
    y.resize(N + 1); EQ(y.q.rows(), N + 1, "new size"); EQ(y.qdot.rows(), N + 1, "new size"); EQ(y.qdotdot.rows(), N + 1, "new size");
    EQ(y.q(N), 0, "new elements are zero"); EQ(y.qdot(N), 0, "new elements are zero"); EQ(y.qdotdot(N), 0, "new elements are zero");
    JntSpaceInertiaMatrix m(2), n, z(3);
    EQ(z.rows(), 3, "size"); EQ(z.columns(), 3, "size"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) EQ(z(i, j), 0, "new matrices are zero");
    m(0, 1) = vp_c(1);
    m.resize(3); n.resize(2);
    EQ(m.rows(), 3, "new size"); EQ(m.columns(), 3, "new size"); EQ(n.rows(), 2, "new size"); EQ(n.columns(), 2, "new size");
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) EQ(m(i, j), 0, "resized matrices are zero");
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) EQ(n(i, j), 0, "resized matrices are zero");
    Jacobian J(2), K; K.resize(3); EQ(K.columns(), 3, "new size"); EQ(K.rows(), 6, "rows"); EQ(J.columns(), 2, "size"); for (int i = 0; i < 6; ++i) for (int j = 0; j < 2; ++j) EQ(J(i, j), 0, "new Jacobians are zero");
}
VP_IN JntSpaceInertiaMatrix jm(int id) { JntSpaceInertiaMatrix r(N); for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) r(i, j) = vp_c(id + 10 * i + j); return r; }
VP_W w_matrices()
{
    const JntSpaceInertiaMatrix a = jm(0), b = jm(100);
    JntSpaceInertiaMatrix s, d, p, q, s1 = a, s2 = b, d1 = a, d2 = b, p1 = a, q1 = a, c(a), z(a);
    const double f = vp_pos(300);
    Add(a, b, s); Subtract(a, b, d); Multiply(a, f, p); Divide(a, f, q);
    Add(s1, b, s1); Add(a, s2, s2); Subtract(d1, b, d1); Subtract(a, d2, d2); Multiply(p1, f, p1); Divide(q1, f, q1); SetToZero(z);
    const JntArray x = cons(200); JntArray y;
    Multiply(a, x, y);
    JntArray y2 = cons(210); Multiply(a, x, y2);
    EQ(y.rows(), N, "size");
    for (int i = 0; i < N; ++i)
    {
        double t = 0;
        for (int j = 0; j < N; ++j)
        {
            EQ(s(i, j), a(i, j) + b(i, j), "sum"); EQ(s1(i, j), a(i, j) + b(i, j), "sum in place"); EQ(s2(i, j), a(i, j) + b(i, j), "sum in place");
            EQ(d(i, j), a(i, j) - b(i, j), "difference"); EQ(d1(i, j), a(i, j) - b(i, j), "difference in place"); EQ(d2(i, j), a(i, j) - b(i, j), "difference in place");
            EQ(p(i, j), a(i, j) * f, "multiple"); EQ(p1(i, j), a(i, j) * f, "multiple in place"); EQ(q(i, j), a(i, j) / f, "quotient"); EQ(q1(i, j), a(i, j) / f, "quotient in place");
            EQ(c(i, j), vp_c(10 * i + j), "copy"); EQ(z(i, j), 0, "zero");
            t += a(i, j) * x(j);
        }
        EQ(y(i), t, "product with an array"); EQ(y2(i), t, "product with an array");
    }
}
VP_W w_jacobians()
{
    Twist t[2]; Jacobian J(2);
    for (int k = 0; k < 2; ++k) { t[k] = twi(10 * k); J.setColumn(k, t[k]); }
    for (int k = 0; k < 2; ++k) { EQ(J.getColumn(k), t[k], "columns are twists"); for (int i = 0; i < 6; ++i) EQ(J(i, k), t[k](i), "rows are the components of the twists"); }
    JntArray q(2); q(0) = vp_c(30); q(1) = vp_c(31);
    Twist r = twi(70); MultiplyJacobian(J, q, r); EQ(r, t[0] * q(0) + t[1] * q(1), "the twist of a velocity is the sum of the columns times the joint velocities");
    Vector p = vec(40); Rotation R = rot(3); Frame F = frm(4);
    Jacobian a(2), b(2), c(2), d(J), e(J), f(J), g(J), h(J), k(J), bad(3), was(3);
    vp_true(changeRefPoint(J, p, a), "the sizes are right"); vp_true(changeBase(J, R, b), "the sizes are right"); vp_true(changeRefFrame(J, F, c), "the sizes are right");
    d.changeRefPoint(p); e.changeBase(R); f.changeRefFrame(F);
    changeRefPoint(g, p, g); changeBase(h, R, h); changeRefFrame(k, F, k);
    for (int i = 0; i < 2; ++i)
    {
        EQ(a.getColumn(i), t[i].RefPoint(p), "change of the reference point"); EQ(d.getColumn(i), t[i].RefPoint(p), "change of the reference point"); EQ(g.getColumn(i), t[i].RefPoint(p), "change of the reference point in place");
        EQ(b.getColumn(i), R * t[i], "change of base"); EQ(e.getColumn(i), R * t[i], "change of base"); EQ(h.getColumn(i), R * t[i], "change of base in place");
        EQ(c.getColumn(i), F * t[i], "change of frame"); EQ(f.getColumn(i), F * t[i], "change of frame"); EQ(k.getColumn(i), F * t[i], "change of frame in place");
        EQ(J.getColumn(i), t[i], "the original stays");
    }
    for (int i = 0; i < 3; ++i) { bad.setColumn(i, twi(100 + 10 * i)); was.setColumn(i, twi(100 + 10 * i)); }
    vp_true(!changeRefPoint(J, p, bad), "a wrong size is reported"); vp_true(!changeBase(J, R, bad), "a wrong size is reported"); vp_true(!changeRefFrame(J, F, bad), "a wrong size is reported");
    for (int i = 0; i < 3; ++i) EQ(bad.getColumn(i), was.getColumn(i), "and nothing is changed");
    Jacobian m(J), n; n = J; m.setColumn(0, twi(90)); EQ(J.getColumn(0), t[0], "copies are independent"); EQ(n.getColumn(1), t[1], "assignment");
    SetToZero(J); for (int i = 0; i < 2; ++i) EQ(J.getColumn(i), Twist::Zero(), "zero");
}
