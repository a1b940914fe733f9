// C12: equality with tolerance, equality, zero and copies, for every type
#include "kdl.hpp"
#include "frames.cpp"
#include "framevel.hpp"
#include "frameacc.hpp"
#include "jntarray.cpp"
#include "jntarrayvel.cpp"
#include "jntarrayacc.cpp"
#include "jntspaceinertiamatrix.cpp"
#include "jacobian.cpp"
#define VP_IN static inline __attribute__((always_inline))
// component i of the first value, and of a second value that differs by delta(i)
struct A { int b; double operator()(int i) const { return vp_c(b + i); } A at(int k) const { A r = {b + k}; return r; } };
struct B { int b; double operator()(int i) const { return vp_c(b + i) + vp_c(b + 200 + i); } B at(int k) const { B r = {b + k}; return r; } };
VP_IN double dl(int i) { return vp_c(200 + i); }
template <class G> VP_IN void mk(const G& g, double& r) { r = g(0); }
template <class G> VP_IN void mk(const G& g, Vector& r) { r = Vector(g(0), g(1), g(2)); }
template <class G> VP_IN void mk(const G& g, Vector2& r) { r = Vector2(g(0), g(1)); }
template <class G> VP_IN void mk(const G& g, Rotation2& r) { r = Rotation2(g(0), g(1)); }
template <class G> VP_IN void mk(const G& g, Frame2& r) { mk(g, r.M); mk(g.at(2), r.p); }
template <class G> VP_IN void mk(const G& g, Rotation& r) { r = Rotation(g(0), g(1), g(2), g(3), g(4), g(5), g(6), g(7), g(8)); }
template <class G> VP_IN void mk(const G& g, Frame& r) { mk(g, r.M); mk(g.at(9), r.p); }
template <class G> VP_IN void mk(const G& g, Twist& r) { mk(g, r.vel); mk(g.at(3), r.rot); }
template <class G> VP_IN void mk(const G& g, Wrench& r) { mk(g, r.force); mk(g.at(3), r.torque); }
template <class G> VP_IN void mk(const G& g, doubleVel& r) { r.t = g(0); r.grad = g(1); }
template <class G> VP_IN void mk(const G& g, VectorVel& r) { mk(g, r.p); mk(g.at(3), r.v); }
template <class G> VP_IN void mk(const G& g, RotationVel& r) { mk(g, r.R); mk(g.at(9), r.w); }
template <class G> VP_IN void mk(const G& g, FrameVel& r) { mk(g, r.M); mk(g.at(12), r.p); }
template <class G> VP_IN void mk(const G& g, TwistVel& r) { mk(g, r.vel); mk(g.at(6), r.rot); }
template <class G> VP_IN void mk(const G& g, doubleAcc& r) { r.t = g(0); r.d = g(1); r.dd = g(2); }
template <class G> VP_IN void mk(const G& g, VectorAcc& r) { mk(g, r.p); mk(g.at(3), r.v); mk(g.at(6), r.dv); }
template <class G> VP_IN void mk(const G& g, RotationAcc& r) { mk(g, r.R); mk(g.at(9), r.w); mk(g.at(12), r.dw); }
template <class G> VP_IN void mk(const G& g, FrameAcc& r) { mk(g, r.M); mk(g.at(15), r.p); }
template <class G> VP_IN void mk(const G& g, TwistAcc& r) { mk(g, r.vel); mk(g.at(9), r.rot); }
template <class G> VP_IN void mk(const G& g, JntArray& r) { r.resize(2); r(0) = g(0); r(1) = g(1); }
template <class G> VP_IN void mk(const G& g, JntArrayVel& r) { mk(g, r.q); mk(g.at(2), r.qdot); }
template <class G> VP_IN void mk(const G& g, JntArrayAcc& r) { mk(g, r.q); mk(g.at(2), r.qdot); mk(g.at(4), r.qdotdot); }
template <class G> VP_IN void mk(const G& g, JntSpaceInertiaMatrix& r) { r.resize(2); for (int i = 0; i < 4; ++i) r(i % 2, i / 2) = g(i); }
template <class G> VP_IN void mk(const G& g, Jacobian& r) { r.resize(1); for (int i = 0; i < 6; ++i) r(i, 0) = g(i); }
template <class T> VP_IN bool equ(const T& a, const T& b) { return a == b; }
// Equal is true when every component differs by less than the tolerance, and false when one differs by more
template <class T, int n> VP_IN void equal()
{
    T x, y; A a = {0}; B b = {0};
    mk(a, x); mk(b, y);
    double e = vp_pos(900);
    bool r = Equal(x, y, e), s = Equal(y, x, e), d = Equal(x, y), all = true, def = true;
    for (int k = 0; k < n; ++k)
    {
        if (dl(k) > e || dl(k) < -e) { vp_true(!r, "values that differ in one component by more than the tolerance are not equal"); vp_true(!s, "values that differ in one component by more than the tolerance are not equal"); }
        if (dl(k) > epsilon || dl(k) < -epsilon) vp_true(!d, "the default tolerance is epsilon");
        if (!(dl(k) < e && dl(k) > -e)) all = false;
        if (!(dl(k) < epsilon && dl(k) > -epsilon)) def = false;
    }
    if (all) { vp_true(r, "values that differ by less than the tolerance are equal"); vp_true(s, "values that differ by less than the tolerance are equal"); }
    if (def) vp_true(d, "the default tolerance is epsilon");
}
template <class T, int n> VP_IN void same()
{   // == is Equal with the default tolerance, != its contrary
    T x, y; A a = {0}; B b = {0};
    mk(a, x); mk(b, y);
    bool d = x == y, all = true;
    for (int k = 0; k < n; ++k)
    {
        if (dl(k) > epsilon || dl(k) < -epsilon) vp_true(!d, "== tells values apart");
        if (!(dl(k) < epsilon && dl(k) > -epsilon)) all = false;
    }
    if (all) vp_true(d, "== is true for the same values");
    T z(x); vp_true(z == x, "copies are equal"); z = y; vp_true(z == y, "assigned values are equal"); z = z; vp_true(z == y, "assigning a value to itself does not change it");
}
template <class T> VP_IN void differ()
{
    T x, y; A a = {0}; B b = {0};
    mk(a, x); mk(b, y);
    bool d = x == y, n = x != y;
    if (d) vp_true(!n, "!= is the contrary of =="); else vp_true(n, "!= is the contrary of ==");
}
template <class T, class U> VP_IN void lift(const T& x, U& l) { l = U(x); }
VP_IN void lift(const Twist& x, TwistAcc& l) { l = TwistAcc(VectorAcc(x.vel), VectorAcc(x.rot)); }
// a value without derivatives is equal to the value lifted with zero derivatives
template <class T, class U, int n> VP_IN void mixed()
{
    T x; U y; A a = {0}; B b = {0};
    mk(a, x); mk(b, y);
    U l; lift(x, l);
    double e = vp_pos(900);
    bool r = Equal(x, y, e), q = Equal(l, y, e), s = Equal(y, x, e), p = Equal(y, l, e);
    if (q) vp_true(r, "Equal with a constant"); else vp_true(!r, "Equal with a constant");
    if (p) vp_true(s, "Equal with a constant"); else vp_true(!s, "Equal with a constant");
}
template <class T, class U, int n> VP_IN void mixeq()
{
    T x; U y; A a = {0}; B b = {0};
    mk(a, x); mk(b, y);
    U l; lift(x, l);
    bool q = l == y, r = x == y, s = y == x, u = x != y, v = y != x;
    if (q) { vp_true(r, "== with a constant"); vp_true(s, "== with a constant"); vp_true(!u, "!= with a constant"); vp_true(!v, "!= with a constant"); }
    else { vp_true(!r, "== with a constant"); vp_true(!s, "== with a constant"); vp_true(u, "!= with a constant"); vp_true(v, "!= with a constant"); }
}
#define E_(T, n) VP_W w_equal_##T() { equal<T, n>(); }
#define S_(T, n) VP_W w_same_##T() { same<T, n>(); }
#define N_(T) VP_W w_differ_##T() { differ<T>(); }
#define M_(T, U, n) VP_W w_mixed_##U() { mixed<T, U, n>(); }
#define Q_(T, U, n) VP_W w_mixeq_##U() { mixeq<T, U, n>(); }
E_(double, 1) E_(Vector, 3) E_(Vector2, 2) E_(Rotation2, 2) E_(Frame2, 4) E_(Rotation, 9) E_(Frame, 12) E_(Twist, 6) E_(Wrench, 6)
E_(doubleVel, 2) E_(VectorVel, 6) E_(RotationVel, 12) E_(FrameVel, 18) E_(TwistVel, 12)
E_(doubleAcc, 3) E_(VectorAcc, 9) E_(RotationAcc, 15) E_(FrameAcc, 24) E_(TwistAcc, 18)
E_(JntArray, 2) E_(JntArrayVel, 4) E_(JntArrayAcc, 6) E_(JntSpaceInertiaMatrix, 4) E_(Jacobian, 6)
S_(Vector, 3) S_(Vector2, 2) S_(Rotation, 9) S_(Frame, 12) S_(Twist, 6) S_(Wrench, 6)
S_(doubleVel, 2) S_(VectorVel, 6) S_(RotationVel, 12) S_(FrameVel, 18) S_(TwistVel, 12) S_(doubleAcc, 3)
S_(JntArray, 2) S_(JntSpaceInertiaMatrix, 4) S_(Jacobian, 6)
N_(Vector) N_(Vector2) N_(Rotation) N_(Frame) N_(Twist) N_(Wrench) N_(doubleVel) N_(VectorVel) N_(RotationVel) N_(FrameVel) N_(TwistVel) N_(doubleAcc) N_(Jacobian)
M_(Vector, VectorVel, 6) M_(Rotation, RotationVel, 12) M_(Frame, FrameVel, 18) M_(Twist, TwistVel, 12)
M_(Vector, VectorAcc, 9) M_(Rotation, RotationAcc, 15) M_(Frame, FrameAcc, 24) M_(Twist, TwistAcc, 18)
Q_(Vector, VectorVel, 6) Q_(Rotation, RotationVel, 12) Q_(Frame, FrameVel, 18) Q_(Twist, TwistVel, 12)
VP_W w_sizes()
{
    JntArray a(2), b(3), z;
    JntSpaceInertiaMatrix m(2), n(3);
    Jacobian j(2), k(3);
    double e = vp_pos(900);
    vp_true(!Equal(a, b, e), "arrays of different sizes are not equal"); vp_true(!Equal(b, a, e), "arrays of different sizes are not equal"); vp_true(!Equal(a, z, e), "arrays of different sizes are not equal");
    vp_true(!Equal(m, n, e), "matrices of different sizes are not equal"); vp_true(!Equal(n, m, e), "matrices of different sizes are not equal");
    vp_true(!Equal(j, k, e), "Jacobians of different sizes are not equal"); vp_true(j != k, "Jacobians of different sizes are not equal");
    vp_true(!Equal(JntArrayVel(a, a), JntArrayVel(b, b), e), "arrays of different sizes are not equal");
    vp_true(!Equal(JntArrayAcc(a, a, a), JntArrayAcc(b, b, b), e), "arrays of different sizes are not equal");
}
template <class T> VP_IN void zero(const T& z)
{
    T x; A a = {0}; mk(a, x); SetToZero(x);
    vp_true(Equal(x, z, vp_pos(900)), "SetToZero sets everything to zero");
}
VP_W w_zero()
{
    zero(Vector(0, 0, 0)); zero(Twist(Vector(0, 0, 0), Vector(0, 0, 0))); zero(Wrench(Vector(0, 0, 0), Vector(0, 0, 0))); zero(Vector2(0, 0));
    zero(JntArray(2)); zero(JntArrayVel(2)); zero(JntArrayAcc(2)); zero(JntSpaceInertiaMatrix(2)); zero(Jacobian(1));
    zero(doubleVel(0)); zero(VectorVel(Vector(0, 0, 0), Vector(0, 0, 0))); zero(TwistVel(Twist(Vector(0, 0, 0), Vector(0, 0, 0)), Twist(Vector(0, 0, 0), Vector(0, 0, 0))));
}
VP_W w_columns()
{
    Jacobian a(2), b(2);
    for (int j = 0; j < 2; ++j) for (int i = 0; i < 6; ++i) a(i, j) = b(i, j) = vp_c(6 * j + i);
    b(vp_int(1) > 0 ? 0 : 5, 1) += vp_c(200);
    double e = vp_pos(900);
    bool r = Equal(a, b, e);
    if (dl(0) > e || dl(0) < -e) vp_true(!r, "every column is compared");
    if (dl(0) < e && dl(0) > -e) vp_true(r, "every column is compared");
}
