// C06: automatic-differentiation numbers obey the chain rule, for every operator and elementary function
#include "kdl.hpp"
#include "utilities/rall1d.h"
#include "utilities/rall2d.h"
typedef Rall1d<double> D1;
typedef Rall2d<double> D2;
typedef Rall1d<D1, D1, double> N1;      // nested
static D1 d1(int i) { return D1(vp_f(i, 0), vp_f(i, 1)); }
static D2 d2(int i) { return D2(vp_f(i, 0), vp_f(i, 1), vp_f(i, 2)); }
static N1 n1(int i) { return N1(D1(vp_f(i, 0), vp_f(i, 1)), D1(vp_f(i, 1), vp_f(i, 2))); }
static void CK(const D1& a, double v, const char* l) { vp_eq(a.t, v, l); vp_ddt(a.t, a.grad, l); }
static void CK(const D2& a, double v, const char* l) { vp_eq(a.t, v, l); vp_ddt(a.t, a.d, l); vp_ddt(a.d, a.dd, l); }
static void CK(const N1& a, double v, const char* l)
{
    vp_eq(a.t.t, v, l); vp_ddt(a.t.t, a.grad.t, l); vp_eq(a.t.grad, a.grad.t, l); vp_ddt(a.t.grad, a.grad.grad, l);
}
template <class X> inline __attribute__((always_inline)) void arith(const X& a, const X& b)
{
    double x = vp_f(0, 0), y = vp_f(1, 0), c = vp_c(0), e = vp_c(1);
    CK(a + b, x + y, "a+b"); CK(a - b, x - y, "a-b"); CK(a * b, x * y, "a*b"); CK(a / b, x / y, "a/b"); CK(-a, -x, "-a");
    CK(a * c, x * c, "a*c"); CK(c * a, x * c, "c*a"); CK(a / c, x / c, "a/c");
    X t(a); t += b; CK(t, x + y, "a+=b"); t = a; t -= b; CK(t, x - y, "a-=b");
    t = a; t *= c; CK(t, x * c, "a*=c"); t = a; t /= c; CK(t, x / c, "a/=c");
    t = b; t = a; CK(t, x, "copy");
    t = a; t += t; CK(t, 2 * x, "a+=a"); t = a; t -= t; CK(t, 0, "a-=a");
    t = a; SetToZero(t); CK(t, 0, "SetToZero"); CK(X::Zero(), 0, "Zero"); CK(X::Identity(), 1, "Identity");
}
template <class X> inline __attribute__((always_inline)) void arith2(const X& a, const X& b)
{
    double x = vp_f(0, 0), y = vp_f(1, 0), c = vp_c(0), e = vp_c(1);
    X t(a); t = a; t *= b; CK(t, x * y, "a*=b"); t = a; t /= b; CK(t, x / y, "a/=b");
    t = a; t *= t; CK(t, x * x, "a*=a"); t = a; t /= t; CK(t, 1, "a/=a");
    CK(LinComb(c, a, e, b), c * x + e * y, "LinComb");
    X r(a); LinCombR(c, a, e, b, r); CK(r, c * x + e * y, "LinCombR");
    CK(a + c, x + c, "a+c"); CK(c + a, x + c, "c+a"); CK(a - c, x - c, "a-c"); CK(c - a, c - x, "c-a"); CK(c / a, c / x, "c/a");
    t = a; t += c; CK(t, x + c, "a+=c"); t = a; t -= c; CK(t, x - c, "a-=c");
    t = b; t = c; CK(t, c, "constant");
    CK(X(c), c, "X(const)");
}
template <class X> inline __attribute__((always_inline)) void funs(const X& a)
{
    double x = vp_f(0, 0);
    CK(exp(a), exp(x), "exp"); CK(log(a), log(x), "log"); CK(sin(a), sin(x), "sin"); CK(cos(a), cos(x), "cos");
    CK(sinh(a), sinh(x), "sinh"); CK(cosh(a), cosh(x), "cosh"); CK(tanh(a), tanh(x), "tanh");
    CK(sqr(a), x * x, "sqr"); CK(sqrt(a), sqrt(x), "sqrt"); CK(tan(a), tan(x), "tan");
    CK(pow(a, 3.0), x * x * x, "pow 3"); CK(pow(a, 2.5), pow(x, 2.5), "pow 5/2"); CK(pow(a, -2.0), 1 / (x * x), "pow -2");
}
template <class X> inline __attribute__((always_inline)) void invfuns(const X& a, const X& b)
{
    double x = vp_f(0, 0), y = vp_f(1, 0);
    CK(atan(a), atan(x), "atan"); CK(asin(a), asin(x), "asin"); CK(acos(a), acos(x), "acos");
    CK(atan2(a, b), atan2(x, y), "atan2"); CK(hypot(a, b), hypot(x, y), "hypot");
}
VP_W w_rall1d_arith() { arith(d1(0), d1(1)); }
VP_W w_rall1d_arith2() { arith2(d1(0), d1(1)); }
VP_W w_rall1d_funs() { funs(d1(0)); }
VP_W w_rall1d_inv() { invfuns(d1(0), d1(1)); }
VP_W w_rall2d_arith() { arith(d2(0), d2(1)); }
VP_W w_rall2d_arith2() { arith2(d2(0), d2(1)); }
VP_W w_rall2d_funs() { funs(d2(0)); }
VP_W w_rall2d_inv() { invfuns(d2(0), d2(1)); }
VP_W w_nested_arith() { arith(n1(0), n1(1)); }
VP_W w_nested_funs()
{
    N1 a = n1(0);
    double x = vp_f(0, 0);
    CK(exp(a), exp(x), "exp"); CK(log(a), log(x), "log"); CK(sin(a), sin(x), "sin"); CK(cos(a), cos(x), "cos");
    CK(sqr(a), x * x, "sqr"); CK(sinh(a), sinh(x), "sinh"); CK(cosh(a), cosh(x), "cosh"); CK(tan(a), tan(x), "tan");
}
VP_W w_values()
{
    D1 a = d1(0); D2 b = d2(1);
    EQ(a.value(), vp_f(0, 0), "value()"); EQ(a.deriv(), vp_f(0, 1), "deriv()"); EQ(a.Value(), vp_f(0, 0), "Value()"); EQ(a.Gradient(), vp_f(0, 1), "Gradient()");
    EQ(b.Value(), vp_f(1, 0), "Value()"); EQ(b.D(), vp_f(1, 1), "D()"); EQ(b.DD(), vp_f(1, 2), "DD()");
    D2 c(vp_f(2, 0), vp_c(1)); EQ(c.dd, 0, "two-argument constructor has zero second derivative");
}
