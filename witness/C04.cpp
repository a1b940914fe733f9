// C04: velocity-level types carry (value, time derivative of the value)
#include "vel.hpp"

VP_W w_doublevel()
{
    doubleVel a = md(0), b = md(1);
    double c = vp_c(0);
    double x = vp_f(0, 0), y = vp_f(1, 0);
    V(a + b, x + y, "a+b"); V(a - b, x - y, "a-b"); V(a * b, x * y, "a*b"); V(a / b, x / y, "a/b"); V(-a, -x, "-a");
    V(a + c, x + c, "a+c"); V(c + a, c + x, "c+a"); V(a - c, x - c, "a-c"); V(c - a, c - x, "c-a");
    V(a * c, x * c, "a*c"); V(c * a, c * x, "c*a"); V(a / c, x / c, "a/c"); V(c / a, c / x, "c/a");
    V(sin(a), sin(x), "sin"); V(cos(a), cos(x), "cos");
    V(diff(a, b, vp_c(1)), (y - x) / vp_c(1), "diff"); V(addDelta(a, b, vp_c(1)), x + y * vp_c(1), "addDelta");
}
VP_W w_vectorvel_sum()
{
    VectorVel a = mv(0), b = mv(10);
    Vector k = vec(0), p = fvec(0, 0), q = fvec(10, 0);
    V(a, p, "VectorVel(p,v)"); V(VectorVel(k), k, "VectorVel(const)");
    EQ(a.value(), p, "value()"); EQ(a.deriv(), fvec(0, 1), "deriv()");
    V(a + b, p + q, "a+b"); V(a - b, p - q, "a-b"); V(a + k, p + k, "a+k"); V(k + a, k + p, "k+a");
    V(a - k, p - k, "a-k"); V(k - a, k - p, "k-a"); V(-a, -p, "-a");
    VectorVel c = a; c += b; V(c, p + q, "+=");
    c = a; c -= b; V(c, p - q, "-=");
    c = a; c.ReverseSign(); V(c, -p, "ReverseSign");
    c = a; SetToZero(c); V(c, Vector::Zero(), "SetToZero"); V(VectorVel::Zero(), Vector::Zero(), "Zero");
    c = b; c = a; V(c, p, "operator="); c = b; c = k; V(c, k, "operator=(const)");
}
VP_W w_vectorvel_prod()
{
    VectorVel a = mv(0), b = mv(10);
    doubleVel s = md(30);
    double c = vp_c(50), f = vp_f(30, 0);
    Vector k = vec(0), p = fvec(0, 0), q = fvec(10, 0);
    V(a * b, CROSS(p, q), "a*b cross"); V(a * k, CROSS(p, k), "a*k cross"); V(k * a, CROSS(k, p), "k*a cross");
    V(a * c, p * c, "a*c"); V(c * a, p * c, "c*a"); V(s * a, p * f, "s*a"); V(a * s, p * f, "a*s");
    V(a / c, p / c, "a/c"); V(a / s, p / f, "a/s");
    V(dot(a, b), DOT(p, q), "dot(a,b)"); V(dot(a, k), DOT(p, k), "dot(a,k)"); V(dot(k, a), DOT(k, p), "dot(k,a)");
    Rotation R = rot(0);
    V(R * a, R * p, "R*a");
}
VP_W w_vectorvel_norm()
{
    VectorVel a = mv(0);
    vp_assume(a.p(0) > 1e-2 && a.p(0) >= a.p(1) && a.p(0) >= a.p(2) && a.p(1) >= 0 && a.p(2) >= 0);
    doubleVel n = a.Norm();
    EQ(n.t, a.p.Norm(), "Norm value");
    D(n, "Norm derivative");
}
VP_W w_rotationvel()
{
    RotationVel A = mr(0), B = mr(1);
    Rotation a = mrot(0), b = mrot(1), K = rot(5);
    VectorVel x = mv(0);
    Vector k = vec(0), p = fvec(0, 0);
    V(A, a, "RotationVel(R,w)"); V(RotationVel(K), K, "RotationVel(const)");
    EQ(A.value(), a, "value()"); EQ(A.deriv(), momega(0, 0), "deriv()");
    V(A * B, a * b, "A*B"); V(A * K, a * K, "A*K"); V(K * A, K * a, "K*A");
    V(A.Inverse(), a.Inverse(), "Inverse");
    V(A * x, a * p, "A*x"); V(A * k, a * k, "A*k"); V(A.Inverse(x), a.Inverse(p), "Inverse(x)"); V(A.Inverse(k), a.Inverse(k), "Inverse(k)");
    V(A.UnitX(), a.UnitX(), "UnitX"); V(A.UnitY(), a.UnitY(), "UnitY"); V(A.UnitZ(), a.UnitZ(), "UnitZ");
    V(RotationVel::Identity(), Rotation::Identity(), "Identity");
    RotationVel C = B; C = A; V(C, a, "operator="); C = K; V(C, K, "operator=(const)");
}
VP_W w_rotationvel_axes()
{
    doubleVel s = md(0);
    double f = vp_f(0, 0);
    RotationVel A = mr(0), C;
    Rotation a = mrot(0), c;
    V(RotationVel::RotX(s), Rotation::RotX(f), "RotX"); V(RotationVel::RotY(s), Rotation::RotY(f), "RotY"); V(RotationVel::RotZ(s), Rotation::RotZ(f), "RotZ");
    C = A; c = a; C.DoRotX(s); c.DoRotX(f); V(C, c, "DoRotX");
    C = A; c = a; C.DoRotY(s); c.DoRotY(f); V(C, c, "DoRotY");
    C = A; c = a; C.DoRotZ(s); c.DoRotZ(f); V(C, c, "DoRotZ");
    Vector n = rot(3).UnitZ();
    V(RotationVel::Rot2(Vector(0, 0, 1), s), Rotation::RotZ(f), "Rot2 about z");
    V(RotationVel::Rot2(Vector(0, 1, 0), s), Rotation::RotY(f), "Rot2 about y");
    V(RotationVel::Rot2(Vector(1, 0, 0), s), Rotation::RotX(f), "Rot2 about x");
    V(RotationVel::Rot2(n, s), Rotation::Rot2(n, f), "Rot2 about a general unit axis");
}
VP_W w_rotationvel_rot()
{
    doubleVel s = md(0);
    double f = vp_f(0, 0);
    Vector v = vec(20);
    vp_assume(v(0) > 1e-2 && v(0) >= v(1) && v(0) >= v(2) && v(1) >= 0 && v(2) >= 0);
    V(RotationVel::Rot(v, s), Rotation::Rot(v, f), "Rot about any axis");
}
VP_W w_framevel()
{
    FrameVel A = mf(0), B = mf(1);
    Frame a(mrot(0), fvec(1000, 0)), b(mrot(1), fvec(1010, 0)), K = frm(5);
    VectorVel x = mv(0);
    Vector k = vec(0), p = fvec(0, 0);
    V(A, a, "FrameVel(M,p)"); V(FrameVel(K), K, "FrameVel(const)");
    V(FrameVel(a, Twist(fvec(1000, 1), momega(0, 0))), a, "FrameVel(F,t)");
    EQ(A.value(), a, "value()"); EQ(A.GetFrame(), a, "GetFrame()");
    EQ(A.deriv(), Twist(fvec(1000, 1), momega(0, 0)), "deriv()"); EQ(A.GetTwist(), A.deriv(), "GetTwist()");
    V(A * B, a * b, "A*B"); V(A * K, a * K, "A*K"); V(K * A, K * a, "K*A");
    V(A.Inverse(), a.Inverse(), "Inverse");
    V(A * x, a * p, "A*x"); V(A * k, a * k, "A*k"); V(A.Inverse(x), a.Inverse(p), "Inverse(x)"); V(A.Inverse(k), a.Inverse(k), "Inverse(k)");
    V(FrameVel::Identity(), Frame::Identity(), "Identity");
    FrameVel C = B; C = A; V(C, a, "operator="); C = K; V(C, K, "operator=(const)");
}
VP_W w_twistvel()
{
    TwistVel a = mt(0), b = mt(10);
    doubleVel s = md(30);
    double c = vp_c(50), f = vp_f(30, 0);
    Twist p(fvec(0, 0), fvec(3, 0)), q(fvec(10, 0), fvec(13, 0)), pd(fvec(0, 1), fvec(3, 1)), K = twi(20);
    V(a, p, "TwistVel(vel,rot)"); V(TwistVel(p, pd), p, "TwistVel(t,tdot)"); V(TwistVel(K), K, "TwistVel(const)");
    EQ(a.value(), p, "value()"); EQ(a.deriv(), pd, "deriv()"); EQ(a.GetTwist(), p, "GetTwist"); EQ(a.GetTwistDot(), pd, "GetTwistDot");
    V(a + b, p + q, "a+b"); V(a - b, p - q, "a-b"); V(-a, -p, "-a");
    V(a * c, p * c, "a*c"); V(c * a, p * c, "c*a"); V(a / c, p / c, "a/c");
    V(a * s, p * f, "a*s"); V(s * a, p * f, "s*a"); V(a / s, p / f, "a/s");
    TwistVel d = a; d += b; V(d, p + q, "+="); d = a; d -= b; V(d, p - q, "-=");
    d = a; d.ReverseSign(); V(d, -p, "ReverseSign"); d = a; SetToZero(d); V(d, Twist::Zero(), "SetToZero"); V(TwistVel::Zero(), Twist::Zero(), "Zero");
}
VP_W w_twistvel_frames()
{
    TwistVel a = mt(0);
    Twist p(fvec(0, 0), fvec(3, 0)), K = twi(20);
    RotationVel R = mr(0);
    Rotation r = mrot(0);
    FrameVel F = mf(1);
    Frame f(mrot(1), fvec(1010, 0));
    V(R * a, r * p, "R*t"); V(R * K, r * K, "R*K"); V(R.Inverse(a), r.Inverse(p), "R.Inverse(t)"); V(R.Inverse(K), r.Inverse(K), "R.Inverse(K)");
    V(F * a, f * p, "F*t"); V(F * K, f * K, "F*K"); V(F.Inverse(a), f.Inverse(p), "F.Inverse(t)"); V(F.Inverse(K), f.Inverse(K), "F.Inverse(K)");
    VectorVel x = mv(10);
    V(a.RefPoint(x), p.RefPoint(fvec(10, 0)), "RefPoint");
}
VP_W w_delta()
{
    VectorVel a = mv(0), b = mv(10);
    double dt = vp_pos(0);
    V(diff(a, b, dt), diff(a.p, b.p, dt), "diff of vectors"); V(addDelta(a, b, dt), addDelta(a.p, b.p, dt), "addDelta of vectors");
    EQ(addDelta(a, diff(a, b, dt), dt), b, "addDelta(a, diff(a,b)) == b");
    FrameVel A = mf(0), B = mf(1);
    TwistVel d = diff(A, B, dt);
    EQ(d.vel, diff(A.p, B.p, dt), "diff of frames: translational part");
    EQ(d.rot, diff(A.M, B.M, dt), "diff of frames: rotational part");
    EQ(diff(A.M, B.M, dt).p, diff(A.M.R, B.M.R, dt), "diff of rotations: value");
    EQ(diff(A.M, B.M, dt).v, diff(A.M.w, B.M.w, dt), "diff of rotations: velocity");
    TwistVel t(VectorVel(vec(40), vec(43)), VectorVel(vec(46), vec(49)));
    FrameVel G = addDelta(A, t, dt);
    EQ(G.p, addDelta(A.p, t.vel, dt), "addDelta of frames: translation");
    EQ(G.M.w, addDelta(A.M.w, t.rot.v, dt), "addDelta of frames: angular velocity");
    EQ(G.M.R, addDelta(A.M.R, t.rot.p, dt), "addDelta of frames: rotation");
}
