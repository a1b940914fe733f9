// C05: acceleration-level types carry (value, first, second time derivative of the value)
#include "acc.hpp"
VP_W w_vectoracc_sum()
{
    VectorAcc a = av(0), b = av(10);
    Vector k = vec(0), p = fvec(0, 0), q = fvec(10, 0);
    V(a, p, "VectorAcc(p,v,dv)"); V(VectorAcc(k), k, "VectorAcc(const)");
    VectorAcc two(p, vec(20)); EQ(two.dv, Vector::Zero(), "VectorAcc(p,v) has no acceleration");
    V(a + b, p + q, "a+b"); V(a - b, p - q, "a-b"); V(a + k, p + k, "a+k"); V(k + a, k + p, "k+a");
    V(a - k, p - k, "a-k"); V(k - a, k - p, "k-a"); V(-a, -p, "-a");
    VectorAcc c = a; c += b; V(c, p + q, "+=");
    c = a; c -= b; V(c, p - q, "-=");
    c = a; c.ReverseSign(); V(c, -p, "ReverseSign");
    V(VectorAcc::Zero(), Vector::Zero(), "Zero");
    c = b; c = a; V(c, p, "operator="); c = b; c = k; V(c, k, "operator=(const)");
}
VP_W w_vectoracc_prod()
{
    VectorAcc a = av(0), b = av(10);
    doubleAcc s = ad(30);
    double c = vp_c(50), f = vp_f(30, 0);
    Vector k = vec(0), p = fvec(0, 0), q = fvec(10, 0);
    V(a * b, CROSS(p, q), "a*b cross"); V(a * k, CROSS(p, k), "a*k cross"); V(k * a, CROSS(k, p), "k*a cross");
    V(a * c, p * c, "a*c"); V(c * a, p * c, "c*a"); V(s * a, p * f, "s*a"); V(a * s, p * f, "a*s");
    V(a / c, p / c, "a/c"); V(a / s, p / f, "a/s");
    V(dot(a, b), DOT(p, q), "dot(a,b)"); V(dot(a, k), DOT(p, k), "dot(a,k)"); V(dot(k, a), DOT(k, p), "dot(k,a)");
    Rotation R = rot(0);
    V(R * a, R * p, "R*a");
}
VP_W w_vectoracc_norm()
{
    VectorAcc a = av(0);
    vp_assume(a.p(0) > 1e-2 && a.p(0) >= a.p(1) && a.p(0) >= a.p(2) && a.p(1) >= 0 && a.p(2) >= 0);
    doubleAcc n = a.Norm();
    EQ(n.t, a.p.Norm(), "Norm value");
    D(n, "Norm derivatives");
}
VP_W w_rotationacc()
{
    RotationAcc A = ar(0), B = ar(1);
    Rotation a = mrot(0), b = mrot(1), K = rot(5);
    VectorAcc x = av(0);
    Vector k = vec(0), p = fvec(0, 0);
    V(A, a, "RotationAcc(R,w,dw)"); V(RotationAcc(K), K, "RotationAcc(const)");
    V(A * B, a * b, "A*B"); V(A * K, a * K, "A*K"); V(K * A, K * a, "K*A");
    V(A.Inverse(), a.Inverse(), "Inverse");
    V(A * x, a * p, "A*x"); V(A * k, a * k, "A*k"); V(A.Inverse(x), a.Inverse(p), "Inverse(x)"); V(A.Inverse(k), a.Inverse(k), "Inverse(k)");
    V(RotationAcc::Identity(), Rotation::Identity(), "Identity");
    RotationAcc C = B; C = A; V(C, a, "operator="); C = K; V(C, K, "operator=(const)");
}
VP_W w_frameacc()
{
    FrameAcc A = af(0), B = af(1);
    Frame a(mrot(0), fvec(1000, 0)), b(mrot(1), fvec(1010, 0)), K = frm(5);
    VectorAcc x = av(0);
    Vector k = vec(0), p = fvec(0, 0);
    V(A, a, "FrameAcc(M,p)"); V(FrameAcc(K), K, "FrameAcc(const)");
    V(FrameAcc(a, Twist(fvec(1000, 1), momega(0, 0)), Twist(fvec(1000, 2), momega(0, 1))), a, "FrameAcc(F,t,dt)");
    EQ(A.GetFrame(), a, "GetFrame"); EQ(A.GetTwist(), Twist(fvec(1000, 1), momega(0, 0)), "GetTwist"); EQ(A.GetAccTwist(), Twist(fvec(1000, 2), momega(0, 1)), "GetAccTwist");
    V(A * B, a * b, "A*B"); V(A * K, a * K, "A*K"); V(K * A, K * a, "K*A");
    V(A.Inverse(), a.Inverse(), "Inverse");
    V(A * x, a * p, "A*x"); V(A * k, a * k, "A*k"); V(A.Inverse(x), a.Inverse(p), "Inverse(x)"); V(A.Inverse(k), a.Inverse(k), "Inverse(k)");
    V(FrameAcc::Identity(), Frame::Identity(), "Identity");
    FrameAcc C = B; C = A; V(C, a, "operator="); C = K; V(C, K, "operator=(const)");
}
VP_W w_twistacc()
{
    TwistAcc a = at(0), b = at(10);
    doubleAcc s = ad(30);
    double c = vp_c(50), f = vp_f(30, 0);
    Twist p(fvec(0, 0), fvec(3, 0)), q(fvec(10, 0), fvec(13, 0));
    V(a, p, "TwistAcc(vel,rot)"); EQ(a.GetTwist(), p, "GetTwist"); EQ(a.GetTwistDot(), Twist(fvec(0, 1), fvec(3, 1)), "GetTwistDot");
    V(a + b, p + q, "a+b"); V(a - b, p - q, "a-b"); V(-a, -p, "-a");
    V(a * c, p * c, "a*c"); V(c * a, p * c, "c*a"); V(a / c, p / c, "a/c");
    V(a * s, p * f, "a*s"); V(s * a, p * f, "s*a"); V(a / s, p / f, "a/s");
    TwistAcc d = a; d += b; V(d, p + q, "+="); d = a; d -= b; V(d, p - q, "-=");
    d = a; d.ReverseSign(); V(d, -p, "ReverseSign"); V(TwistAcc::Zero(), Twist::Zero(), "Zero");
}
VP_W w_twistacc_frames()
{
    TwistAcc a = at(0);
    Twist p(fvec(0, 0), fvec(3, 0)), K = twi(20);
    RotationAcc R = ar(0);
    Rotation r = mrot(0);
    FrameAcc F = af(1);
    Frame f(mrot(1), fvec(1010, 0));
    V(R * a, r * p, "R*t"); V(R * K, r * K, "R*K"); V(R.Inverse(a), r.Inverse(p), "R.Inverse(t)"); V(R.Inverse(K), r.Inverse(K), "R.Inverse(K)");
    V(F * a, f * p, "F*t"); V(F * K, f * K, "F*K"); V(F.Inverse(a), f.Inverse(p), "F.Inverse(t)"); V(F.Inverse(K), f.Inverse(K), "F.Inverse(K)");
    VectorAcc x = av(10);
    V(a.RefPoint(x), p.RefPoint(fvec(10, 0)), "RefPoint");
}
