// C11: planar vectors, rotations and frames are the motions of the plane, and agree with the spatial ones
#include "kdl.hpp"
#include "frames.cpp"
static inline Vector2 v2(int id) { return Vector2(vp_c(id), vp_c(id + 1)); }
static inline Rotation2 r2(int id) { return Rotation2(vp_c(id)); }           // of any angle
static inline Frame2 f2(int id) { return Frame2(r2(id), v2(id + 1)); }
static inline Vector up(const Vector2& v) { return Vector(v(0), v(1), 0); }
static inline Rotation up(const Rotation2& r) { return Rotation(r(0, 0), r(0, 1), 0, r(1, 0), r(1, 1), 0, 0, 0, 1); }
static inline Frame up(const Frame2& f) { return Frame(up(f.M), up(f.p)); }
static inline void EQ(const Rotation2& a, const Rotation2& b, const char* l) { for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) vp_eq(a(i, j), b(i, j), l); }
static inline void EQ(const Frame2& a, const Frame2& b, const char* l) { EQ(a.M, b.M, l); EQ(a.p, b.p, l); }
VP_W w_vectors()
{
    Vector2 a = v2(0), b = v2(3), c = v2(6), r, z;
    double s = vp_c(20), t = vp_c(21);
    vp_assume(s > 0.1 || s < -0.1);
    EQ(z, Vector2(0, 0), "a new vector is zero"); EQ(Vector2::Zero(), Vector2(0, 0), "Zero");
    EQ(up(a + b), up(a) + up(b), "sum"); EQ(up(a - b), up(a) - up(b), "difference"); EQ(up(-a), -up(a), "negative");
    EQ(up(a * s), up(a) * s, "multiple"); EQ(up(s * a), up(a) * s, "multiple"); EQ(up(a / s), up(a) / s, "quotient");
    r = a; r += b; EQ(r, a + b, "+="); r = a; r -= b; EQ(r, a - b, "-="); r = a; r.ReverseSign(); EQ(r, -a, "ReverseSign");
    r = a; r += r; EQ(r, a * 2, "added to itself"); r = a; r -= r; EQ(r, z, "subtracted from itself");
    SetToZero(r); EQ(r, z, "SetToZero");
    EQ(a.x(), a(0), "x"); EQ(a.y(), a(1), "y"); EQ(a[0], a(0), "element"); EQ(a[1], a(1), "element");
    r.x(s); r.y(t); EQ(r, Vector2(s, t), "x, y write"); r(0) = t; r[1] = s; EQ(r, Vector2(t, s), "elements are written");
    Vector2 d(a); EQ(d, a, "copy");
}
VP_W w_norm()
{
    Vector2 a = v2(0);
    double n = a.Norm();
    vp_assume(a(0) > 1e-3 || a(0) < -1e-3 || a(1) > 1e-3 || a(1) < -1e-3);
    EQ(n * n, a(0) * a(0) + a(1) * a(1), "Norm"); vp_true(n > 0, "norms are positive");
    Vector2 u = a;
    EQ(u.Normalize(), n, "Normalize returns the norm"); EQ(u * n, a, "direction");
}
VP_W w_norm_zero()
{
    Vector2 z;
    EQ(z.Norm(), 0, "the norm of zero"); EQ(z.Normalize(), 0, "the norm of zero"); EQ(z, Vector2(1, 0), "zero is normalised to the x axis");
}
VP_W w_rotations()
{
    Rotation2 a = r2(0), b = r2(1), c = r2(2), r;
    Vector2 v = v2(10), w = v2(13);
    EQ(r, Rotation2::Identity(), "a new rotation is the identity"); EQ(up(Rotation2::Identity()), Rotation::Identity(), "identity");
    EQ(up(a), Rotation::RotZ(vp_c(0)), "the matrix of a planar rotation is that of the rotation about z");
    EQ(up(Rotation2::Rot(vp_c(0))), Rotation::RotZ(vp_c(0)), "Rot"); r.SetRot(vp_c(0)); EQ(r, a, "SetRot");
    EQ(Rotation2(cos(vp_c(0)), sin(vp_c(0))), a, "from cosine and sine");
    EQ(up(a * v), up(a) * up(v), "rotated vector"); EQ(up(a * b), up(a) * up(b), "product"); EQ((a * b) * c, a * (b * c), "associative"); EQ((a * b) * v, a * (b * v), "action");
    EQ(up(a.Inverse()), up(a).Inverse(), "inverse"); r = a; r.SetInverse(); EQ(r, a.Inverse(), "SetInverse"); EQ(a.Inverse(v), a.Inverse() * v, "inverse applied"); EQ(a * a.Inverse(), Rotation2::Identity(), "inverse");
    r = a; r.SetIdentity(); EQ(r, Rotation2::Identity(), "SetIdentity"); Rotation2 d(a); EQ(d, a, "copy");
    r = a; r = r * r; EQ(r, a * a, "squared in place");
}
VP_W w_angle() { vp_assume(vp_c(0) > -3 && vp_c(0) < 3); Rotation2 a = r2(0); EQ(Rotation2::Rot(a.GetRot()), a, "the rotation of the angle got"); }
VP_W w_frames()
{
    Frame2 F = f2(0), G = f2(10), H = f2(20), r;
    Vector2 v = v2(40);
    EQ(r, Frame2::Identity(), "a new frame is the identity"); EQ(up(Frame2::Identity()), Frame::Identity(), "identity");
    EQ(up(Frame2(r2(0))), Frame(up(r2(0))), "frame of a rotation"); EQ(up(Frame2(v)), Frame(up(v)), "frame of a vector");
    EQ(up(F * v), up(F) * up(v), "point"); EQ(up(F * G), up(F) * up(G), "product"); EQ((F * G) * H, F * (G * H), "associative"); EQ((F * G) * v, F * (G * v), "action");
    EQ(up(F.Inverse()), up(F).Inverse(), "inverse"); EQ(F * F.Inverse(), Frame2::Identity(), "inverse"); EQ(F.Inverse(v), F.Inverse() * v, "inverse applied");
    r = F; r.SetInverse(); EQ(r, F.Inverse(), "SetInverse"); r.SetIdentity(); EQ(r, Frame2::Identity(), "SetIdentity");
    Frame2 d(F); EQ(d, F, "copy"); d = d; EQ(d, F, "assigned to itself");
    const Frame2& k = F;
    for (int i = 0; i < 2; ++i)
    {
        for (int j = 0; j < 2; ++j) { EQ(F(i, j), F.M(i, j), "elements"); EQ(k(i, j), F.M(i, j), "elements"); }
        EQ(F(i, 2), F.p(i), "elements"); EQ(k(i, 2), F.p(i), "elements"); EQ(F(2, i), 0, "elements"); EQ(k(2, i), 0, "elements");
    }
    EQ(F(2, 2), 1, "elements"); EQ(k(2, 2), 1, "elements");
}
VP_W w_planes()
{
    Vector2 v = v2(0), p;
    Vector w = vec(10), x;
    Frame F = frm(2);
    x.Set2DXY(v); EQ(x, Vector(v(0), v(1), 0), "in the XY plane"); p.Set3DXY(x); EQ(p, v, "and back"); p.Set3DXY(w); EQ(p, Vector2(w(0), w(1)), "projected to the XY plane");
    x.Set2DYZ(v); EQ(x, Vector(0, v(0), v(1)), "in the YZ plane"); p.Set3DYZ(x); EQ(p, v, "and back"); p.Set3DYZ(w); EQ(p, Vector2(w(1), w(2)), "projected to the YZ plane");
    x.Set2DZX(v); EQ(x, Vector(v(1), 0, v(0)), "in the ZX plane"); p.Set3DZX(x); EQ(p, v, "and back"); p.Set3DZX(w); EQ(p, Vector2(w(2), w(0)), "projected to the ZX plane");
    x.Set2DPlane(F, v); EQ(x, F * Vector(v(0), v(1), 0), "in the XY plane of a frame"); p.Set3DPlane(F, x); EQ(p, v, "and back");
    p.Set3DPlane(F, w); Vector l = F.Inverse(w); EQ(p, Vector2(l(0), l(1)), "projected to the XY plane of a frame");
}
