// C01: rotations and frames are the rigid-motion group acting on points.
#include "kdl.hpp"
#include "frames.cpp"

VP_W w_vector_space()
{
    Vector a = vec(0), b = vec(3), c = vec(6);
    double s = vp_c(20), t = vp_c(21);
    EQ((a + b) + c, a + (b + c), "vector +: associative");
    EQ(a + b, b + a, "vector +: commutative");
    EQ(a - b, a + (-b), "vector a-b == a+(-b)");
    EQ(a - a, Vector::Zero(), "vector a-a == 0");
    EQ(a * s, s * a, "vector scaling commutes");
    EQ((s + t) * a, s * a + t * a, "vector scaling distributes");
    EQ((a * s) / s, a, "vector a*s/s == a");
    Vector r = a; r += b; EQ(r, a + b, "vector += agrees with +");
    r = a; r -= b; EQ(r, a - b, "vector -= agrees with -");
    r = a; r.ReverseSign(); EQ(r, -a, "vector ReverseSign == unary -");
    r = a; SetToZero(r); EQ(r, Vector::Zero(), "vector SetToZero");
    EQ(Vector::Zero(), Vector(0, 0, 0), "vector Zero");
    EQ(Vector(), Vector(0, 0, 0), "default vector is zero");
    EQ(a, Vector(a.x(), a.y(), a.z()), "x(),y(),z() read the components");
    EQ(a, Vector(a(0), a(1), a(2)), "operator() reads the components");
    EQ(a, Vector(a[0], a[1], a[2]), "operator[] reads the components");
    Vector w; w.x(s); w.y(t); w.z(vp_c(22)); EQ(w, Vector(s, t, vp_c(22)), "x(v),y(v),z(v) write the components");
    w(0) = t; w(1) = s; w[2] = 0; EQ(w, Vector(t, s, 0), "operator() writes the components");
}
VP_W w_vector_products()
{
    Vector a = vec(0), b = vec(3), c = vec(6);
    EQ(a * b, CROSS(a, b), "a*b is the cross product");
    EQ(dot(a, b), DOT(a, b), "dot");
    EQ(a * b, -(b * a), "cross product is antisymmetric");
    EQ(a * (b * c), b * dot(a, c) - c * dot(a, b), "triple product");
    EQ(dot(a, b * c), dot(a * b, c), "scalar triple product");
    Rotation R = rot(0);
    EQ(R * (a * b), (R * a) * (R * b), "R(a x b) == Ra x Rb");
    EQ(dot(R * a, R * b), dot(a, b), "rotations preserve the inner product");
}
VP_W w_vector_norm()
{
    Vector a = vec(0);
    vp_assume(a(0) > 1e-3 || a(0) < -1e-3);
    double n = a.Norm();
    EQ(n * n, DOT(a, a), "Norm^2 == a.a");
    vp_true(n >= 0, "Norm >= 0");
    Vector u = a;
    double m = u.Normalize();
    EQ(m, n, "Normalize returns the norm");
    EQ(u * m, a, "Normalize: unit vector times norm is the vector");
}
VP_W w_vector_norm_y()
{
    Vector a = vec(0);
    vp_assume(a(1) > 1e-3 || a(1) < -1e-3);
    double n = a.Norm();
    EQ(n * n, DOT(a, a), "Norm^2 == a.a (y)");
}
VP_W w_vector_norm_z()
{
    Vector a = vec(0);
    vp_assume(a(2) > 1e-3 || a(2) < -1e-3);
    double n = a.Norm();
    EQ(n * n, DOT(a, a), "Norm^2 == a.a (z)");
    Vector u = a;
    double m = u.Normalize();
    EQ(u * m, a, "Normalize: unit vector times norm is the vector (z)");
}
VP_W w_rot_assoc()
{
    Rotation A = mat(0), B = mat(10), C = mat(20);
    EQ((A * B) * C, A * (B * C), "(A*B)*C == A*(B*C)");
    EQ(Rotation::Identity() * A, A, "I*A == A");
    EQ(A * Rotation::Identity(), A, "A*I == A");
    EQ(Rotation(), Rotation::Identity(), "default rotation is the identity");
}
VP_W w_rot_action()
{
    Rotation A = mat(0), B = mat(10);
    Vector v = vec(20), w = vec(30);
    double s = vp_c(40);
    EQ((A * B) * v, A * (B * v), "(A*B)*v == A*(B*v)");
    EQ(A * (v * s + w), (A * v) * s + A * w, "R*v is linear");
    EQ(A * Vector(1, 0, 0), A.UnitX(), "R*ex == UnitX");
    EQ(A * Vector(0, 1, 0), A.UnitY(), "R*ey == UnitY");
    EQ(A * Vector(0, 0, 1), A.UnitZ(), "R*ez == UnitZ");
    EQ(Rotation(A.UnitX(), A.UnitY(), A.UnitZ()), A, "Rotation(x,y,z) has these columns");
    Rotation C; C.UnitX(A.UnitX()); C.UnitY(A.UnitY()); C.UnitZ(A.UnitZ());
    EQ(C, A, "UnitX/Y/Z(v) set the columns");
    EQ(A, Rotation(A(0, 0), A(0, 1), A(0, 2), A(1, 0), A(1, 1), A(1, 2), A(2, 0), A(2, 1), A(2, 2)), "operator()(i,j) is row i, column j");
    Rotation D; D(1, 2) = s; EQ(D * Vector(0, 0, 1), Vector(0, s, 1), "operator()(i,j) writes row i, column j");
}
VP_W w_rot_inverse()
{
    Rotation A = rot(0), B = mat(10);
    EQ(A * A.Inverse(), Rotation::Identity(), "R*R.Inverse() == I");
    EQ(A.Inverse() * A, Rotation::Identity(), "R.Inverse()*R == I");
    Vector v = vec(20);
    EQ(B.Inverse(v), B.Inverse() * v, "R.Inverse(v) == R.Inverse()*v");
    EQ(A.Inverse(A * v), v, "R.Inverse(R*v) == v");
    Rotation C = B; C.SetInverse(); EQ(C, B.Inverse(), "SetInverse == Inverse");
    EQ((B * mat(30)).Inverse(), mat(30).Inverse() * B.Inverse(), "(A*B)^-1 == B^-1*A^-1");
}
VP_W w_rot_compose_in_place()
{
    Rotation A = mat(0), B = mat(10);
    Rotation C = A; C = C * B; EQ(C, A * B, "R = R*B in place");
    C = B; C = A * C; EQ(C, A * B, "R = A*R in place");
    C = A; C = C * C; EQ(C, A * A, "R = R*R in place");
}
VP_W w_frame_group()
{
    Frame F(mat(0), vec(9)), G(mat(20), vec(29)), H(mat(40), vec(49));
    Vector v = vec(60);
    EQ((F * G) * H, F * (G * H), "frame product is associative");
    EQ((F * G) * v, F * (G * v), "(F*G)*v == F*(G*v)");
    EQ(F * v, F.M * v + F.p, "F*v == M*v+p");
    EQ(Frame::Identity() * F, F, "I*F == F");
    EQ(F * Frame::Identity(), F, "F*I == F");
    EQ(Frame(), Frame::Identity(), "default frame is the identity");
    EQ(Frame(mat(0)), Frame(mat(0), Vector::Zero()), "Frame(R) has no translation");
    EQ(Frame(v), Frame(Rotation::Identity(), v), "Frame(p) has no rotation");
    Frame K = F; K = K * G; EQ(K, F * G, "F = F*G in place");
    K = G; K = F * K; EQ(K, F * G, "F = G*F in place");
}
VP_W w_frame_inverse()
{
    Frame F = frm(0), G = frm(1);
    Vector v = vec(60);
    EQ(F * F.Inverse(), Frame::Identity(), "F*F.Inverse() == I");
    EQ(F.Inverse() * F, Frame::Identity(), "F.Inverse()*F == I");
    EQ(F.Inverse(v), F.Inverse() * v, "F.Inverse(v) == F.Inverse()*v");
    EQ(F.Inverse(F * v), v, "F.Inverse(F*v) == v");
    EQ((F * G).Inverse(), G.Inverse() * F.Inverse(), "(F*G)^-1 == G^-1*F^-1");
}
VP_W w_frame_elements()
{
    Frame F(mat(0), vec(9));
    double d[16];
    F.Make4x4(d);
    const Frame& C = F;
    EQ(F.M, Rotation(F(0, 0), F(0, 1), F(0, 2), F(1, 0), F(1, 1), F(1, 2), F(2, 0), F(2, 1), F(2, 2)), "F(i,j): rotation block");
    EQ(F.p, Vector(F(0, 3), F(1, 3), F(2, 3)), "F(i,3): translation column");
    EQ(Vector(F(3, 0), F(3, 1), F(3, 2)), Vector(0, 0, 0), "F(3,j): zero row");
    EQ(F(3, 3), 1, "F(3,3) == 1");
    EQ(F.M, Rotation(C(0, 0), C(0, 1), C(0, 2), C(1, 0), C(1, 1), C(1, 2), C(2, 0), C(2, 1), C(2, 2)), "const F(i,j): rotation block");
    EQ(F.p, Vector(C(0, 3), C(1, 3), C(2, 3)), "const F(i,3): translation column");
    EQ(Vector(C(3, 0), C(3, 1), C(3, 2)), Vector(0, 0, 0), "const F(3,j): zero row");
    EQ(C(3, 3), 1, "const F(3,3) == 1");
    EQ(F.M, Rotation(d[0], d[1], d[2], d[4], d[5], d[6], d[8], d[9], d[10]), "Make4x4: row-major rotation block");
    EQ(F.p, Vector(d[3], d[7], d[11]), "Make4x4: translation column");
    EQ(Vector(d[12], d[13], d[14]), Vector(0, 0, 0), "Make4x4: zero row");
    EQ(d[15], 1, "Make4x4: one");
}
