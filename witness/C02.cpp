// C02: twists and wrenches transform consistently with points and frames.
#include "kdl.hpp"
#include "frames.cpp"

VP_W w_twist_space()
{
    Twist a = twi(0), b = twi(10);
    double s = vp_c(30), t = vp_c(31);
    EQ(a + b, b + a, "twist + commutes");
    EQ(a + b, Twist(a.vel + b.vel, a.rot + b.rot), "twist + componentwise");
    EQ(a - b, a + (-b), "twist a-b == a+(-b)");
    EQ(a * s, s * a, "twist scaling commutes");
    EQ(a * s, Twist(a.vel * s, a.rot * s), "twist scaling componentwise");
    EQ((a * s) / s, a, "twist a*s/s == a");
    Twist r = a; r += b; EQ(r, a + b, "twist += agrees with +");
    r = a; r -= b; EQ(r, a - b, "twist -= agrees with -");
    r = a; r.ReverseSign(); EQ(r, -a, "twist ReverseSign == unary -");
    r = a; SetToZero(r); EQ(r, Twist::Zero(), "twist SetToZero");
    EQ(Twist::Zero(), Twist(Vector(0, 0, 0), Vector(0, 0, 0)), "twist Zero");
    EQ(Twist(), Twist::Zero(), "default twist is zero");
    const Twist& c = a;
    EQ(a, Twist(Vector(a(0), a(1), a(2)), Vector(a(3), a(4), a(5))), "twist operator(): vel first, then rot");
    EQ(a, Twist(Vector(c(0), c(1), c(2)), Vector(c(3), c(4), c(5))), "const twist operator(): vel first, then rot");
    EQ(a, Twist(Vector(c[0], c[1], c[2]), Vector(c[3], c[4], c[5])), "const twist operator[]: vel first, then rot");
    EQ(a, Twist(Vector(a[0], a[1], a[2]), Vector(a[3], a[4], a[5])), "twist operator[]: vel first, then rot");
    (void)t;
}
VP_W w_wrench_space()
{
    Wrench a = wre(0), b = wre(10);
    double s = vp_c(30);
    EQ(a + b, b + a, "wrench + commutes");
    EQ(a + b, Wrench(a.force + b.force, a.torque + b.torque), "wrench + componentwise");
    EQ(a - b, a + (-b), "wrench a-b == a+(-b)");
    EQ(a * s, s * a, "wrench scaling commutes");
    EQ(a * s, Wrench(a.force * s, a.torque * s), "wrench scaling componentwise");
    EQ((a * s) / s, a, "wrench a*s/s == a");
    Wrench r = a; r += b; EQ(r, a + b, "wrench += agrees with +");
    r = a; r -= b; EQ(r, a - b, "wrench -= agrees with -");
    r = a; r.ReverseSign(); EQ(r, -a, "wrench ReverseSign == unary -");
    r = a; SetToZero(r); EQ(r, Wrench::Zero(), "wrench SetToZero");
    EQ(Wrench::Zero(), Wrench(Vector(0, 0, 0), Vector(0, 0, 0)), "wrench Zero");
    EQ(Wrench(), Wrench::Zero(), "default wrench is zero");
    const Wrench& c = a;
    EQ(a, Wrench(Vector(a(0), a(1), a(2)), Vector(a(3), a(4), a(5))), "wrench operator(): force first, then torque");
    EQ(a, Wrench(Vector(c(0), c(1), c(2)), Vector(c(3), c(4), c(5))), "const wrench operator(): force first, then torque");
    EQ(a, Wrench(Vector(c[0], c[1], c[2]), Vector(c[3], c[4], c[5])), "const wrench operator[]: force first, then torque");
    EQ(a, Wrench(Vector(a[0], a[1], a[2]), Vector(a[3], a[4], a[5])), "wrench operator[]: force first, then torque");
}
VP_W w_rotation_action()
{
    Rotation R = rot(0), A = mat(0), B = mat(10);
    Twist t = twi(30);
    Wrench w = wre(40);
    EQ(A * t, Twist(A * t.vel, A * t.rot), "R*twist acts on both halves");
    EQ(A * w, Wrench(A * w.force, A * w.torque), "R*wrench acts on both halves");
    EQ((A * B) * t, A * (B * t), "(A*B)*twist == A*(B*twist)");
    EQ((A * B) * w, A * (B * w), "(A*B)*wrench == A*(B*wrench)");
    EQ(R.Inverse(R * t), t, "R.Inverse(R*twist) == twist");
    EQ(R.Inverse(R * w), w, "R.Inverse(R*wrench) == wrench");
    EQ(A.Inverse(t), A.Inverse() * t, "R.Inverse(twist) == R.Inverse()*twist");
    EQ(A.Inverse(w), A.Inverse() * w, "R.Inverse(wrench) == R.Inverse()*wrench");
}
VP_W w_refpoint()
{
    Twist t = twi(0);
    Wrench w = wre(6);
    Vector a = vec(20), b = vec(30);
    EQ(t.RefPoint(a).vel, t.vel + CROSS(t.rot, a), "twist RefPoint: velocity of the displaced point");
    EQ(t.RefPoint(a).rot, t.rot, "twist RefPoint keeps rot");
    EQ(w.RefPoint(a).torque, w.torque - CROSS(a, w.force), "wrench RefPoint: moment about the displaced point");
    EQ(w.RefPoint(a).force, w.force, "wrench RefPoint keeps force");
    EQ(t.RefPoint(a).RefPoint(b), t.RefPoint(a + b), "twist RefPoint composes");
    EQ(w.RefPoint(a).RefPoint(b), w.RefPoint(a + b), "wrench RefPoint composes");
    EQ(t.RefPoint(a).RefPoint(-a), t, "twist RefPoint inverts");
    EQ(w.RefPoint(a).RefPoint(-a), w, "wrench RefPoint inverts");
    EQ(t.RefPoint(Vector::Zero()), t, "twist RefPoint(0)");
    EQ(w.RefPoint(Vector::Zero()), w, "wrench RefPoint(0)");
    EQ(dot(t.RefPoint(a), w.RefPoint(a)), dot(t, w), "power does not depend on the reference point");
}
VP_W w_frame_action()
{
    Frame F(mat(0), vec(9));
    Twist t = twi(30);
    Wrench w = wre(40);
    // (vel of the point at the origin of B expressed/reduced to A)
    EQ(F * t, (F.M * t).RefPoint(-F.p), "F*twist == (M*twist).RefPoint(-p)");
    EQ(F * w, (F.M * w).RefPoint(-F.p), "F*wrench == (M*wrench).RefPoint(-p)");
}
VP_W w_frame_action_group()
{
    Frame F = frm(0), G = frm(1);
    Twist t = twi(30);
    Wrench w = wre(40);
    EQ((F * G) * t, F * (G * t), "(F*G)*twist == F*(G*twist)");
    EQ((F * G) * w, F * (G * w), "(F*G)*wrench == F*(G*wrench)");
    EQ(F.Inverse(F * t), t, "F.Inverse(F*twist) == twist");
    EQ(F.Inverse(F * w), w, "F.Inverse(F*wrench) == wrench");
    EQ(F * F.Inverse(t), t, "F*F.Inverse(twist) == twist");
    EQ(F * F.Inverse(w), w, "F*F.Inverse(wrench) == wrench");
    EQ(F.Inverse(t), F.Inverse() * t, "F.Inverse(twist) == F.Inverse()*twist");
    EQ(F.Inverse(w), F.Inverse() * w, "F.Inverse(wrench) == F.Inverse()*wrench");
    EQ(dot(F * t, F * w), dot(t, w), "power is invariant under a change of frame");
}
VP_W w_power_and_spatial_cross()
{
    Twist a = twi(0), b = twi(10), c = twi(20);
    Wrench w = wre(30);
    EQ(dot(a, w), DOT(a.vel, w.force) + DOT(a.rot, w.torque), "dot(twist,wrench) is the power");
    EQ(dot(w, a), dot(a, w), "dot(wrench,twist) == dot(twist,wrench)");
    EQ(a * b, -(b * a), "twist cross product is antisymmetric");
    EQ(a * (b * c) + b * (c * a) + c * (a * b), Twist::Zero(), "twist cross product satisfies Jacobi");
    EQ(dot(a * b, w), -dot(b, a * w), "wrench cross product is the dual of the twist one");
    Frame F = frm(0);
    EQ(F * (a * b), (F * a) * (F * b), "twist cross product commutes with F*");
    EQ(F * (a * w), (F * a) * (F * w), "wrench cross product commutes with F*");
}
VP_W w_diff_add()
{
    Vector a = vec(0), b = vec(3);
    double dt = vp_pos(0);
    Twist t = twi(10), u = twi(20);
    Wrench w = wre(30), x = wre(40);
    EQ(addDelta(a, diff(a, b, dt), dt), b, "addDelta(a,diff(a,b)) == b (vector)");
    EQ(addDelta(t, diff(t, u, dt), dt), u, "addDelta(a,diff(a,b)) == b (twist)");
    EQ(addDelta(w, diff(w, x, dt), dt), x, "addDelta(a,diff(a,b)) == b (wrench)");
    EQ(diff(a, addDelta(a, b, dt), dt), b, "diff(a,addDelta(a,d)) == d (vector)");
    Frame F = frm(0), G = frm(1);
    EQ(diff(F, G, dt).vel, (G.p - F.p) / dt, "diff(F,G).vel");
}
