// C10: paths and trajectories: velocity and acceleration twists are the time
// derivatives of the pose, end poses and lengths are the requested ones
#include "kdl.hpp"
#include "frames.cpp"
#include "path_line.cpp"
#include "path_circle.cpp"
#include "path_point.cpp"
#include "path_composite.cpp"
#include "path_cyclic_closed.cpp"
#include "path_roundedcomposite.cpp"
#include "rotational_interpolation_sa.cpp"
#include "trajectory_segment.cpp"
#include "trajectory_composite.cpp"
#include "trajectory_stationary.cpp"
#include "utilities/error.h"
#include "norm.hpp"

// an arbitrary rotational interpolation: turns about a fixed axis
struct Turn : RotationalInterpolation
{
    double a;
    Turn(double total) : a(total) {}
    static Rotation at(double th) { return rot(900) * Rotation::Rot2(rot(901).UnitZ(), th); }
    void SetStartEnd(Rotation s, Rotation e) { EQ(s, rot(1), "the interpolation gets the start orientation"); EQ(e, rot(2), "the interpolation gets the end orientation"); }
    double Angle() { return a; }
    Rotation Pos(double th) const { return at(th); }
    Vector Vel(double th, double thd) const { return rot(900) * (rot(901).UnitZ() * thd); }
    Vector Acc(double th, double thd, double thdd) const { return rot(900) * (rot(901).UnitZ() * thdd); }
    void Write(std::ostream&) const {}
    RotationalInterpolation* Clone() const { return new Turn(a); }
};
template <class P> static inline __attribute__((always_inline)) void motion(P& p)
{
    double s = vp_f(0, 0), sd = vp_f(0, 1), sdd = vp_f(0, 2);
    Frame F = p.P::Pos(s); Twist v = p.P::Vel(s, sd), a = p.P::Acc(s, sd, sdd);
    DDT(F.p, v.vel, "velocity is the derivative of the position"); DDTROT(F.M, v.rot, "angular velocity is the derivative of the orientation");
    DDT(v.vel, a.vel, "acceleration is the derivative of the velocity"); DDT(v.rot, a.rot, "angular acceleration is the derivative of the angular velocity");
}
static Vector leg(int i)      // a general displacement with its largest component along x
{
    Vector d = vec(i);
    vp_assume(d(0) > 1e-2 && d(0) >= d(1) && d(0) >= d(2) && d(1) >= 0 && d(2) >= 0);
    return d;
}
VP_W w_line_moving()
{
    Vector d = leg(20);
    Turn* T = new Turn(vp_pos(1));
    Frame S(rot(1), vec(0)), G(rot(2), vec(0) + d);
    Path_Line p(S, G, T, vp_pos(2), false);
    motion(p);
    EQ(p.Path_Line::Pos(0), Frame(T->at(0), S.p), "starts at the start pose");
    EQ(p.Path_Line::Pos(p.Path_Line::PathLength()), Frame(T->at(vp_pos(1)), G.p), "ends at the end pose");
    EQ(p.Path_Line::Pos(p.Path_Line::LengthToS(vp_c(9))).p, S.p + d * (vp_c(9) / d.Norm()), "LengthToS gives the parameter at a travelled distance");
    double n = p.Path_Line::Vel(0, 1).vel.Norm();
    vp_true(p.Path_Line::PathLength() >= d.Norm(), "the path is at least as long as the displacement");
    vp_true(p.Path_Line::PathLength() >= vp_pos(1) * vp_pos(2), "the path is at least as long as the rotation at the equivalent radius");
}
VP_W w_line_translation()
{
    Vector d = leg(20);
    Turn* T = new Turn(0);
    Frame S(rot(1), vec(0)), G(rot(2), vec(0) + d);
    Path_Line p(S, G, T, vp_pos(2), false);
    motion(p);
    EQ(p.Path_Line::Pos(p.Path_Line::PathLength()), Frame(T->at(0), G.p), "ends at the end pose");
    EQ(p.Path_Line::PathLength(), d.Norm(), "a translation is as long as the distance");
}
VP_W w_line_rotation()
{
    Turn* T = new Turn(vp_pos(1));
    Frame S(rot(1), vec(0)), G(rot(2), vec(0));
    Path_Line p(S, G, T, vp_pos(2), false);
    motion(p);
    EQ(p.Path_Line::Pos(p.Path_Line::PathLength()), Frame(T->at(vp_pos(1)), S.p), "ends at the end pose");
    EQ(p.Path_Line::PathLength(), vp_pos(1) * vp_pos(2), "a rotation is as long as the angle times the equivalent radius");
}
VP_W w_line_still()
{
    Turn* T = new Turn(0);
    Frame S(rot(1), vec(0)), G(rot(2), vec(0));
    Path_Line p(S, G, T, vp_pos(2), false);
    EQ(p.Path_Line::PathLength(), 0, "no motion, no length");
    EQ(p.Path_Line::Pos(0), Frame(T->at(0), S.p), "stays at the start pose");
}
template <class P> static inline __attribute__((always_inline)) void clone(P& p)
{
    double s = vp_c(800);
    P* c = static_cast<P*>(p.P::Clone());
    EQ(c->P::Pos(s), p.P::Pos(s), "clone has the same poses"); EQ(c->P::Vel(s, vp_c(801)), p.P::Vel(s, vp_c(801)), "clone has the same velocities");
    EQ(c->P::PathLength(), p.P::PathLength(), "clone has the same length");
}

// a rotational interpolation whose start orientation may be set to what it interpolates itself
struct Again : Turn
{
    Again(double t) : Turn(t) {}
    void SetStartEnd(Rotation s, Rotation e) { EQ(s, at(0), "a clone is set up with the start orientation"); EQ(e, at(a), "a clone is set up with the end orientation"); }
    RotationalInterpolation* Clone() const { return new Again(a); }
};
struct First : Turn        // hands out clones that check their setup
{
    First(double t) : Turn(t) {}
    RotationalInterpolation* Clone() const { return new Again(a); }
};
VP_W w_line_clone_owned()
{
    Frame S(rot(1), vec(0)), G(rot(2), vec(0) + leg(20));
    Path_Line p(S, G, new First(vp_pos(1)), vp_pos(2), true);
    clone(p);
}
VP_W w_line_clone_shared()
{
    Again T(vp_pos(1));
    Frame S(T.at(0), vec(0)), G(T.at(vp_pos(1)), vec(0) + leg(20));
    Path_Line p(S, G, &T, vp_pos(2), false);
    clone(p);
}
struct Any : Turn
{
    Any(double t) : Turn(t) {}
    void SetStartEnd(Rotation, Rotation) {}
    RotationalInterpolation* Clone() const { return new Any(a); }
};
VP_W w_line_twist()
{
    Twist t(leg(20), vec(30));
    Path_Line p(Frame(rot(1), vec(0)), t, new Any(vp_pos(1)), vp_pos(2), false);
    motion(p);
    EQ(p.Path_Line::Pos(0), Frame(Turn::at(0), vec(0)), "starts at the start pose");
    EQ(p.Path_Line::Pos(p.Path_Line::PathLength()), Frame(Turn::at(vp_pos(1)), vec(0) + t.vel), "translates over the velocity of the twist in unit time");
}
// ---- circle ------------------------------------------------------------------
static Frame circ() { return Frame(rot(3), vec(0)); }
template <class R> static inline __attribute__((always_inline)) Path_Circle circle(R* T, bool own)
{
    double r = vp_pos(10);
    vp_assume(r > 1e-2 && vp_pos(11) > 1e-2 && epsilon > 0);
    Frame C = circ();
    return Path_Circle(Frame(rot(1), C * Vector(r, 0, 0)), C.p, C * Vector(vp_c(12), vp_pos(11), 0), rot(2), vp_pos(13), T, vp_pos(2), own);
}
VP_W w_circle_moving()
{
    Path_Circle p = circle(new Turn(vp_pos(1)), false);
    double r = vp_pos(10), L = p.Path_Circle::PathLength();
    Frame C = circ();
    motion(p);
    EQ(p.Path_Circle::Pos(0), Frame(Turn::at(0), C * Vector(r, 0, 0)), "starts at the start pose");
    EQ(p.Path_Circle::Pos(L), Frame(Turn::at(vp_pos(1)), C * Vector(r * cos(vp_pos(13)), r * sin(vp_pos(13)), 0)), "ends after the requested arc");
    Vector d = p.Path_Circle::Pos(vp_c(5)).p - C.p;
    EQ(dot(d, d), r * r, "stays on the circle"); EQ(dot(d, C.M.UnitZ()), 0, "stays in the plane of the three points");
    vp_true(L >= vp_pos(13) * r, "at least as long as the arc"); vp_true(L >= vp_pos(1) * vp_pos(2), "at least as long as the rotation at the equivalent radius");
    double s = p.Path_Circle::LengthToS(vp_c(9));
    EQ(p.Path_Circle::Pos(s).p, C * Vector(r * cos(vp_c(9) / r), r * sin(vp_c(9) / r), 0), "LengthToS gives the parameter at a travelled distance");
}
VP_W w_circle_clone_owned()
{
    Path_Circle p = circle(new First(vp_pos(1)), true);
    clone(p);
}
VP_W w_circle_clone_shared()
{
    Path_Circle p = circle(new Any(vp_pos(1)), false);
    clone(p);
}
// ---- point ----------------------------------------------------------------------
VP_W w_point()
{
    Path_Point p(frm(1));
    motion(p); clone(p);
    EQ(p.Path_Point::Pos(vp_c(3)), frm(1), "a point stays where it is"); EQ(p.Path_Point::PathLength(), 0, "a point has no length");
}
// ---- interpolation about a single axis ------------------------------------------
// GetRotAngle is replaced by its contract (C03 decides that Rot2(axis, angle) is
// the rotation away from 0 and pi): the rotation is Rot2(rot(901).UnitZ(), a)
extern "C" double vp_sub__ZNK3KDL8Rotation11GetRotAngleERNS_6VectorEd(const Rotation* R, Vector* axis, double)
{
    EQ(rot(1) * *R, rot(2), "the interpolated rotation leads from the start to the end orientation");
    *axis = rot(901).UnitZ();
    return vp_pos(7);
}
VP_W w_single_axis()
{
    RotationalInterpolation_SingleAxis o;
    typedef RotationalInterpolation_SingleAxis O;
    o.O::SetStartEnd(rot(1), rot(2));
    double th = vp_f(0, 0), thd = vp_f(0, 1), thdd = vp_f(0, 2);
    Rotation R = o.O::Pos(th); Vector v = o.O::Vel(th, thd), a = o.O::Acc(th, thd, thdd);
    EQ(o.O::Pos(0), rot(1), "starts at the start orientation");
    EQ(o.O::Angle(), vp_pos(7), "Angle() is the angle between start and end");
    EQ(R, rot(1) * Rotation::Rot2(rot(901).UnitZ(), th), "turns about the axis that leads from start to end");
    DDTROT(R, v, "angular velocity is the derivative of the orientation");
    DDT(v, a, "angular acceleration is the derivative of the angular velocity");
    RotationalInterpolation* c = o.O::Clone();
    EQ(c->Pos(vp_c(1)), o.O::Pos(vp_c(1)), "clone has the same orientations"); EQ(c->Vel(vp_c(1), vp_c(2)), o.O::Vel(vp_c(1), vp_c(2)), "clone has the same velocities"); EQ(c->Angle(), o.O::Angle(), "clone has the same angle");
}
// ---- compositions of paths -----------------------------------------------------
static int dead[8];
static inline __attribute__((always_inline)) void alive() { for (int i = 0; i < 8; ++i) dead[i] = 0; }
struct Leg : Path
{
    int id; double len;
    Leg(int i) : id(i), len(vp_pos(20 + i)) {}
    ~Leg() { ++dead[id]; }
    double LengthToS(double l) { return l; }
    double PathLength() { return len; }
    static Frame at(int i, double s) { return Frame(Rotation::Identity(), Vector(i, s, 0)); }
    static Twist vat(int i, double s, double sd) { return Twist(Vector(i, s, sd), Vector(1, 0, 0)); }
    static Twist aat(int i, double s, double sd, double sdd) { return Twist(Vector(i, s, sd), Vector(2, sdd, 0)); }
    Frame Pos(double s) const { return at(id, s); }
    Twist Vel(double s, double sd) const { return vat(id, s, sd); }
    Twist Acc(double s, double sd, double sdd) const { return aat(id, s, sd, sdd); }
    void Write(std::ostream&) {}
    Path* Clone() { return new Leg(id + 4); }
    IdentifierType getIdentifier() const { return ID_LINE; }
};
template <class P> static inline __attribute__((always_inline)) void part(P& p, double s, int i, double start, const char* l)
{
    double sd = vp_c(901), sdd = vp_c(902);
    EQ(p.P::Pos(s), Leg::at(i, s - start), l); EQ(p.P::Vel(s, sd), Leg::vat(i, s - start, sd), l); EQ(p.P::Acc(s, sd, sdd), Leg::aat(i, s - start, sd, sdd), l);
}
static inline __attribute__((always_inline)) double between(double a, double b, int id)     // an arbitrary value strictly between a and b
{
    double x = vp_c(id);
    vp_assume(a < x && x < b);
    return x;
}
VP_W w_composite()
{
    alive();
    typedef Path_Composite P;
    P p;
    double L[3] = {vp_pos(20), vp_pos(21), vp_pos(22)};
    EQ(p.P::PathLength(), 0, "an empty composite has no length");
    for (int i = 0; i < 3; ++i) p.P::Add(new Leg(i), true);
    double e[4] = {0, L[0], L[0] + L[1], L[0] + L[1] + L[2]};
    EQ(p.P::PathLength(), e[3], "as long as its parts together"); EQ(p.P::GetNrOfSegments(), 3, "number of parts");
    for (int i = 0; i < 3; ++i) EQ(p.P::GetLengthToEndOfSegment(i), e[i + 1], "length to the end of a part");
    // in any order of visits, with the cached part of the previous visit
    part(p, between(e[1], e[2], 1), 1, e[1], "inside the second part"); part(p, between(e[1], e[2], 1), 1, e[1], "again inside the second part");
    part(p, between(e[0], e[1], 2), 0, 0, "inside the first part"); part(p, between(e[2], e[3], 3), 2, e[2], "inside the third part");
    part(p, between(e[1], e[2], 4), 1, e[1], "back inside the second part"); part(p, 0, 0, 0, "at the start"); part(p, e[3], 2, e[2], "at the end");
    int k; double in;
    p.P::GetCurrentSegmentLocation(between(e[1], e[2], 5), k, in);
    EQ(k, 1, "segment number of a location"); EQ(in, vp_c(5) - e[1], "length within the segment of a location");
    EQ(static_cast<Leg*>(p.P::GetSegment(1))->id, 1, "segments in the order added");
}
VP_W w_composite_grow()
{
    alive();
    // what was looked up before a part is added does not hide it
    typedef Path_Composite P;
    P p;
    double L[2] = {vp_pos(20), vp_pos(21)};
    p.P::Add(new Leg(0), true);
    part(p, L[0], 0, 0, "at the end of the only part");
    p.P::Add(new Leg(1), true);
    part(p, between(L[0], L[0] + L[1], 1), 1, L[0], "in the part added later");
}
VP_W w_composite_clone()
{
    alive();
    typedef Path_Composite P;
    double L0 = vp_pos(24), L1 = vp_pos(25);
    P* c;
    {
        P p;
        p.P::Add(new Leg(0), true); p.P::Add(new Leg(1), false);
        c = static_cast<P*>(p.P::Clone());
    }
    EQ(dead[0], 1, "an owned part is destroyed with the composite"); EQ(dead[1], 0, "a part that is not owned is not destroyed");
    EQ(dead[4] + dead[5], 0, "parts of the clone outlive the original");
    EQ(c->P::GetNrOfSegments(), 2, "clone has as many parts"); EQ(c->P::PathLength(), L0 + L1, "clone has the same length");
    part(*c, between(L0, L0 + L1, 1), 5, L0, "clone has the same poses, from cloned parts");
    delete c;
    EQ(dead[4], 1, "the clone of an owned part is destroyed with the cloned composite"); EQ(dead[5], 1, "the clone of a part that was not owned is destroyed with the cloned composite");
}
VP_W w_cyclic()
{
    alive();
    typedef Path_Cyclic_Closed P;
    P* c;
    double L = vp_pos(20), s = vp_c(1);
    {
        P p(new Leg(0), 3, true);
        EQ(p.P::PathLength(), 3 * L, "a cyclic path is as long as its rounds");
        vp_assume(s > 0 && s < 3 * L);
        part(p, s, 0, s - fmod(s, L), "each round follows the path from its start");
        c = static_cast<P*>(p.P::Clone());
    }
    EQ(dead[0], 1, "an owned path is destroyed with the cyclic path"); EQ(dead[4], 0, "the path of the clone outlives the original");
    EQ(c->P::PathLength(), 3 * vp_pos(24), "clone makes as many rounds");
    part(*c, vp_c(2), 4, vp_c(2) - fmod(vp_c(2), vp_pos(24)), "clone follows a cloned path");
    delete c;
    EQ(dead[4], 1, "the cloned path is destroyed with the clone");
}
VP_W w_cyclic_shared()
{
    alive();
    Leg l(0);
    typedef Path_Cyclic_Closed P;
    P* c;
    {
        P p(&l, 3, false);
        c = static_cast<P*>(p.P::Clone());
    }
    EQ(dead[0], 0, "a path that is not owned is not destroyed");
    delete c;
    EQ(dead[4], 1, "the cloned path is destroyed with the clone"); EQ(dead[0], 0, "a path that is not owned is not destroyed by the clone");
}
// ---- ownership of interpolations -------------------------------------------------
static int odead;
struct Counted : Any
{
    Counted() : Any(vp_pos(1)) {}
    ~Counted() { ++odead; }
    RotationalInterpolation* Clone() const { return new Counted; }
};
VP_W w_line_owns()
{
    odead = 0;
    Path* c;
    {
        Path_Line p(Frame(rot(1), vec(0)), Frame(rot(2), vec(0) + leg(20)), new Counted, vp_pos(2), true);
        c = p.Path_Line::Clone();
    }
    EQ(odead, 1, "an owned interpolation is destroyed once with the line");
    delete c;
    EQ(odead, 2, "the clone destroys the interpolation cloned for it");
}
VP_W w_line_shares()
{
    odead = 0;
    Counted o;
    Path* c;
    {
        Path_Line p(Frame(rot(1), vec(0)), Frame(rot(2), vec(0) + leg(20)), &o, vp_pos(2), false);
        c = p.Path_Line::Clone();
    }
    EQ(odead, 0, "an interpolation that is not owned is not destroyed");
    delete c;
    EQ(odead, 0, "an interpolation that is not owned is not destroyed by the clone");
}
VP_W w_circle_owns()
{
    odead = 0;
    Path* c;
    {
        Path_Circle p = circle(new Counted, true);
        c = p.Path_Circle::Clone();
    }
    EQ(odead, 1, "an owned interpolation is destroyed once with the circle");
    delete c;
    EQ(odead, 2, "the clone destroys the interpolation cloned for it");
}
VP_W w_circle_shares()
{
    odead = 0;
    Counted o;
    Path* c;
    {
        Path_Circle p = circle(&o, false);
        c = p.Path_Circle::Clone();
    }
    EQ(odead, 0, "an interpolation that is not owned is not destroyed");
    delete c;
    EQ(odead, 0, "an interpolation that is not owned is not destroyed by the clone");
}
// ---- rounded composite ------------------------------------------------------------
// a right angle in the plane of A: from S along x, then along y
static inline __attribute__((always_inline)) void rounded(Path_RoundedComposite& p, double a, double b)
{
    Frame A = frm(3);
    p.Add(A); p.Add(A * Frame(Vector(a, 0, 0))); p.Add(A * Frame(Vector(a, b, 0))); p.Finish();
}
VP_W w_rounded()
{
    typedef Path_RoundedComposite P;
    double r = vp_pos(10), a = vp_pos(11), b = vp_pos(12);
    vp_assume(r > 1e-2 && a > r + 1e-2 && b > r + 1e-2 && epsilon > 0 && epsilon < 1e-3);
    P p(r, vp_pos(2), new Any(0), true);
    rounded(p, a, b);
    vp_reached("a feasible rounded corner is accepted");
    Frame A = frm(3);
    EQ(p.P::GetNrOfSegments(), 3, "line, arc, line");
    double l1 = a - r, l2 = l1 + r * PI / 2, l3 = l2 + b - r;
    EQ(p.P::GetLengthToEndOfSegment(0), l1, "the first line ends where the rounding starts"); EQ(p.P::GetLengthToEndOfSegment(1), l2, "the arc has the requested radius"); EQ(p.P::PathLength(), l3, "the last line ends at the last point");
    EQ(p.P::Pos(0).p, A.p, "starts at the first point"); EQ(p.P::Pos(l3).p, A * Vector(a, b, 0), "ends at the last point");
    EQ(p.P::GetSegment(1)->Pos(0).p, A * Vector(a - r, 0, 0), "the arc starts at the end of the first line"); EQ(p.P::GetSegment(1)->Pos(r * PI / 2).p, A * Vector(a, r, 0), "the arc ends at the start of the second line");
    EQ(p.P::GetSegment(0)->Pos(l1).p, A * Vector(a - r, 0, 0), "the first line ends at the start of the arc"); EQ(p.P::GetSegment(2)->Pos(0).p, A * Vector(a, r, 0), "the second line starts at the end of the arc");
    EQ(p.P::GetSegment(1)->Vel(0, 1).vel, A.M.UnitX(), "the arc leaves along the first line"); EQ(p.P::GetSegment(1)->Vel(r * PI / 2, 1).vel, A.M.UnitY(), "the arc arrives along the second line");
    Path* c = p.P::Clone();
    EQ(c->PathLength(), l3, "clone has the same length"); EQ(c->Pos(l3).p, A * Vector(a, b, 0), "clone has the same end"); EQ(static_cast<P*>(c)->P::GetSegment(1)->Pos(r * PI / 2).p, A * Vector(a, r, 0), "clone has the same arc");
}
VP_W w_rounded_straight()
{
    typedef Path_RoundedComposite P;
    double r = vp_pos(10), a = vp_pos(11), b = vp_pos(12);
    vp_assume(r > 1e-2 && a > r + 1e-2 && b > r + 1e-2 && epsilon > 0 && epsilon < 1e-3);
    P p(r, vp_pos(2), new Any(0), true);
    Frame A = frm(3);
    p.P::Add(A); p.P::Add(A * Frame(Vector(a, 0, 0)));
    P* c = static_cast<P*>(p.P::Clone());
    p.P::Add(A * Frame(Vector(a + b, 0, 0))); p.P::Finish();
    c->P::Add(A * Frame(Vector(a + b, 0, 0))); c->P::Finish();
    EQ(p.P::GetNrOfSegments(), 2, "points on a line need no rounding"); EQ(p.P::PathLength(), a + b, "as long as the distance");
    EQ(p.P::Pos(a + b).p, A * Vector(a + b, 0, 0), "ends at the last point");
    EQ(c->P::PathLength(), a + b, "a clone of an unfinished path continues the same way"); EQ(c->P::Pos(a + b).p, A * Vector(a + b, 0, 0), "a clone of an unfinished path ends at the same point");
}
// ---- trajectories -----------------------------------------------------------------
struct Prof : VelocityProfile
{
    double q, qd, qdd;
    Prof() {}
    ~Prof() { ++dead[7]; }
    void SetProfile(double, double) {}
    void SetProfileDuration(double a, double b, double d) { EQ(a, 0, "a profile with given duration starts at the start of the path"); EQ(b, vp_pos(20), "a profile with given duration ends at the end of the path"); EQ(d, vp_pos(30), "the profile gets the requested duration"); }
    double Duration() const { return vp_pos(30); }
    double Pos(double t) const { EQ(t, vp_c(40), "the profile is evaluated at the time asked for"); return vp_f(0, 0); }
    double Vel(double t) const { EQ(t, vp_c(40), "the profile is evaluated at the time asked for"); return vp_f(0, 1); }
    double Acc(double t) const { EQ(t, vp_c(40), "the profile is evaluated at the time asked for"); return vp_f(0, 2); }
    void Write(std::ostream&) const {}
    VelocityProfile* Clone() const { ++dead[6]; return new Prof; }
};
struct Helix : Path       // an arbitrary smooth path
{
    double PathLength() { return vp_pos(20); }
    double LengthToS(double l) { return l; }
    Frame Pos(double s) const { return Frame(rot(900) * Rotation::RotZ(vp_c(51) * s), Vector(cos(s), sin(s), vp_c(52) * s)); }
    Twist Vel(double s, double sd) const { return Twist(Vector(-sin(s) * sd, cos(s) * sd, vp_c(52) * sd), rot(900).UnitZ() * (vp_c(51) * sd)); }
    Twist Acc(double s, double sd, double sdd) const { return Twist(Vector(-sin(s) * sdd - cos(s) * sd * sd, cos(s) * sdd - sin(s) * sd * sd, vp_c(52) * sdd), rot(900).UnitZ() * (vp_c(51) * sdd)); }
    void Write(std::ostream&) {}
    ~Helix() { ++dead[0]; }
    Path* Clone() { ++dead[5]; return new Helix; }
    IdentifierType getIdentifier() const { return ID_LINE; }
};
template <class T> static inline __attribute__((always_inline)) void tmotion(T& p, double t)
{
    Frame F = p.T::Pos(t); Twist v = p.T::Vel(t), a = p.T::Acc(t);
    DDT(F.p, v.vel, "velocity is the derivative of the position"); DDTROT(F.M, v.rot, "angular velocity is the derivative of the orientation");
    DDT(v.vel, a.vel, "acceleration is the derivative of the velocity"); DDT(v.rot, a.rot, "angular acceleration is the derivative of the angular velocity");
}
VP_W w_traj_segment()
{
    alive();
    typedef Trajectory_Segment T;
    Trajectory* c;
    {
        T p(new Helix, new Prof, true);
        tmotion(p, vp_c(40));
        EQ(p.T::Duration(), vp_pos(30), "lasts as long as its profile");
        c = p.T::Clone();
        EQ(dead[6], 1, "the clone has a cloned profile"); EQ(dead[5], 1, "the clone has a cloned path");
        EQ(c->Pos(vp_c(40)), p.T::Pos(vp_c(40)), "clone has the same poses"); EQ(c->Vel(vp_c(40)), p.T::Vel(vp_c(40)), "clone has the same velocities"); EQ(c->Acc(vp_c(40)), p.T::Acc(vp_c(40)), "clone has the same accelerations");
    }
    EQ(dead[0], 1, "an owned path is destroyed once"); EQ(dead[7], 1, "an owned profile is destroyed once");
    delete c;
    EQ(dead[0], 2, "the clone destroys its path"); EQ(dead[7], 2, "the clone destroys its profile");
}
VP_W w_traj_segment_duration()
{
    alive();
    typedef Trajectory_Segment T;
    Helix h; Prof v;
    {
        T p(&h, &v, vp_pos(30), false);
        tmotion(p, vp_c(40));
    }
    EQ(dead[0], 0, "a path that is not owned is not destroyed"); EQ(dead[7], 0, "a profile that is not owned is not destroyed");
}
VP_W w_traj_stationary()
{
    typedef Trajectory_Stationary T;
    T p(vp_c(1), frm(1));
    tmotion(p, vp_c(2));
    EQ(p.T::Duration(), vp_c(1), "lasts as long as requested"); EQ(p.T::Pos(vp_c(2)), frm(1), "stays at the given pose");
    Trajectory* c = p.T::Clone();
    EQ(c->Duration(), vp_c(1), "clone lasts as long"); EQ(c->Pos(vp_c(2)), frm(1), "clone stays at the given pose");
}
struct Ride : Trajectory
{
    int id;
    Ride(int i) : id(i) {}
    ~Ride() { ++dead[id]; }
    double Duration() const { return vp_pos(20 + id % 4); }
    Frame Pos(double t) const { return Leg::at(id, t); }
    Twist Vel(double t) const { return Leg::vat(id, t, 0); }
    Twist Acc(double t) const { return Leg::aat(id, t, 0, 0); }
    Trajectory* Clone() const { return new Ride(id + 4); }
    void Write(std::ostream&) const {}
};
template <class T> static inline __attribute__((always_inline)) void ride(T& p, double t, int i, double in, const char* l)
{
    EQ(p.T::Pos(t), Leg::at(i, in), l); EQ(p.T::Vel(t), Leg::vat(i, in, 0), l); EQ(p.T::Acc(t), Leg::aat(i, in, 0, 0), l);
}
VP_W w_traj_composite()
{
    alive();
    typedef Trajectory_Composite T;
    Trajectory* c;
    double e[4] = {0, vp_pos(20), vp_pos(20) + vp_pos(21), vp_pos(20) + vp_pos(21) + vp_pos(22)};
    {
        T p;
        EQ(p.T::Duration(), 0, "an empty composite takes no time");
        for (int i = 0; i < 3; ++i) p.T::Add(new Ride(i));
        EQ(p.T::Duration(), e[3], "lasts as long as its parts together");
        ride(p, between(e[0], e[1], 1), 0, vp_c(1), "in the first part"); ride(p, between(e[1], e[2], 2), 1, vp_c(2) - e[1], "in the second part"); ride(p, between(e[2], e[3], 3), 2, vp_c(3) - e[2], "in the third part");
        ride(p, -vp_pos(1), 0, 0, "before the start"); ride(p, 0, 0, 0, "at the start"); ride(p, e[3] + vp_pos(2), 2, vp_pos(22), "after the end");
        ride(p, e[1], 1, 0, "at the boundary the next part starts");
        c = p.T::Clone();
    }
    for (int i = 0; i < 3; ++i) EQ(dead[i], 1, "each part is destroyed once");
    EQ(c->Duration(), e[3], "clone lasts as long");
    EQ(c->Pos(vp_c(2)), Leg::at(5, vp_c(2) - e[1]), "clone has the same poses, from cloned parts");
    delete c;
    for (int i = 4; i < 7; ++i) EQ(dead[i], 1, "each cloned part is destroyed once, with the clone");
}
VP_W w_traj_composite_destroy()
{
    alive();
    typedef Trajectory_Composite T;
    T p;
    p.T::Add(new Ride(0)); p.T::Add(new Ride(1));
    p.T::Destroy();
    EQ(dead[0], 1, "each part is destroyed once"); EQ(dead[1], 1, "each part is destroyed once");
    EQ(p.T::Duration(), 0, "nothing is left of a destroyed composite");
    p.T::Add(new Ride(2));
    EQ(p.T::Duration(), vp_pos(22), "parts added after Destroy start at zero");
    ride(p, between(0, vp_pos(22), 1), 2, vp_c(1), "parts added after Destroy start at zero");
}
