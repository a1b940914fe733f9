// C30: what owns what among paths, profiles and trajectories: everything handed
// over is released once, everything shared is left alone
#include "kdl.hpp"
#include "frames.cpp"
#include "path_line.cpp"
#include "path_circle.cpp"
#include "path_point.cpp"
#include "path_composite.cpp"
#include "path_cyclic_closed.cpp"
#include "path_roundedcomposite.cpp"
#include "rotational_interpolation_sa.cpp"
#include "trajectory_segment.cpp"
#include "trajectory_composite.cpp"
#include "trajectory_stationary.cpp"
#include "velocityprofile_rect.cpp"
#include "velocityprofile_trap.cpp"
#include "velocityprofile_traphalf.cpp"
#include "velocityprofile_spline.cpp"
#include "velocityprofile_dirac.cpp"
#include "utilities/error.h"
#include "utilities/scoped_ptr.hpp"
#include "norm.hpp"
#define VP_IN static inline __attribute__((always_inline))
extern "C" double vp_sub__ZNK3KDL8Rotation11GetRotAngleERNS_6VectorEd(const Rotation*, Vector* axis, double)
{
    *axis = Vector(1, 0, 0);
    return vp_pos(7);
}
struct Watched : RotationalInterpolation
{
    int* cell;          // a small object of its own: released once, never read after that
    Watched() : cell(new int(1)) {}
    ~Watched() { delete cell; }
    void SetStartEnd(Rotation, Rotation) {}
    double Angle() { return *cell; }
    Rotation Pos(double th) const { return Rotation::Rot2(Vector(0, 0, *cell), th); }
    Vector Vel(double, double) const { return Vector(*cell, 0, 0); }
    Vector Acc(double, double, double) const { return Vector(*cell, 0, 0); }
    void Write(std::ostream&) const {}
    RotationalInterpolation* Clone() const { return new Watched; }
};
struct Leg : Path
{
    int* cell;
    Leg() : cell(new int(1)) {}
    ~Leg() { delete cell; }
    double LengthToS(double l) { return l; }
    double PathLength() { return *cell; }
    Frame Pos(double s) const { return Frame(Vector(*cell, s, 0)); }
    Twist Vel(double s, double sd) const { return Twist(Vector(*cell, s, sd), Vector(1, 0, 0)); }
    Twist Acc(double s, double sd, double sdd) const { return Twist(Vector(*cell, s, sd), Vector(2, sdd, 0)); }
    void Write(std::ostream&) {}
    Path* Clone() { return new Leg; }
    IdentifierType getIdentifier() const { return ID_LINE; }
};
struct Pace : VelocityProfile
{
    int* cell;
    Pace() : cell(new int(1)) {}
    ~Pace() { delete cell; }
    void SetProfile(double, double) {}
    void SetProfileDuration(double, double, double) {}
    double Duration() const { return *cell; }
    double Pos(double t) const { return t * *cell; }
    double Vel(double t) const { return t * *cell; }
    double Acc(double t) const { return t * *cell; }
    void Write(std::ostream&) const {}
    VelocityProfile* Clone() const { return new Pace; }
};
struct Leap : Trajectory
{
    int* cell;
    Leap() : cell(new int(1)) {}
    ~Leap() { delete cell; }
    double Duration() const { return *cell; }
    Frame Pos(double t) const { return Frame(Vector(*cell, t, 0)); }
    Twist Vel(double t) const { return Twist(Vector(*cell, t, 0), Vector(0, 0, 0)); }
    Twist Acc(double t) const { return Twist(Vector(*cell, t, 0), Vector(0, 0, 0)); }
    Trajectory* Clone() const { return new Leap; }
    void Write(std::ostream&) const {}
};
// uses every part of a path or trajectory
static volatile double sink;
VP_IN void use(Path& p)
{
    sink = p.PathLength();
    sink = p.Pos(vp_c(1)).p(0); sink = p.Vel(vp_c(1), vp_c(2)).vel(0); sink = p.Acc(vp_c(1), vp_c(2), vp_c(3)).vel(0);
}
VP_IN void use(Trajectory& p)
{
    sink = p.Duration();
    sink = p.Pos(vp_c(1)).p(0); sink = p.Vel(vp_c(1)).vel(0); sink = p.Acc(vp_c(1)).vel(0);
}
VP_IN void use(VelocityProfile& p) { sink = p.Duration(); sink = p.Pos(vp_c(1)); }
// the copy outlives the original, then the original the copy
template <class B> VP_IN void copies(B* p)
{
    B* a = p->Clone(); B* b = p->Clone();
    delete a;
    use(*p);
    delete p;
    use(*b);
    delete b;
}
VP_IN Frame at(int i) { return Frame(Vector(i, 0, 0)); }
VP_W w_line_owned() { copies<Path>(new Path_Line(at(1), at(3), new Watched, 1)); }
VP_W w_line_shared()
{
    Watched o;
    { Path_Line p(at(1), at(3), &o, 1, false); use(p); }
    copies<Path>(new Path_Line(at(1), at(3), &o, 1, false));
    sink = o.Angle();
}
VP_W w_line_twist_owned() { copies<Path>(new Path_Line(at(1), Twist(Vector(1, 0, 0), Vector(0, 0, 1)), new Watched, 1)); }
VP_W w_line_twist_shared()
{
    Watched o;
    { Path_Line p(at(1), Twist(Vector(1, 0, 0), Vector(0, 0, 1)), &o, 1, false); use(p); }
    sink = o.Angle();
}
VP_W w_circle_owned() { copies<Path>(new Path_Circle(at(0), Vector(2, 0, 0), Vector(2, 2, 0), Rotation(1, 0, 0, 0, 0, -1, 0, 1, 0), 1.5, new Watched, 1)); }
VP_W w_circle_shared()
{
    Watched o;
    { Path_Circle p(at(0), Vector(2, 0, 0), Vector(2, 2, 0), Rotation(1, 0, 0, 0, 0, -1, 0, 1, 0), 1.5, &o, 1, false); use(p); }
    copies<Path>(new Path_Circle(at(0), Vector(2, 0, 0), Vector(2, 2, 0), Rotation(1, 0, 0, 0, 0, -1, 0, 1, 0), 1.5, &o, 1, false));
    sink = o.Angle();
}
VP_W w_point() { copies<Path>(new Path_Point(at(1))); }
VP_W w_single_axis()
{
    RotationalInterpolation* o = new RotationalInterpolation_SingleAxis;
    o->SetStartEnd(rot(1), rot(2));
    RotationalInterpolation* c = o->Clone();
    delete o;
    sink = c->Pos(1)(0, 0);
    delete c;
}
VP_W w_composite_owned()
{
    Path_Composite* p = new Path_Composite;
    p->Add(new Leg); p->Add(new Leg, true); p->Add(new Leg);
    sink = p->GetSegment(2)->PathLength(); sink = p->GetLengthToEndOfSegment(2); sink = p->GetNrOfSegments();
    copies<Path>(p);
}
VP_W w_composite_shared()
{
    Leg a, b;
    {
        Path_Composite p;
        p.Add(&a, false); p.Add(new Leg, true); p.Add(&b, false);
        use(p);
        int k; double s;
        p.GetCurrentSegmentLocation(vp_c(4), k, s);
        Path* c = p.Clone();
        use(*c);
        delete c;
    }
    sink = a.PathLength() + b.PathLength();
}
VP_W w_composite_empty() { Path_Composite* p = new Path_Composite; Path* c = p->Clone(); delete p; delete c; }
VP_W w_cyclic_owned() { copies<Path>(new Path_Cyclic_Closed(new Leg, 3)); }
VP_W w_cyclic_shared()
{
    Leg a;
    { Path_Cyclic_Closed p(&a, 3, false); use(p); }
    copies<Path>(new Path_Cyclic_Closed(&a, 3, false));
    sink = a.PathLength();
}
template <bool straight> VP_IN void rounded(Path_RoundedComposite* p)
{
    double a = vp_pos(11), b = vp_pos(12);
    vp_assume(a > 0.5 + 1e-2 && b > 0.5 + 1e-2 && epsilon > 0 && epsilon < 1e-3);
    p->Add(at(0)); p->Add(Frame(Vector(a, 0, 0))); p->Add(Frame(straight ? Vector(a + b, 0, 0) : Vector(a, b, 0))); p->Finish();
    sink = p->GetSegment(0)->PathLength(); sink = p->GetNrOfSegments();
}
VP_W w_rounded_owned() { Path_RoundedComposite* p = new Path_RoundedComposite(0.5, 1, new Watched); rounded<false>(p); copies<Path>(p); }
VP_W w_rounded_straight() { Path_RoundedComposite* p = new Path_RoundedComposite(0.5, 1, new Watched); rounded<true>(p); copies<Path>(p); }
VP_W w_rounded_shared()
{
    Watched o;
    { Path_RoundedComposite p(0.5, 1, &o, false); rounded<false>(&p); use(p); }
    Path_RoundedComposite* p = new Path_RoundedComposite(0.5, 1, &o, false); rounded<true>(p); copies<Path>(p);
    sink = o.Angle();
}
VP_W w_rounded_unfinished()
{
    Path_RoundedComposite* p = new Path_RoundedComposite(0.5, 1, new Watched);
    p->Add(at(0)); p->Add(at(3));
    Path* c = p->Clone();
    delete p; delete c;
}
// ---- velocity profiles ----------------------------------------------------------
template <class P> VP_IN void profile(P* p) { p->SetProfile(0, 3); copies<VelocityProfile>(p); }
VP_W w_rect() { profile(new VelocityProfile_Rectangular(2)); }
VP_W w_trap() { profile(new VelocityProfile_Trap(2, 1)); }
VP_W w_traphalf() { profile(new VelocityProfile_TrapHalf(2, 1, true)); profile(new VelocityProfile_TrapHalf(2, 1, false)); }
VP_W w_dirac() { profile(new VelocityProfile_Dirac); }
VP_W w_spline()
{
    VelocityProfile_Spline* p = new VelocityProfile_Spline;
    p->SetProfileDuration(0, 1, 2); p->SetProfileDuration(0, 1, 2, 3, 4); p->SetProfileDuration(0, 1, 2, 3, 4, 5, 6);
    VelocityProfile_Spline a(*p), b; b = a;
    copies<VelocityProfile>(p);
    use(a); use(b);
}
// ---- trajectories ---------------------------------------------------------------
VP_W w_segment_owned() { copies<Trajectory>(new Trajectory_Segment(new Leg, new Pace)); }
VP_W w_segment_duration() { copies<Trajectory>(new Trajectory_Segment(new Leg, new Pace, 4.0)); }
VP_W w_segment_shared()
{
    Leg g; Pace v;
    { Trajectory_Segment t(&g, &v, false); use(t); }
    { Trajectory_Segment t(&g, &v, 2.0, false); use(t); }
    copies<Trajectory>(new Trajectory_Segment(&g, &v, false));
    sink = g.PathLength() + v.Duration();
}
VP_W w_stationary() { copies<Trajectory>(new Trajectory_Stationary(3, at(1))); }
VP_W w_traj_composite()
{
    Trajectory_Composite* t = new Trajectory_Composite;
    t->Add(new Leap); t->Add(new Leap); t->Add(new Leap);
    copies<Trajectory>(t);
}
VP_W w_traj_destroyed()
{
    Trajectory_Composite t;
    t.Add(new Leap); t.Add(new Leap);
    t.Destroy();
    t.Add(new Leap);
    use(t);
    t.Destroy();
    t.Destroy();
}
VP_W w_traj_empty() { Trajectory_Composite* t = new Trajectory_Composite; Trajectory* c = t->Clone(); delete t; delete c; }
// ---- the pointer that releases what it leads to ----------------------------------
VP_W w_scoped()
{
    scoped_ptr<Leg> a(new Leg);
    sink = a->PathLength();
    a.reset(new Leg);
    Leg* r = a.release();
    sink = r->PathLength();
    delete r;
    scoped_ptr<Leg> b;
    b.reset(new Leg);
    b.reset(0);
}
