// C28: what is written as text is read back as it was
// vp:before-all textio.hpp
#include "kdl.hpp"
#include "utilities/utility_io.cxx"
#include "frames_io.cpp"
#include "frames.cpp"
#include "path.cpp"
#include "path_line.cpp"
#include "path_circle.cpp"
#include "path_point.cpp"
#include "path_composite.cpp"
#include "path_cyclic_closed.cpp"
#include "path_roundedcomposite.cpp"
#include "velocityprofile.cpp"
#include "velocityprofile_trap.cpp"
#include "velocityprofile_traphalf.cpp"
#include "velocityprofile_rect.cpp"
#include "velocityprofile_dirac.cpp"
#include "rotational_interpolation.cpp"
#include "rotational_interpolation_sa.cpp"
#include "trajectory.cpp"
#include "trajectory_segment.cpp"
#include "norm.hpp"
static int depth;
namespace KDL {
void IOTrace(const std::string&) { ++depth; }
void IOTracePop() { vp_true(depth > 0, "nothing is taken off an empty error trace"); --depth; }
}
static inline __attribute__((always_inline)) void EQ(const Rotation2& a, const Rotation2& b, const char* l) { EQ(a.c, b.c, l); EQ(a.s, b.s, l); }
typedef std::vptape Text;
typedef std::vpistream In;
typedef std::vpostream Out;
static const char* lb = "what is written is read back as it was";
template <class T> static inline __attribute__((always_inline)) void back(const T& a, T b, const char* l)
{
    Text t; Out o(t); o << a << "x";
    In i(t); depth = 0; i >> b;
    EQ(b, a, l); vp_true(i.good(), "reading succeeds"); EQ(depth, 0, "the error trace is left as it was"); vp_true(i.get() == 'x', "exactly what was written is read");
}
VP_W w_vector() { back(vec(0), vec(10), lb); }
VP_W w_twist() { back(twi(0), twi(10), lb); }
VP_W w_wrench() { back(wre(0), wre(10), lb); }
VP_W w_rotation() { back(mat(0), mat(20), lb); }
VP_W w_frame() { back(Frame(mat(0), vec(10)), Frame(mat(30), vec(40)), lb); }
VP_W w_vector2() { back(Vector2(vp_c(0), vp_c(1)), Vector2(vp_c(10), vp_c(11)), lb); }

// the angle is written in degrees; rotations are compared, not angles
VP_W w_rotation2() { vp_assume(vp_c(0) > -3 && vp_c(0) < 3); back(Rotation2(vp_c(0)), Rotation2(vp_c(1)), lb); }
VP_W w_frame2()
{
    vp_assume(vp_c(0) > -3 && vp_c(0) < 3);
    Frame2 a(Rotation2(vp_c(0)), Vector2(vp_c(2), vp_c(3))), b;
    Text t; Out o(t); o << a << "x"; In i(t); depth = 0; i >> b;
    EQ(b.M, a.M, lb); EQ(b.p, a.p, lb); vp_true(i.good(), "reading succeeds"); EQ(depth, 0, "the error trace is left as it was"); vp_true(i.get() == 'x', "exactly what was written is read");
}
// ---- documented forms
#define READ(type, text, want, l) { Text t; Out o(t); o << text << "x"; In i(t); depth = 0; type r; i >> r; EQ(r, want, l); vp_true(i.good(), "reading succeeds"); EQ(depth, 0, "the error trace is left as it was"); }
static double D(int i) { return vp_c(i) * (PI / 180); }
#define V3(i) "[" << vp_c(i) << "," << vp_c(i + 1) << "," << vp_c(i + 2) << "]"
VP_W w_zero() { READ(Vector, "zero[", Vector(0, 0, 0), "Zero is the zero vector") READ(Vector, "  ZERO]", Vector(0, 0, 0), "Zero is the zero vector") }
VP_W w_identity() { READ(Rotation, "Identity]", Rotation(1, 0, 0, 0, 1, 0, 0, 0, 1), "Identity is the identity") }
VP_W w_rpy() { READ(Rotation, "Rpy" << V3(0), Rotation::RotZ(D(2)) * Rotation::RotY(D(1)) * Rotation::RotX(D(0)), "roll, pitch and yaw in degrees") }
VP_W w_zyx() { READ(Rotation, "Eulerzyx " << V3(0), Rotation::RotZ(D(0)) * Rotation::RotY(D(1)) * Rotation::RotX(D(2)), "Z-Y-X Euler angles in degrees") }
VP_W w_zyz() { READ(Rotation, "EulerZYZ" << V3(0), Rotation::RotZ(D(0)) * Rotation::RotY(D(1)) * Rotation::RotZ(D(2)), "Z-Y-Z Euler angles in degrees") }
VP_W w_rot() { vp_assume(vp_c(0) > 1); READ(Rotation, "Rot" << V3(0) << " [" << vp_c(5) << "]", Rotation::Rot(vec(0), D(5)), "an axis and an angle in degrees") }
VP_W w_dh() { READ(Frame, "DH [" << vp_c(0) << "," << vp_c(1) << "," << vp_c(2) << "," << vp_c(3) << "]", Frame::DH(vp_c(0), D(1), vp_c(2), D(3)), "Denavit-Hartenberg parameters, angles in degrees") }
VP_W w_blanks()
{
    READ(Vector, "  \n\t[ " << vp_c(0) << " ,\n" << vp_c(1) << "\t,  " << vp_c(2) << "\n ]", vec(0), "blanks do not matter")
    READ(Vector, "# a comment\n[ /* a [comment], * too */ " << vp_c(0) << ", // and this\n" << vp_c(1) << ", // one\n// another\n" << vp_c(2) << " /**/]", vec(0), "comments do not matter")
    READ(Frame, " [ RPY " << V3(0) << "#\n Zero ]", Frame(Rotation::RotZ(D(2)) * Rotation::RotY(D(1)) * Rotation::RotX(D(0)), Vector(0, 0, 0)), "forms can be nested")
    READ(Frame, "[Identity" << V3(0) << "]", Frame(Rotation(1, 0, 0, 0, 1, 0, 0, 0, 1), vec(0)), "forms can be nested")
}
// ---- words
VP_W w_word()
{
    struct { char s[8]; char after[4]; } b;
    for (int i = 0; i < 4; ++i) b.after[i] = 'a' + i;
    Text t; Out o(t); o << " # comment\n aBc9_(" << "dEf ghi[" << "sevench{" << "x";
    In i(t);
    EatWord(i, "[(", b.s, 8); vp_true(!strcmp(b.s, "ABC9_"), "a word ends at a delimiter and is in capitals"); vp_true(i.get() == '(', "the delimiter is not read");
    EatWord(i, "[", b.s, 8); vp_true(!strcmp(b.s, "DEF"), "a word ends at a blank"); 
    EatWord(i, "[", b.s, 8); vp_true(!strcmp(b.s, "GHI"), "words follow each other"); vp_true(i.get() == '[', "the delimiter is not read");
    EatWord(i, "{", b.s, 8); vp_true(!strcmp(b.s, "SEVENCH"), "a word may be as long as the storage less one"); vp_true(i.get() == '{', "the delimiter is not read");
    for (int k = 0; k < 4; ++k) vp_true(b.after[k] == 'a' + k, "nothing is written past the storage");
    EatWord(i, "x", b.s, 8); vp_true(b.s[0] == 0, "there may be no word"); vp_true(i.get() == 'x', "the delimiter is not read");
    vp_reached("words are read");
}
VP_W w_word_too_long() { char s[12]; s[4] = 'g'; Text t; Out o(t); o << "four["; In i(t); vp_reached("the text is there"); EatWord(i, "[", s, 4); vp_true(false, "a word longer than the storage less one is refused"); }
VP_W w_descript()
{
    Text t; Out o(t); o << "  One  /* c */ tWo[x"; In i(t);
    Eat(i, "oNE two"); vp_reached("words are read whatever their case"); Eat(i, '['); vp_true(i.get() == 'x', "exactly what was expected is read");
}
VP_W w_delim() { Text t; Out o(t); o << " ]"; In i(t); vp_reached("the text is there"); Eat(i, '['); vp_true(false, "another character than the one expected is refused"); }
VP_W w_delim_end() { Text t; Out o(t); o << " ["; In i(t); vp_reached("the text is there"); EatEnd(i, ']'); vp_true(false, "another character than the one expected is refused"); }
VP_W w_no_blank() { Text t; Out o(t); o << "onetwo"; In i(t); vp_reached("the text is there"); Eat(i, "one two"); vp_true(false, "a missing blank is refused"); }
VP_W w_other_word() { Text t; Out o(t); o << "one twa"; In i(t); vp_reached("the text is there"); Eat(i, "one two"); vp_true(false, "another word than the one expected is refused"); }
VP_W w_no_number() { Text t; Out o(t); o << "[ ZERO, " << vp_c(0) << "," << vp_c(1) << "]x"; In i(t); vp_reached("the text is there"); Vector v; i >> v; vp_true(false, "a vector without numbers is refused"); }
VP_W w_no_form() { Text t; Out o(t); o << "ZEROS[" << vp_c(0) << "," << vp_c(1) << "," << vp_c(2) << "]x"; In i(t); vp_reached("the text is there"); Vector v; i >> v; vp_true(false, "an unknown form is refused"); }
VP_W w_no_rotation() { Text t; Out o(t); o << "EULERXYZ[" << vp_c(0) << "," << vp_c(1) << "," << vp_c(2) << "]x"; In i(t); vp_reached("the text is there"); Rotation v; i >> v; vp_true(false, "an unknown form is refused"); }
VP_W w_no_frame() { Text t; Out o(t); o << "HD[" << vp_c(0) << "," << vp_c(1) << "," << vp_c(2) << "," << vp_c(3) << "]x"; In i(t); vp_reached("the text is there"); Frame v; i >> v; vp_true(false, "an unknown form is refused"); }
VP_W w_short() { Text t; Out o(t); o << "[" << vp_c(0) << "," << vp_c(1) << "]x"; In i(t); vp_reached("the text is there"); Vector v; i >> v; vp_true(false, "a vector of two numbers is refused"); }
VP_W w_long() { Text t; Out o(t); o << "[" << vp_c(0) << "," << vp_c(1) << "," << vp_c(2) << "," << vp_c(3) << "]x"; In i(t); vp_reached("the text is there"); Vector v; i >> v; vp_true(false, "a vector of four numbers is refused"); }
VP_W w_end() { Text t; Out o(t); o << "[" << vp_c(0) << "," << vp_c(1) << ","; In i(t); vp_reached("the text is there"); Vector v; i >> v; vp_true(false, "a vector that is not complete is refused"); }
// ---- paths
// the rotations of these paths are about one axis, over less than half a turn (C03 decides what GetRotAngle gives)
static Rotation turn() { return Rotation::Rot2(rot(901).UnitZ(), vp_pos(7)); }
extern "C" double vp_sub__ZNK3KDL8Rotation11GetRotAngleERNS_6VectorEd(const Rotation* R, Vector* axis, double)
{
    EQ(*R, turn(), "the orientations written are those at the start and the end");
    *axis = rot(901).UnitZ();
    return vp_pos(7);
}
static Vector leg(int i)      // a general displacement with its largest component along x
{
    Vector d = vec(i);
    vp_assume(d(0) > 1e-2 && d(0) >= d(1) && d(0) >= d(2) && d(1) >= 0 && d(2) >= 0);
    return d;
}
static const char* lp = "a path read back is the path written";
static inline __attribute__((always_inline)) void same(Path* p, Path* q)
{
    double s = vp_c(800), sd = vp_c(801), sdd = vp_c(802);
    EQ(q->PathLength(), p->PathLength(), lp); EQ(q->Pos(s), p->Pos(s), lp); EQ(q->Vel(s, sd), p->Vel(s, sd), lp); EQ(q->Acc(s, sd, sdd), p->Acc(s, sd, sdd), lp); EQ(q->getIdentifier(), p->getIdentifier(), lp);
}
static inline __attribute__((always_inline)) Path* again(Path* p)
{
    Text t; Out o(t); p->Write(o); o << "x"; In i(t); depth = 0;
    Path* q = Path::Read(i);
    vp_reached("a path written is read"); vp_true(i.good(), "reading succeeds"); EQ(depth, 0, "the error trace is left as it was");
    vp_true(i.get() == '\n' && i.get() == 'x', "exactly what was written is read");
    return q;
}
static Path_Line* line() { return new Path_Line(Frame(rot(1), vec(0)), Frame(rot(1) * turn(), vec(0) + leg(20)), new RotationalInterpolation_SingleAxis, vp_pos(2)); }
VP_W w_line() { Path* p = line(); same(p, again(p)); }
VP_W w_point() { Path_Point p(frm(1)); same(&p, again(&p)); }
VP_W w_circle()
{
    double r = vp_pos(10);
    vp_assume(r > 1e-2 && vp_pos(11) > 1e-2 && epsilon > 0 && epsilon < 1e-2 && vp_pos(11) > epsilon * sqrt(vp_c(12) * vp_c(12) + vp_pos(11) * vp_pos(11)));
    Frame C(rot(3), vec(0));
    Path_Circle p(Frame(rot(1), C * Vector(r, 0, 0)), C.p, C * Vector(vp_c(12), vp_pos(11), 0), rot(1) * turn(), vp_pos(13), new RotationalInterpolation_SingleAxis, vp_pos(2));
    same(&p, again(&p));
}
VP_W w_composite()
{
    Path_Composite p; p.Add(line()); p.Add(new Path_Point(frm(1))); p.Add(line());
    Path_Composite* q = static_cast<Path_Composite*>(again(&p));
    EQ(q->getIdentifier(), Path::ID_COMPOSITE, lp); EQ(q->GetNrOfSegments(), 3, lp); EQ(q->PathLength(), p.PathLength(), lp);
    same(p.GetSegment(0), q->GetSegment(0)); same(p.GetSegment(1), q->GetSegment(1)); same(p.GetSegment(2), q->GetSegment(2));
}
VP_W w_cyclic()
{
    Path_Cyclic_Closed p(line(), 3);
    Path_Cyclic_Closed* q = static_cast<Path_Cyclic_Closed*>(again(&p));
    EQ(q->getIdentifier(), Path::ID_CYCLIC_CLOSED, lp); EQ(q->PathLength(), p.PathLength(), lp); same(p.geom, q->geom);
}
VP_W w_rounded()
{
    // of two poses: the line between them
    vp_assume(epsilon > 0 && epsilon < 1e-2);
    Path_RoundedComposite p(vp_pos(30), vp_pos(2), new RotationalInterpolation_SingleAxis);
    p.Add(Frame(rot(1), vec(0))); p.Add(Frame(rot(1) * turn(), vec(0) + leg(20))); p.Finish();
    Text t; Out o(t); o << "RoundedComposite[" << vp_pos(30) << " " << vp_pos(2) << " SingleAxis[] " << 2 << " " << Frame(rot(1), vec(0)) << Frame(rot(1) * turn(), vec(0) + leg(20)) << "]x"; In i(t); depth = 0;
    Path* q = Path::Read(i);
    vp_reached("a path is read"); vp_true(i.good(), "reading succeeds"); EQ(depth, 0, "the error trace is left as it was"); vp_true(i.get() == 'x', "exactly the path is read");
    same(&p, q);
}
VP_W w_rounded_written()
{
    vp_assume(epsilon > 0 && epsilon < 1e-2);
    Path_RoundedComposite p(vp_pos(30), vp_pos(2), new RotationalInterpolation_SingleAxis);
    p.Add(Frame(rot(1), vec(0))); p.Add(Frame(rot(1) * turn(), vec(0) + leg(20))); p.Finish();
    Path_Composite* q = static_cast<Path_Composite*>(again(&p));   // what is written are the lines and arcs
    EQ(q->GetNrOfSegments(), p.GetNrOfSegments(), lp); EQ(q->PathLength(), p.PathLength(), lp); same(p.GetSegment(0), q->GetSegment(0));
}
VP_W w_no_path() { Text t; Out o(t); o << "SPIRAL[ " << vec(0) << " ]x"; In i(t); vp_reached("the text is there"); Path::Read(i); vp_true(false, "an unknown path is refused"); }
VP_W w_no_orientation() { Text t; Out o(t); o << "TwoAxis[]x"; In i(t); vp_reached("the text is there"); RotationalInterpolation::Read(i); vp_true(false, "an interpolation that is not there is refused"); }
VP_W w_no_orientation2() { Text t; Out o(t); o << "FourAxis[]x"; In i(t); vp_reached("the text is there"); RotationalInterpolation::Read(i); vp_true(false, "an unknown interpolation is refused"); }
// ---- velocity profiles: their limits are written
static const char* lv = "a profile read back is the profile written, for any positions";
static inline __attribute__((always_inline)) void profile(VelocityProfile* p)
{
    Text t; Out o(t); p->Write(o); o << "x"; In i(t); depth = 0;
    VelocityProfile* q = VelocityProfile::Read(i);
    vp_reached("a profile written is read"); vp_true(i.good(), "reading succeeds"); EQ(depth, 0, "the error trace is left as it was"); vp_true(i.get() == 'x', "exactly what was written is read");
    double a = vp_c(10), b = vp_c(10) + vp_pos(11);
    vp_assume(vp_pos(1) > 0.1 && vp_pos(2) > 0.1);
    p->SetProfile(a, b); q->SetProfile(a, b);
    EQ(q->Duration(), p->Duration(), lv); double s = vp_c(12); EQ(q->Pos(s), p->Pos(s), lv); EQ(q->Vel(s), p->Vel(s), lv);
}
VP_W w_profile_end()
{
    Text t, u, v, w; Out o(t), p(u), q(v), r(w);
    o << "TRAPEZOIDAL[" << 1 << "," << 2 << "]"; p << "CONSTVEL[" << 1 << "]"; q << "DIRACVEL[ ]"; r << "TrapezoidalHalf[" << 1 << "," << 2 << "," << 0 << "]";
    In i(t), j(u), k(v), m(w);
    depth = 0; VelocityProfile::Read(i); VelocityProfile::Read(j); VelocityProfile::Read(k); VelocityProfile::Read(m);
    vp_true(i.good() && j.good() && k.good() && m.good(), "a profile can be the last of a stream");
}
VP_W w_trap() { profile(new VelocityProfile_Trap(vp_pos(1), vp_pos(2))); }
VP_W w_traphalf_start() { profile(new VelocityProfile_TrapHalf(vp_pos(1), vp_pos(2), true)); }
VP_W w_traphalf_stop() { profile(new VelocityProfile_TrapHalf(vp_pos(1), vp_pos(2), false)); }
VP_W w_rect() { profile(new VelocityProfile_Rectangular(vp_pos(1))); }
VP_W w_dirac()
{
    Text t; Out o(t); VelocityProfile_Dirac p; p.Write(o); o << "x"; In i(t); depth = 0;
    VelocityProfile* q = VelocityProfile::Read(i);
    vp_reached("a profile written is read"); vp_true(i.good(), "reading succeeds"); EQ(depth, 0, "the error trace is left as it was"); vp_true(i.get() == 'x', "exactly what was written is read");
    double a = vp_c(10), b = vp_c(11), T = vp_pos(12); p.SetProfileDuration(a, b, T); q->SetProfileDuration(a, b, T);
    EQ(q->Duration(), p.Duration(), lv); double s = vp_c(13); EQ(q->Pos(s), p.Pos(s), lv); EQ(q->Vel(s), p.Vel(s), lv);
}
VP_W w_no_profile() { Text t; Out o(t); o << "TRAPEZOID[ " << 1 << "," << 2 << " ]x"; In i(t); vp_reached("the text is there"); VelocityProfile::Read(i); vp_true(false, "an unknown profile is refused"); }
// ---- trajectories
VP_W w_trajectory()
{
    Path_Line* g = line(); VelocityProfile_Trap* v = new VelocityProfile_Trap(vp_pos(1), vp_pos(2));
    Trajectory_Segment p(g, v);
    Text t; Out o(t); p.Write(o); o << "x"; In i(t); depth = 0;
    Trajectory_Segment* q = static_cast<Trajectory_Segment*>(Trajectory::Read(i));
    vp_reached("a trajectory written is read"); vp_true(i.good(), "reading succeeds"); EQ(depth, 0, "the error trace is left as it was"); vp_true(i.get() == 'x', "exactly what was written is read");
    same(p.GetPath(), q->GetPath());
    double a = vp_c(10), b = vp_c(10) + vp_pos(11);
    vp_assume(vp_pos(1) > 0.1 && vp_pos(2) > 0.1);
    v->SetProfile(a, b); q->GetProfile()->SetProfile(a, b);
    EQ(q->GetProfile()->Duration(), v->Duration(), lv); EQ(q->GetProfile()->Pos(vp_c(12)), v->Pos(vp_c(12)), lv);
}
VP_W w_no_trajectory() { Text t; Out o(t); o << "SEGMENTS[ ]x"; In i(t); vp_reached("the text is there"); Trajectory::Read(i); vp_true(false, "an unknown trajectory is refused"); }
