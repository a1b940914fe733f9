// C08: joints and segments: the twist is the time derivative of the pose, for every joint type
#include "kdl.hpp"
#include "frames.cpp"
#include "rotationalinertia.cpp"
#include "rigidbodyinertia.cpp"
#include "joint.cpp"
#include "segment.cpp"
// An arbitrary joint: J and S are references to objects the analyser knows
// nothing about; every field is symbolic until assigned here.
static void arbitrary(Joint& J, int id)
{
    J.scale = vp_c(id); J.offset = vp_c(id + 1);
    J.axis = rot(id).UnitZ();              // any unit vector
    J.origin = vec(id + 5);
}
static Twist ratio(const Twist& t, double q) { return t; }
static void moving(const Frame& F, const Twist& t, const char* l) { DDT(F.p, t.vel, l); DDTROT(F.M, t.rot, l); }
static void proper(const Rotation& R, const char* l) { EQ(R * R.Inverse(), Rotation::Identity(), l); EQ(R.UnitX() * R.UnitY(), R.UnitZ(), l); }

VP_W w_joint_twist(Joint& J)
{
    arbitrary(J, 0);                       // J.type stays symbolic
    double q = vp_f(0, 0), qd = vp_f(0, 1);
    moving(J.pose(q), J.twist(qd), "joint twist is the derivative of the joint pose, for every type");
    proper(J.pose(q).M, "joint pose is a proper displacement");
    double a = vp_c(20), b = vp_c(21);
    EQ(J.twist(a + b), J.twist(a) + J.twist(b), "joint twist is linear in the joint velocity");
    EQ(J.twist(0), Twist::Zero(), "no joint velocity, no twist");
}
static void rotational(Joint& J, const Vector& axis, const Vector& o)
{
    double q = vp_f(0, 0), ang = J.scale * q + J.offset;
    EQ(J.twist(vp_c(30)), Twist(Vector::Zero(), axis * (J.scale * vp_c(30))), "rotational joint turns about its axis with scale");
    EQ(J.pose(q), Frame(Rotation::Rot2(axis, ang), o), "rotational joint: rotation by scale*q+offset about the axis");
    EQ(J.JointAxis(), axis, "JointAxis");
}
static void translational(Joint& J, const Vector& axis, const Vector& o)
{
    double q = vp_f(0, 0), d = J.scale * q + J.offset;
    EQ(J.twist(vp_c(30)), Twist(axis * (J.scale * vp_c(30)), Vector::Zero()), "translational joint moves along its axis with scale");
    EQ(J.pose(q), Frame(o + axis * d), "translational joint: displacement by scale*q+offset along the axis");
    EQ(J.JointAxis(), axis, "JointAxis");
}
VP_W w_types(Joint& J)
{
    arbitrary(J, 0);
    Vector n = rot(0).UnitZ(), o = vec(5);
    J.type = Joint::RotX; rotational(J, Vector(1, 0, 0), Vector::Zero());
    J.type = Joint::RotY; rotational(J, Vector(0, 1, 0), Vector::Zero());
    J.type = Joint::RotZ; rotational(J, Vector(0, 0, 1), Vector::Zero());
    J.type = Joint::RotAxis; rotational(J, n, o); EQ(J.JointOrigin(), o, "JointOrigin");
    J.type = Joint::TransX; translational(J, Vector(1, 0, 0), Vector::Zero());
    J.type = Joint::TransY; translational(J, Vector(0, 1, 0), Vector::Zero());
    J.type = Joint::TransZ; translational(J, Vector(0, 0, 1), Vector::Zero());
    J.type = Joint::TransAxis; translational(J, n, o);
    J.type = Joint::Fixed;
    EQ(J.pose(vp_c(30)), Frame::Identity(), "fixed joint does not move"); EQ(J.twist(vp_c(30)), Twist::Zero(), "fixed joint has no twist");
    EQ(J.JointAxis(), Vector::Zero(), "fixed joint has no axis");
}
VP_W w_accessors(Joint& J)
{
    arbitrary(J, 0);
    J.inertia = vp_c(40); J.damping = vp_c(41); J.stiffness = vp_c(42);
    EQ(J.getScale(), vp_c(0), "getScale"); EQ(J.getOffset(), vp_c(1), "getOffset"); EQ(J.getInertia(), vp_c(40), "getInertia");
    EQ(J.getDamping(), vp_c(41), "getDamping"); EQ(J.getStiffness(), vp_c(42), "getStiffness");
    EQ(J.JointOrigin(), vec(5), "JointOrigin"); EQ(J.getOrigin(), vec(5), "getOrigin"); EQ(J.getAxis(), rot(0).UnitZ(), "getAxis");
}
VP_W w_segment(Segment& S)
{
    arbitrary(S.joint, 0);
    S.f_tip = frm(1);
    double q = vp_f(0, 0), qd = vp_f(0, 1);
    Frame P = S.pose(q);
    moving(P, S.twist(q, qd), "segment twist is the derivative of the segment pose");
    EQ(P, S.joint.pose(q) * S.f_tip, "segment pose == joint pose * fixed transform");
    EQ(S.pose(0), S.getFrameToTip(), "getFrameToTip is the pose at joint position zero");
    EQ(S.getFrameToTipZero(), S.f_tip, "getFrameToTipZero is the fixed transform");
    proper(P.M, "segment pose is a proper displacement");
}
VP_W w_segment_tip(Segment& S)
{
    arbitrary(S.joint, 0);
    Frame F = frm(1);
    S.setFrameToTip(F);
    EQ(S.getFrameToTip(), F, "setFrameToTip/getFrameToTip round trip");
    EQ(S.pose(0), F, "pose at zero is the frame given");
}
VP_W w_joint_ctor(const std::string& name)
{
    Joint a(name, Joint::RotY, vp_c(0), vp_c(1), vp_c(2), vp_c(3), vp_c(4));
    EQ(a.getScale(), vp_c(0), "Joint(name,type,...): scale"); EQ(a.getOffset(), vp_c(1), "Joint(name,type,...): offset"); EQ(a.getInertia(), vp_c(2), "Joint(name,type,...): inertia");
    EQ(a.getDamping(), vp_c(3), "Joint(name,type,...): damping"); EQ(a.getStiffness(), vp_c(4), "Joint(name,type,...): stiffness");
    EQ((int)a.getType(), (int)Joint::RotY, "Joint(name,type,...): type");
    Joint b(Joint::TransX, vp_c(0), vp_c(1), vp_c(2), vp_c(3), vp_c(4));
    EQ(b.getScale(), vp_c(0), "Joint(type,...): scale"); EQ(b.getOffset(), vp_c(1), "Joint(type,...): offset"); EQ(b.getInertia(), vp_c(2), "Joint(type,...): inertia");
    EQ(b.getDamping(), vp_c(3), "Joint(type,...): damping"); EQ(b.getStiffness(), vp_c(4), "Joint(type,...): stiffness");
    EQ((int)b.getType(), (int)Joint::TransX, "Joint(type,...): type");
}
VP_W w_joint_axis_ctor(const std::string& name)
{
    Vector v = vec(20), o = vec(30), u = v;
    vp_assume(v(0) > 1e-2 && v(0) >= v(1) && v(0) >= v(2) && v(1) >= 0 && v(2) >= 0);
    u.Normalize();
    Joint a(name, o, v, Joint::RotAxis, vp_c(0), vp_c(1), vp_c(2), vp_c(3), vp_c(4));
    EQ(a.getScale(), vp_c(0), "Joint(name,o,axis,...): scale"); EQ(a.getOffset(), vp_c(1), "Joint(name,o,axis,...): offset"); EQ(a.getInertia(), vp_c(2), "Joint(name,o,axis,...): inertia");
    EQ(a.getDamping(), vp_c(3), "Joint(name,o,axis,...): damping"); EQ(a.getStiffness(), vp_c(4), "Joint(name,o,axis,...): stiffness");
    EQ(a.getAxis(), u, "Joint(name,o,axis,...): unit axis"); EQ(a.getOrigin(), o, "Joint(name,o,axis,...): origin");
    Joint b(o, v, Joint::TransAxis, vp_c(0), vp_c(1), vp_c(2), vp_c(3), vp_c(4));
    EQ(b.getScale(), vp_c(0), "Joint(o,axis,...): scale"); EQ(b.getOffset(), vp_c(1), "Joint(o,axis,...): offset"); EQ(b.getInertia(), vp_c(2), "Joint(o,axis,...): inertia");
    EQ(b.getDamping(), vp_c(3), "Joint(o,axis,...): damping"); EQ(b.getStiffness(), vp_c(4), "Joint(o,axis,...): stiffness");
    EQ(b.getAxis(), u, "Joint(o,axis,...): unit axis"); EQ(b.getOrigin(), o, "Joint(o,axis,...): origin");
}
VP_W w_segment_ctor(const std::string& name, const Joint& J)
{
    arbitrary(const_cast<Joint&>(J), 0);
    const_cast<Joint&>(J).type = Joint::RotAxis;
    Frame F = frm(1);
    RigidBodyInertia I(vp_c(50), vec(51), RotationalInertia(vp_c(54), vp_c(55), vp_c(56), vp_c(57), vp_c(58), vp_c(59)));
    Segment S(name, J, F, I), T(J, F, I);
    double q = vp_c(60);
    EQ(S.getFrameToTip(), F, "Segment(name,joint,F,I): frame to tip"); EQ(T.getFrameToTip(), F, "Segment(joint,F,I): frame to tip");
    EQ(S.getInertia().getMass(), vp_c(50), "Segment(name,joint,F,I): inertia"); EQ(T.getInertia().getMass(), vp_c(50), "Segment(joint,F,I): inertia");
    EQ(S.getInertia().getSpatialMomentum(), I.getSpatialMomentum(), "Segment(name,joint,F,I): inertia");
    EQ(S.pose(q), J.pose(q) * J.pose(0).Inverse() * F, "Segment(name,joint,F,I): pose");
    EQ(T.pose(q), J.pose(q) * J.pose(0).Inverse() * F, "Segment(joint,F,I): pose");
    Segment U(S);
    EQ(U.pose(q), S.pose(q), "copy has the same pose"); EQ(U.getInertia().getSpatialMomentum(), I.getSpatialMomentum(), "copy has the same inertia");
    EQ(U.getInertia().getMass(), vp_c(50), "copy has the same inertia");
}
