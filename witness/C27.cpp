// C27: chains are the segments added to them, in order
#include "kintree.hpp"
#define VP_IN static inline __attribute__((always_inline))
VP_IN Joint jnt(const char* n, int i, Joint::JointType t)
{
    return t == Joint::RotAxis || t == Joint::TransAxis ? Joint(n, vec(500 + 10 * i), rot(20 + i).UnitZ(), t, vp_c(600 + 10 * i), vp_c(601 + 10 * i), vp_c(602 + 10 * i), vp_c(603 + 10 * i), vp_c(604 + 10 * i))
         : Joint(n, t, vp_c(600 + 10 * i), vp_c(601 + 10 * i), vp_c(602 + 10 * i), vp_c(603 + 10 * i), vp_c(604 + 10 * i));
}
VP_IN Segment gen(const char* n, const char* j, int i, Joint::JointType t) { return Segment(n, jnt(j, i, t), Frame(rot(i), vec(30 + 10 * i)), inertia(i)); }
#define SEGMENTS Segment a = gen("a", "ja", 0, Joint::RotAxis), b = gen("b", "jb", 1, Joint::Fixed), c = gen("c", "jc", 2, Joint::TransY), d = gen("d", "jd", 3, Joint::TransAxis);
static void same(const Segment& s, const Segment& t, const char* l)
{
    vp_true(s.getName() == t.getName(), l); vp_true(s.getJoint().getName() == t.getJoint().getName(), l); vp_true(s.getJoint().getType() == t.getJoint().getType(), l);
    EQ(s.pose(vp_c(1)), t.pose(vp_c(1)), l); EQ(s.twist(vp_c(1), vp_c(2)), t.twist(vp_c(1), vp_c(2)), l); EQ(s.getFrameToTip(), t.getFrameToTip(), l);
    EQ(s.getInertia() * twi(900), t.getInertia() * twi(900), l); EQ(s.getJoint().getInertia(), t.getJoint().getInertia(), l);
    EQ(s.getJoint().getDamping(), t.getJoint().getDamping(), l); EQ(s.getJoint().getStiffness(), t.getJoint().getStiffness(), l);
    EQ(s.getJoint().getScale(), t.getJoint().getScale(), l); EQ(s.getJoint().getOffset(), t.getJoint().getOffset(), l);
}
VP_IN void sizes(const Chain& ch, int ns, int nj) { EQ(ch.getNrOfSegments(), ns, "segments are counted"); EQ(ch.segments.size(), ns, "segments are counted"); EQ(ch.getNrOfJoints(), nj, "movable joints are counted"); }
VP_IN void abcd(const Chain& ch) { SEGMENTS sizes(ch, 4, 3); const char* l = "the segments are those added, in order"; same(ch.getSegment(0), a, l); same(ch.getSegment(1), b, l); same(ch.getSegment(2), c, l); same(ch.getSegment(3), d, l); }
VP_IN void fill(Chain& ch) { SEGMENTS ch.addSegment(a); ch.addSegment(b); ch.addSegment(c); ch.addSegment(d); }
VP_W w_add() { Chain ch; sizes(ch, 0, 0); fill(ch); abcd(ch); }
VP_W w_own_segment()
{   // a segment of the chain itself is added again, as often as the storage may grow
    SEGMENTS
    Chain ch; ch.addSegment(a); ch.addSegment(b);
    for (int i = 0; i < 4; ++i) { ch.addSegment(ch.getSegment(0)); sizes(ch, 3 + i, 2 + i); }
    const char* l = "a segment of the chain can be added again";
    same(ch.getSegment(0), a, l); same(ch.getSegment(1), b, l); for (int i = 2; i < 6; ++i) same(ch.getSegment(i), a, l);
}
VP_W w_copy()
{
    SEGMENTS
    Chain ch; fill(ch);
    Chain cp(ch); abcd(cp); abcd(ch);
    cp.addSegment(a); abcd(ch); sizes(cp, 5, 4);
    cp.getSegment(0).setInertia(inertia(3)); cp.getSegment(2).setFrameToTip(frm(9)); abcd(ch);
    EQ(cp.getSegment(0).getInertia() * twi(900), inertia(3) * twi(900), "segments can be changed in place"); EQ(cp.getSegment(2).getFrameToTip(), frm(9), "segments can be changed in place");
    same(cp.getSegment(1), b, "other segments stay"); same(cp.getSegment(3), d, "other segments stay");
}
VP_W w_assign()
{
    SEGMENTS
    Chain ch, o; fill(ch);
    o.addSegment(d); o.addSegment(b);
    o = ch; abcd(o); abcd(ch);
    o.getSegment(1).setInertia(inertia(0)); abcd(ch);
    Chain e; o = e; sizes(o, 0, 0); o.addSegment(a); sizes(o, 1, 1); same(o.getSegment(0), a, "chains can be filled again");
    vp_true(&(o = ch) == &o, "assignment returns the chain assigned to"); abcd(o);
}
// chains that begin and end with fixed segments, or hold nothing else
template <int n> VP_IN void fixed(Chain& ch) { SEGMENTS ch.addSegment(b); if (n > 1) ch.addSegment(a); if (n > 2) { ch.addSegment(b); ch.addSegment(b); } }
template <int n> VP_IN void isfixed(const Chain& ch)
{
    SEGMENTS
    sizes(ch, n > 2 ? 4 : n, n > 1 ? 1 : 0);
    const char* l = "fixed segments are part of the chain";
    same(ch.getSegment(0), b, l); if (n > 1) same(ch.getSegment(1), a, l); if (n > 2) { same(ch.getSegment(2), b, l); same(ch.getSegment(3), b, l); }
}
template <int n> VP_IN void fixedways()
{
    Chain ch; fixed<n>(ch); isfixed<n>(ch);
    Chain cp(ch); isfixed<n>(cp);
    Chain as; fill(as); as = ch; isfixed<n>(as);
    Chain ad; ad.addChain(ch); isfixed<n>(ad);
    Chain e, c(e), o; sizes(c, 0, 0); o = c; sizes(o, 0, 0); o.addChain(e); sizes(o, 0, 0); ch = e; sizes(ch, 0, 0);
}
VP_W w_fixed_only() { fixedways<1>(); }
VP_W w_fixed_first() { fixedways<2>(); }
VP_W w_fixed_last() { fixedways<3>(); }
VP_W w_assign_self() { Chain ch; fill(ch); Chain& same_chain = ch; ch = same_chain; abcd(ch); }
VP_W w_add_chain()
{
    SEGMENTS
    Chain x, y, e; x.addSegment(a); x.addSegment(b); y.addSegment(c); y.addSegment(d);
    x.addChain(y); abcd(x); sizes(y, 2, 2);
    x.addChain(e); abcd(x); e.addChain(x); abcd(e); abcd(x);
}
VP_W w_add_self()
{
    SEGMENTS
    Chain x; x.addSegment(a); x.addSegment(b);
    x.addChain(x);
    sizes(x, 4, 2);
    const char* l = "a chain can be added to itself";
    same(x.getSegment(0), a, l); same(x.getSegment(1), b, l); same(x.getSegment(2), a, l); same(x.getSegment(3), b, l);
}
VP_W w_segments()
{
    SEGMENTS
    Segment n("n"), u;
    EQ((int)n.getJoint().getType(), (int)Joint::Fixed, "without a joint a segment is fixed"); EQ((int)u.getJoint().getType(), (int)Joint::Fixed, "without a joint a segment is fixed");
    vp_true(n.getName() == std::string("n"), "the name of a segment"); EQ(n.pose(vp_c(1)), Frame::Identity(), "without a tip a segment has no length"); EQ(n.getInertia() * twi(900), Wrench::Zero(), "without inertia a segment has none");
    EQ(u.pose(vp_c(1)), Frame::Identity(), "without a tip a segment has no length"); EQ(u.getInertia() * twi(900), Wrench::Zero(), "without inertia a segment has none");
    Segment s(a); same(s, a, "copies are equal"); s = d; same(s, d, "assigned segments are equal"); Segment& t = s; s = t; same(s, d, "assigning a segment to itself does not change it");
    s.setInertia(inertia(0)); same(d, gen("d", "jd", 3, Joint::TransAxis), "copies are independent"); EQ(s.getInertia() * twi(900), inertia(0) * twi(900), "setInertia");
    Joint j("x", Joint::RotX), k(Joint::TransZ), f("f");
    vp_true(j.getName() == std::string("x"), "the name of a joint"); EQ((int)f.getType(), (int)Joint::Fixed, "without a type a joint is fixed");
    EQ(j.pose(Q(0)), Frame(Rotation::RotX(Q(0))), "default scale and offset"); EQ(k.pose(Q(0)), Frame(Vector(0, 0, Q(0))), "default scale and offset");
    EQ(j.getInertia(), 0, "default parameters"); EQ(j.getDamping(), 0, "default parameters"); EQ(j.getStiffness(), 0, "default parameters"); EQ(j.getScale(), 1, "default parameters"); EQ(j.getOffset(), 0, "default parameters");
}
