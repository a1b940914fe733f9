// C24: trees: growing, copying, parts of them and chains through them
#include "kintree.hpp"
// r -+- a (turns) -+- c (turns)
//    |             +- d (fixed) --- e (slides)
//    +- b (slides)
// with the joints numbered a 0, b 1, c 2, e 3, other than depth first (a, c, e, b); general axes, origins, scales and offsets
static inline __attribute__((always_inline)) Joint jnt(const char* n, int i, Joint::JointType t)
{
    return t == Joint::Fixed ? Joint(n, Joint::Fixed)
         : Joint(n, vec(500 + 10 * i), rot(20 + i).UnitZ(), t, vp_c(600 + 10 * i), vp_c(601 + 10 * i), vp_c(602 + 10 * i), vp_c(603 + 10 * i), vp_c(604 + 10 * i));
}
static inline __attribute__((always_inline)) Segment gen(const char* n, int i, Joint::JointType t) { return Segment(n, jnt(n, i, t), Frame(rot(i), vec(30 + 10 * i)), inertia(i)); }
#define SEGMENTS Segment a = gen("a", 0, Joint::RotAxis), b = gen("b", 1, Joint::TransAxis), c = gen("c", 2, Joint::RotAxis), d = gen("d", 3, Joint::Fixed), e = gen("e", 4, Joint::TransAxis);
#define TREE(t) Tree t("r"); t.addSegment(a, "r"); t.addSegment(d, "a"); t.addSegment(b, "r"); t.addSegment(c, "a"); t.addSegment(e, "d");
static Frame F(const Segment& s, int j) { return s.pose(Q(j)); }
static void same(const Segment& s, const Segment& t, const char* l)
{
    vp_true(s.getName() == t.getName(), l); vp_true(s.getJoint().getName() == t.getJoint().getName(), l); vp_true(s.getJoint().getType() == t.getJoint().getType(), l);
    EQ(s.pose(vp_c(1)), t.pose(vp_c(1)), l); EQ(s.twist(vp_c(1), vp_c(2)), t.twist(vp_c(1), vp_c(2)), l);
    EQ(s.getInertia() * twi(900), t.getInertia() * twi(900), l); EQ(s.getJoint().getInertia(), t.getJoint().getInertia(), l);
    EQ(s.getJoint().getDamping(), t.getJoint().getDamping(), l); EQ(s.getJoint().getStiffness(), t.getJoint().getStiffness(), l);
}
// segment `name` of t is s, below `parent`, and has joint number nr
static inline __attribute__((always_inline)) void is(const Tree& t, const char* name, const char* parent, const Segment& s, unsigned nr, unsigned nchildren)
{
    SegmentMap::const_iterator i = t.getSegment(name);
    vp_true(i != t.getSegments().end(), "the segment is found by its name"); vp_true(i->first == std::string(name), "the segment found has that name");
    same(i->second.segment, s, "the segment is the one added");
    vp_true(i->second.q_nr == nr, "joints keep their numbers");
    vp_true(i->second.parent == t.getSegment(parent), "the parent is the segment of this tree it was added to");
    vp_true(i->second.children.size() == nchildren, "as many children as were added");
    bool listed = false;
    const TreeElement& p = t.getSegment(parent)->second;
    for (unsigned k = 0; k < p.children.size(); ++k) listed = listed || p.children[k] == i;
    vp_true(listed, "the parent lists it among its children");
}
static inline __attribute__((always_inline)) void whole(const Tree& t)
{
    SEGMENTS
    vp_true(t.getNrOfJoints() == 4, "movable joints are counted"); vp_true(t.getNrOfSegments() == 5, "segments are counted"); vp_true(t.getSegments().size() == 6, "the root and the segments are there");
    vp_true(t.getRootSegment() != t.getSegments().end(), "there is a root"); vp_true(t.getRootSegment()->first == std::string("r"), "the root keeps its name");
    vp_true(t.getRootSegment()->second.children.size() == 2, "children of the root");
    vp_true(t.getRootSegment()->second.segment.getJoint().getType() == Joint::Fixed, "the root has no joint"); EQ(t.getRootSegment()->second.segment.pose(vp_c(1)), Frame::Identity(), "the root is where it is");
    is(t, "a", "r", a, 0, 2); is(t, "b", "r", b, 1, 0); is(t, "c", "a", c, 2, 0); is(t, "d", "a", d, 0, 1); is(t, "e", "d", e, 3, 0);
    vp_true(t.getSegment("f") == t.getSegments().end(), "no other segment");
}
VP_W w_add()
{
    SEGMENTS
    Tree t("r");
    vp_true(t.getNrOfJoints() == 0 && t.getNrOfSegments() == 0 && t.getSegments().size() == 1, "a new tree is its root");
    vp_true(t.addSegment(a, "r"), "segments are added below the root"); vp_true(t.addSegment(d, "a"), "segments are added below segments"); vp_true(t.addSegment(b, "r"), "several below one");
    vp_true(!t.addSegment(c, "x"), "a segment to hook to that is not there is reported");
    vp_true(!t.addSegment(a, "b"), "a name already there is reported"); vp_true(!t.addSegment(a, "r"), "a name already there is reported");
    vp_true(t.addSegment(c, "a"), "segments are added after failures"); vp_true(t.addSegment(e, "d"), "segments are added below fixed ones");
    whole(t);
}
VP_W w_copy()
{
    SEGMENTS
    TREE(t)
    Tree s(t);
    whole(s); whole(t);
    s.addSegment(gen("f", 5, Joint::RotAxis), "b");
    whole(t);
    vp_true(s.getNrOfJoints() == 5, "copies can grow"); vp_true(s.getSegment("f")->second.q_nr == 4, "a copy that grows numbers on");
}
VP_W w_assign()
{
    SEGMENTS
    TREE(t)
    Tree s("q");
    s.addSegment(c, "q");
    s = t;
    whole(s); whole(t);
    s = s;
    whole(s);
}
VP_W w_copy_chain()
{   // a copy of a copy that grew
    SEGMENTS
    Tree t("r"); t.addSegment(a, "r"); t.addSegment(d, "a");
    Tree u(t);
    u.addSegment(b, "r"); u.addSegment(c, "a");
    Tree s("q"); s = u;
    s.addSegment(e, "d");
    whole(s);
}
VP_W w_add_chain()
{
    SEGMENTS
    Tree t("r"), u("r"), v("r");
    Chain ch; ch.addSegment(a); ch.addSegment(d); ch.addSegment(e);
    t.addSegment(b, "r"); u.addSegment(b, "r"); v.addSegment(b, "r");
    vp_true(t.addChain(ch, "b"), "a chain is added");
    u.addSegment(a, "b"); u.addSegment(d, "a"); u.addSegment(e, "d");
    for (int k = 0; k < 2; ++k)
    {
        const Tree& w = k ? u : t;
        vp_true(w.getNrOfJoints() == 3 && w.getNrOfSegments() == 4, "adding a chain adds its segments");
        is(w, "b", "r", b, 0, 1); is(w, "a", "b", a, 1, 1); is(w, "d", "a", d, 0, 1); is(w, "e", "d", e, 2, 0);
    }
    vp_true(!v.addChain(ch, "x"), "a hook that is not there is reported"); vp_true(v.getNrOfSegments() == 1, "nothing is added to a hook that is not there");
    ch.addSegment(b);
    vp_true(!v.addChain(ch, "b"), "a name already there is reported");
    Chain none; vp_true(v.addChain(none, "b"), "adding nothing succeeds");
}
VP_W w_add_tree()
{
    SEGMENTS
    Tree t("r"), u("s");
    t.addSegment(b, "r");
    u.addSegment(a, "s"); u.addSegment(d, "a"); u.addSegment(c, "a"); u.addSegment(e, "d");
    vp_true(t.addTree(u, "b"), "a tree is added");
    vp_true(t.getNrOfJoints() == 4 && t.getNrOfSegments() == 5, "adding a tree adds its segments, but not its root");
    vp_true(t.getSegments().size() == 6, "the root of the tree added is not taken over");
    unsigned na = t.getSegment("a")->second.q_nr, nc = t.getSegment("c")->second.q_nr, ne = t.getSegment("e")->second.q_nr;
    vp_true(na >= 1 && na <= 3 && nc >= 1 && nc <= 3 && ne >= 1 && ne <= 3 && na != nc && nc != ne && na != ne, "the joints added get the next numbers, each its own");
    is(t, "b", "r", b, 0, 1); is(t, "a", "b", a, na, 2); is(t, "d", "a", d, 0, 1); is(t, "c", "a", c, nc, 0); is(t, "e", "d", e, ne, 0);
    vp_true(!t.addTree(u, "b"), "names already there are reported"); vp_true(!t.addTree(u, "x"), "a hook that is not there is reported");
    vp_true(u.getNrOfSegments() == 4, "the tree added stays as it was");
    Tree none("n"); vp_true(t.addTree(none, "b"), "adding nothing succeeds");
}
VP_W w_sub_tree()
{
    SEGMENTS
    TREE(t)
    Tree s("q");
    s.addSegment(b, "q");
    vp_true(t.getSubTree("a", s), "a part is found");
    vp_true(s.getNrOfJoints() == 2 && s.getNrOfSegments() == 3 && s.getSegments().size() == 4, "the part has the segments below, and nothing else");
    vp_true(s.getRootSegment()->first == std::string("a"), "the segment named is the root of the part");
    unsigned nc = s.getSegment("c")->second.q_nr, ne = s.getSegment("e")->second.q_nr;
    vp_true(nc + ne == 1, "the joints of the part are numbered from zero, each its own");
    is(s, "c", "a", c, nc, 0); is(s, "d", "a", d, 0, 1); is(s, "e", "d", e, ne, 0);
    vp_true(!t.getSubTree("x", s), "a name that is not there is reported");
    whole(t);
    Tree l("q");
    vp_true(t.getSubTree("b", l), "a leaf is a part"); vp_true(l.getNrOfSegments() == 0 && l.getNrOfJoints() == 0 && l.getRootSegment()->first == std::string("b"), "nothing is below a leaf");
    Tree w("q");
    vp_true(t.getSubTree("r", w), "the whole tree is a part of itself"); vp_true(w.getNrOfSegments() == 5 && w.getNrOfJoints() == 4, "the part of the root is everything");
}
VP_W w_part_in_place()
{
    SEGMENTS
    TREE(t)
    vp_true(t.getSubTree("a", t), "a tree can be replaced by a part of itself");
    vp_true(t.getNrOfJoints() == 2 && t.getNrOfSegments() == 3 && t.getSegments().size() == 4, "the part has the segments below, and nothing else");
    vp_true(t.getRootSegment()->first == std::string("a"), "the segment named is the root of the part");
    unsigned nc = t.getSegment("c")->second.q_nr, ne = t.getSegment("e")->second.q_nr;
    is(t, "c", "a", c, nc, 0); is(t, "d", "a", d, 0, 1); is(t, "e", "d", e, ne, 0);
}
// ---- chains through the tree: the pose of the tip in the frame of the root, for all joint positions -----------------------
static inline __attribute__((always_inline)) Frame pose(const Chain& ch, const int* nr)
{
    Frame T;
    int j = 0;
    for (unsigned i = 0; i < ch.getNrOfSegments(); ++i)
        T = T * ch.getSegment(i).pose(ch.getSegment(i).getJoint().getType() == Joint::Fixed ? 0 : Q(nr[j++]));
    return T;
}
static inline __attribute__((always_inline)) void through(const char* from, const char* to, unsigned ns, unsigned nj, const int* nr, const Frame& T, Chain& ch)
{
    SEGMENTS
    TREE(t)
    vp_true(t.getChain(from, to, ch), "there is a chain from every segment to every other");
    vp_true(ch.getNrOfSegments() == ns, "the chain has the segments in between"); vp_true(ch.getNrOfJoints() == nj, "the chain has the joints in between");
    EQ(pose(ch, nr), T, "the chain moves its tip as the tree does");
}
VP_W w_chain_down()
{
    SEGMENTS
    static const int n[] = {0, 3}; Chain ch; ch.addSegment(b);
    through("r", "e", 3, 2, n, F(a, 0) * F(d, 0) * F(e, 3), ch);
    same(ch.getSegment(0), a, "segments away from the root are those of the tree"); same(ch.getSegment(1), d, "segments away from the root are those of the tree"); same(ch.getSegment(2), e, "segments away from the root are those of the tree");
    static const int m[] = {2};
    through("a", "c", 1, 1, m, F(c, 2), ch);
}
static void inverted(const Segment& s, const Segment& old, const Segment& parent)
{   // s leads from the tip of old back to its parent
    vp_true(s.getName() == parent.getName(), "an inverted segment ends in the parent and is called so"); vp_true(s.getJoint().getName() == old.getJoint().getName(), "an inverted joint keeps its name");
    EQ(s.pose(Q(0)), old.pose(Q(0)).Inverse(), "an inverted segment moves inversely");
    EQ(s.getInertia() * twi(900), parent.getInertia() * twi(900), "an inverted segment has the inertia of the parent");
    EQ(s.getJoint().getInertia(), old.getJoint().getInertia(), "an inverted joint keeps its inertia"); EQ(s.getJoint().getDamping(), old.getJoint().getDamping(), "an inverted joint keeps its damping"); EQ(s.getJoint().getStiffness(), old.getJoint().getStiffness(), "an inverted joint keeps its stiffness");
    vp_true((s.getJoint().getType() == Joint::Fixed) == (old.getJoint().getType() == Joint::Fixed), "an inverted joint moves exactly if it did");
}
VP_W w_chain_up_slides()
{
    SEGMENTS
    static const int n[] = {3}; Chain ch;
    through("e", "a", 2, 1, n, (F(d, 0) * F(e, 3)).Inverse(), ch);
    inverted(ch.getSegment(0), e, d); inverted(ch.getSegment(1), d, a);
}
VP_W w_chain_up_turns()
{
    SEGMENTS
    static const int n[] = {2}; Chain ch;
    through("c", "a", 1, 1, n, F(c, 2).Inverse(), ch);
    inverted(ch.getSegment(0), c, a);
}
VP_W w_chain_up_root()
{
    SEGMENTS
    static const int n[] = {1}; Chain ch;
    through("b", "r", 1, 1, n, F(b, 1).Inverse(), ch);
    inverted(ch.getSegment(0), b, Segment("r"));
}
VP_W w_chain_across()
{
    SEGMENTS
    static const int n[] = {1, 0}; Chain ch;
    through("b", "d", 3, 2, n, F(b, 1).Inverse() * F(a, 0) * F(d, 0), ch);
    inverted(ch.getSegment(0), b, Segment("r")); same(ch.getSegment(1), a, "segments away from the root are those of the tree"); same(ch.getSegment(2), d, "segments away from the root are those of the tree");
    static const int m[] = {2};
    through("c", "d", 2, 1, m, F(c, 2).Inverse() * F(d, 0), ch);
}
VP_W w_chain_none()
{
    SEGMENTS
    Chain ch; ch.addSegment(b);
    through("d", "d", 0, 0, 0, Frame::Identity(), ch);
    ch.addSegment(b);
    through("r", "r", 0, 0, 0, Frame::Identity(), ch);
    TREE(t)
    vp_true(!t.getChain("x", "a", ch), "a root that is not there is reported"); vp_true(!t.getChain("a", "x", ch), "a tip that is not there is reported");
    whole(t);
}
// the other types of joints, inverted
static inline __attribute__((always_inline)) void axis(Joint::JointType ty)
{
    Tree t("r");
    Segment s("s", Joint("s", ty, vp_c(600), vp_c(601), vp_c(602), vp_c(603), vp_c(604)), Frame(rot(0), vec(30)), inertia(0));
    t.addSegment(s, "r");
    Chain ch;
    vp_true(t.getChain("s", "r", ch), "there is a chain from every segment to every other");
    inverted(ch.getSegment(0), s, Segment("r"));
}
VP_W w_inv_rx() { axis(Joint::RotX); }
VP_W w_inv_ry() { axis(Joint::RotY); }
VP_W w_inv_rz() { axis(Joint::RotZ); }
VP_W w_inv_tx() { axis(Joint::TransX); }
VP_W w_inv_ty() { axis(Joint::TransY); }
VP_W w_inv_tz() { axis(Joint::TransZ); }
VP_W w_inv_fixed() { axis(Joint::Fixed); }
