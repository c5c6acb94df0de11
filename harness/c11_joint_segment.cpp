// C11: joints and segments move as their type prescribes.
#include "kin.hpp"
#include <joint.hpp>
#include <segment.hpp>
using namespace kin;
typedef KDL::Joint J;

static const J::JointType TYPES[] = {J::RotAxis, J::RotX, J::RotY, J::RotZ, J::TransAxis, J::TransX, J::TransY, J::TransZ, J::Fixed};
static const char* NAMES[] = {"RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"};

static Seg choose_joint(bool small = false) {
    Seg g;
    int t = mc::choose(9, "type");
    g.type = TYPES[t];
    if (g.type == J::RotAxis || g.type == J::TransAxis) {
        static const V ax[] = {V(1, 0, 0), V(0, 1, 0), V(0, 0, 2), V(0, 0, -1), V(1, 1, 0), V(1, 2, -0.5), V(-3, 0.1, 0.2), V(1e-4, -2e-4, 1e-4), V(-0.6, -0.8, 0), V(1, 1, 1)};
        static const V og[] = {V(), V(0.1, 0.2, -0.3), V(-5, 0, 2)};
        g.axis = small ? (mc::flag("axis") ? ax[5] : ax[3]) : mc::pick(ax, "axis");
        g.origin = small ? og[1] : mc::pick(og, "origin");
    }
    static const double sc[] = {1, -1, 0.5, -2, 0}, of[] = {0, 0.4, -1.5707963267948966, 7};
    g.scale = small ? sc[3 * mc::choose(2, "scale")] : mc::pick(sc, "scale");
    g.offset = small ? of[mc::choose(2, "offset")] : mc::pick(of, "offset");
    g.ji = 0.11; g.jd = 0.22; g.js = 0.33;
    g.name = "seg";
    return g;
}
static void getters(const KDL::Joint& j, const Seg& g, const std::string& name, bool extras) {
    mc::check(j.getType() == g.type, "joint type", "type %d instead of %d", j.getType(), g.type);
    int t = 0; while (TYPES[t] != g.type) t++;
    mc::check(j.getTypeName() == NAMES[t], "type name", "%s", j.getTypeName().c_str());
    mc::check(j.getName() == name, "joint name", "%s", j.getName().c_str());
    mc::check(j.getScale() == g.scale, "scale", "%g", j.getScale());
    mc::check(j.getOffset() == g.offset, "offset", "%g", j.getOffset());
    mc::check(j.getInertia() == (extras ? g.ji : 0), "inertia", "%g", j.getInertia());
    mc::check(j.getDamping() == (extras ? g.jd : 0), "damping", "%g", j.getDamping());
    mc::check(j.getStiffness() == (extras ? g.js : 0), "stiffness", "%g", j.getStiffness());
    nearV(j.JointAxis(), g.dir(), 1e-14, "joint axis");
    nearV(j.JointOrigin(), g.org(), 1e-14, "joint origin");
    if (g.type == J::RotAxis || g.type == J::TransAxis) { nearV(j.getAxis(), g.dir(), 1e-14, "axis"); nearV(j.getOrigin(), g.org(), 1e-14, "origin"); }
}
static void motion(const KDL::Joint& j, const Seg& g, double q, double qd) {
    auto F = g.jpose<Jet>(Jet(q, qd));
    mc::step(2);
    nearF(j.pose(q), ref::f0(F), 1e-12, "joint pose");
    KDL::Twist t = j.twist(qd);
    // the twist of a joint has its origin on the axis as reference point
    nearT(t, ref::v1(F.p), ref::omega(F.R), 1e-12, "joint twist");
}
static const double QS[] = {0, 0.3, -1.2, 1.5707963267948966, 3.141592653589793, -4.5, 20.1, 1e-9, 2e-6, -4e-5, 6e-4, -3e-3, 0.02};

SCENARIO(joint) {
    Seg g = choose_joint();
    bool axis = g.type == J::RotAxis || g.type == J::TransAxis;
    int ctor = mc::choose(4, "constructor");
    bool named = ctor & 1, extras = ctor & 2;
    double q = mc::pick(QS, "q");
    static const double qds[] = {0, 1, -0.7, 3e-4, -2e-6};
    double qd = mc::pick(qds, "qdot");
    std::unique_ptr<KDL::Joint> j;
    if (axis && named) j.reset(extras ? new J("nm", k(g.origin), k(g.axis), g.type, g.scale, g.offset, g.ji, g.jd, g.js) : new J("nm", k(g.origin), k(g.axis), g.type, g.scale, g.offset));
    else if (axis) j.reset(extras ? new J(k(g.origin), k(g.axis), g.type, g.scale, g.offset, g.ji, g.jd, g.js) : new J(k(g.origin), k(g.axis), g.type, g.scale, g.offset));
    else if (named) j.reset(extras ? new J("nm", g.type, g.scale, g.offset, g.ji, g.jd, g.js) : new J("nm", g.type, g.scale, g.offset));
    else j.reset(extras ? new J(g.type, g.scale, g.offset, g.ji, g.jd, g.js) : new J(g.type, g.scale, g.offset));
    std::string nm = named ? "nm" : "NoName";
    getters(*j, g, nm, extras);
    motion(*j, g, q, qd);
    KDL::Joint c(*j);                       // copies behave like the original
    j.reset(new J("other", J::RotZ, 3, 2));
    getters(c, g, nm, extras); motion(c, g, q, qd);
    *j = c;
    getters(*j, g, nm, extras); motion(*j, g, q, qd);
    c = KDL::Joint(J::TransY);
    motion(*j, g, q, qd);
    double s[4] = {g.scale, g.offset, q, qd};
    mc::state(s, 4, g.type);
}
SCENARIO(defaults) {
    int t = mc::choose(9, "type");
    int form = mc::choose(3, "form");
    double q = mc::pick(QS, "q");
    Seg g; g.type = TYPES[t]; g.axis = V(0, 3, 4); g.origin = V(1, 2, 3);
    bool axis = g.type == J::RotAxis || g.type == J::TransAxis;
    std::unique_ptr<KDL::Joint> j;
    if (axis) j.reset(form ? new J("nm", k(g.origin), k(g.axis), g.type) : new J(k(g.origin), k(g.axis), g.type));
    else if (g.type == J::Fixed && form == 2) j.reset(new J("nm"));
    else j.reset(form ? new J("nm", g.type) : new J(g.type));
    getters(*j, g, form ? "nm" : "NoName", false);
    motion(*j, g, q, 0.5);
    KDL::Joint d; KDL::Segment sd, sn("x");
    nearF(d.pose(q), Fr(), 0, "default joint"); nearF(sd.pose(q), Fr(), 0, "default segment"); nearF(sn.pose(q), Fr(), 0, "default segment");
    mc::check(sd.getName() == "NoName" && sn.getName() == "x" && sd.getJoint().getType() == J::Fixed && sd.getInertia().getMass() == 0, "default segment data", " ");
}
SCENARIO(rejected) {
    int t = mc::choose(9, "type");
    int form = mc::choose(4, "constructor");
    J::JointType ty = TYPES[t];
    bool axis = ty == J::RotAxis || ty == J::TransAxis, threw = false;
    try {
        switch (form) {
            case 0: { J j(ty, 1, 0.5); break; }
            case 1: { J j("n", ty); break; }
            case 2: { J j(KDL::Vector(1, 2, 3), KDL::Vector(0, 1, 0), ty); break; }
            default: { J j("n", KDL::Vector(1, 2, 3), KDL::Vector(0, 1, 0), ty, 2); break; }
        }
    } catch (const std::exception& e) { threw = true; mc::check(e.what() && *e.what(), "exception has a text", " "); }
    mc::step();
    mc::check(threw == ((form < 2) == axis), "type and constructor match", "type %s, constructor %d: %s", NAMES[t], form, threw ? "rejected" : "accepted");
    mc::state(mc::fmt("%d %d", t, form));
}

static const Fr TIPS[] = {Fr(), frame(0, 0, 0, 0.3, -0.2, 0.5), frame(0.3, -0.2, 0.7, 0.1, -0.2, 0.3), frame(1.5707963267948966, 0, 3.141592653589793, 0, 0, 2)};
static void segment(const KDL::Segment& s, const Seg& g, double q, double qd, const std::string& when) {
    mc::step(4);
    nearF(s.pose(0), g.tip, 1e-12, "pose at zero is the tip frame " + when);
    nearF(s.getFrameToTip(), g.tip, 1e-12, "frame to tip " + when);
    nearF(s.getFrameToTipZero(), ref::inv(g.jpose(0.0)) * g.tip, 1e-12, "frame to tip from the joint's end " + when);
    auto F = g.pose<Jet>(Jet(q, qd));
    nearF(s.pose(q), ref::f0(F), 1e-12, "segment pose " + when);
    nearT(s.twist(q, qd), ref::v1(F.p), ref::omega(F.R), 1e-12, "segment twist " + when);
    mc::check(s.getName() == g.name, "segment name " + when, "%s", s.getName().c_str());
    KDL::RigidBodyInertia I = s.getInertia();
    mc::check(I.getMass() == g.mass, "mass " + when, "%g", I.getMass());
    nearV(I.getCOG(), g.mass > 0 ? g.cog : V(), 1e-12, "centre of mass " + when);
}
SCENARIO(segment_motion) {
    Seg g = choose_joint();
    g.tip = mc::pick(TIPS, "tip");
    int ctor = mc::choose(2, "constructor");
    KDL::Segment s = ctor ? KDL::Segment(g.name, g.joint(), k(g.tip)) : KDL::Segment(g.joint(), k(g.tip));
    if (!ctor) g.name = "NoName";
    static const double qs[] = {0, 0.3, -1.2, 1.5707963267948966, 4.0};
    for (double q : qs) for (double qd : {0.0, 1.0, -0.7}) segment(s, g, q, qd, "");
    getters(s.getJoint(), g, "seg_j", true);
    double st[3] = {g.scale, g.offset, (double)ctor}; mc::state(st, 3, g.type);
}
SCENARIO_SPLIT(segment_edits, 5) {
    // two segment variables; every sequence of edits
    Seg a = choose_joint(true), b = menu()[6];
    a.tip = TIPS[2]; a.mass = 0.5; a.cog = V(0.1, 0.2, 0.3); b.name = "b";
    KDL::Segment x = a.make(), y = b.make();
    int depth = mc::tiered(3, 4);
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(8, "edit");
        switch (op) {
            case 0: x = y; a = b; break;
            case 1: y = x; b = a; break;
            case 2: { KDL::Segment& r = x; x = r; break; }
            case 3: x.setFrameToTip(k(TIPS[3])); a.tip = TIPS[3]; break;
            case 4: y.setFrameToTip(x.getFrameToTip()); b.tip = a.tip; break;
            case 5: x.setFrameToTip(x.getFrameToTip()); break;
            case 6: x.setInertia(KDL::RigidBodyInertia(2, KDL::Vector(1, 0, 0))); a.mass = 2; a.cog = V(1, 0, 0); break;
            case 7: { KDL::Segment z(x); x = y; y = z; std::swap(a, b); break; }
        }
        mc::step();
        segment(x, a, 0.6, 1.3, "after edits");
        segment(y, b, -0.9, 0.4, "after edits");
        KDL::Frame p = x.pose(0.4);
        double st[5] = {p.p[0], p.p[1], p.p[2], p.M(0, 0), y.pose(0.2).p[0]}; mc::state(st, 5);
    }
}
