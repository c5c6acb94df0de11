// C14: extracted chains and subtrees have the tree's kinematics.
#include "treeref.hpp"
using namespace kin;

static std::string snapshot(const KDL::Tree& t) {
    std::string s = mc::fmt("%u %u ", t.getNrOfJoints(), t.getNrOfSegments());
    for (auto& p : t.getSegments()) {
        const KDL::Segment& g = GetTreeElementSegment(p.second);
        KDL::Frame f = g.pose(0.3);
        s += p.first + mc::fmt(" %u %s %p", GetTreeElementQNr(p.second), g.getName().c_str(), (const void*)&p.second);
        if (p.first != t.getRootSegment()->first) s += GetTreeElementParent(p.second)->first;
        for (auto& c : GetTreeElementChildren(p.second)) s += "," + c->first;
        s += std::string((const char*)&f, sizeof f) + mc::fmt("%g;", g.getInertia().getMass());
    }
    return s;
}
static void all_pairs(const TRef& m) {
    KDL::Tree t = m.make();
    std::string before = snapshot(t);
    int n = (int)m.n.size();
    for (int a = -1; a < n; a++) for (int b = -1; b < n; b++) {
        KDL::Chain c; c.addSegment(menu()[3].make());
        mc::step();
        if (!mc::check(t.getChain(m.name(a), m.name(b), c), "chain between existing segments", "%s to %s", m.name(a).c_str(), m.name(b).c_str())) continue;
        std::set<int> between;
        for (int i = 0; i < n; i++) if (m.below(a, i) != m.below(b, i)) between.insert(i);
        mc::check(c.getNrOfSegments() == between.size(), "number of segments between", "%s to %s: %u instead of %zu", m.name(a).c_str(), m.name(b).c_str(), c.getNrOfSegments(), between.size());
        unsigned joints = 0; for (int i : between) joints += m.n[i].g.moves();
        if (!mc::check(c.getNrOfJoints() == joints, "number of joints between", "%s to %s: %u instead of %u", m.name(a).c_str(), m.name(b).c_str(), c.getNrOfJoints(), joints)) continue;
        // the tree joint each chain joint stands for
        std::vector<int> map;
        for (unsigned i = 0; i < c.getNrOfSegments(); i++) {
            const KDL::Joint& j = c.getSegment(i).getJoint();
            if (j.getType() == KDL::Joint::Fixed) continue;
            int hit = -1;
            for (int x : between) if (m.n[x].g.moves() && m.n[x].name + "_j" == j.getName()) hit = x;
            if (!mc::check(hit >= 0, "joints of the chain are those between the segments", "%s", j.getName().c_str())) throw mc::Stop();
            map.push_back(hit);
            const Seg& g = m.n[hit].g;
            mc::check(j.getInertia() == g.ji && j.getDamping() == g.jd && j.getStiffness() == g.js, "joint inertia, damping and stiffness are kept", "%s: %g %g %g", j.getName().c_str(), j.getInertia(), j.getDamping(), j.getStiffness());
        }
        for (unsigned i = 0; i < c.getNrOfSegments(); i++) {
            const KDL::Segment& g = c.getSegment(i);
            double want = -1; for (int x = -1; x < n; x++) if (m.name(x) == g.getName()) want = x < 0 ? 0 : m.n[x].g.mass;
            mc::check(g.getInertia().getMass() == want, "body of a segment", "%s: mass %g instead of %g", g.getName().c_str(), g.getInertia().getMass(), want);
        }
        mc::check(c.getNrOfSegments() == 0 || c.getSegment(c.getNrOfSegments() - 1).getName() == m.name(b), "last segment is the tip", "%s", m.name(b).c_str());
        for (int p = 1; p < 4; p++) {
            std::vector<double> q = qpat(m.joints, p);
            for (int move = -1; move < m.joints; move++) {
                if (move >= 0 && p != 1) continue;
                // the pose between the two on jets of the moved joint
                std::vector<Jet> x(q.begin(), q.end()); if (move >= 0) x[move].d = 0.8;
                auto F = ref::inv(m.pose(a, x)) * m.pose(b, x);
                KDL::Frame f = KDL::Frame::Identity(); KDL::Twist tw = KDL::Twist::Zero();
                size_t j = 0;
                for (unsigned i = 0; i < c.getNrOfSegments(); i++) {
                    const KDL::Segment& g = c.getSegment(i);
                    double qi = 0, qdi = 0;
                    if (g.getJoint().getType() != KDL::Joint::Fixed) { int tq = m.n[map[j++]].q; qi = q[tq]; qdi = tq == move ? 0.8 : 0; }
                    KDL::Frame gp = g.pose(qi);
                    tw = tw.RefPoint(f.M * gp.p) + f.M * g.twist(qi, qdi);
                    f = f * gp;
                }
                nearF(f, ref::f0(F), 1e-10, "pose between segments", (m.name(a) + " to " + m.name(b)).c_str());
                if (move >= 0) nearT(tw, ref::v1(F.p), ref::omega(F.R), 1e-10, "motion between segments", (m.name(a) + " to " + m.name(b)).c_str());
                double s[4] = {f.p[0], f.p[1], f.p[2], f.M(0, 1)}; mc::state(s, 4);
            }
        }
    }
    {
        KDL::Chain c;
        mc::check(!t.getChain("nope", m.name(0), c), "unknown root is refused", " ");
        mc::check(!t.getChain(m.name(0), "nope", c), "unknown tip is refused", " ");
        mc::check(!t.getChain("nope", "nada", c), "unknown names are refused", " ");
        mc::check(!t.getChain("", "", c), "empty names are refused", " ");
    }
    // into an unrelated tree, into one that has the same root and segments of the same names, and into the tree itself
    for (int a = -1; a < n; a++) for (int into = 0; into < 3; into++) {
        KDL::Tree sub(into == 1 ? m.name(a) : "x");
        if (into == 0) sub.addSegment(menu()[0].make(), "x");
        if (into == 1) for (int i = n - 1; i >= 0; i--) { Seg other = menu()[3]; other.name = m.name(i); sub.addSegment(other.make(), m.name(a)); }
        if (into == 2) sub = t;
        mc::step();
        bool made = into == 2 ? sub.getSubTree(a < 0 ? sub.getRootSegment()->first : sub.getSegment(m.name(a))->first, sub) : t.getSubTree(m.name(a), sub);
        if (!mc::check(made, "subtree below an existing segment", "%s", m.name(a).c_str())) continue;
        std::set<int> in; unsigned joints = 0;
        for (int i = 0; i < n; i++) if (i != a && m.below(i, a)) { in.insert(i); joints += m.n[i].g.moves(); }
        if (!mc::check(sub.getNrOfSegments() == in.size() && sub.getNrOfJoints() == joints && sub.getRootSegment() != sub.getSegments().end() && sub.getRootSegment()->first == m.name(a), "size of the subtree",
                       "below %s: %u segments, %u joints", m.name(a).c_str(), sub.getNrOfSegments(), sub.getNrOfJoints())) continue;
        std::vector<double> q = qpat(m.joints, 1);
        std::set<unsigned> numbers;
        for (int i : in) {
            auto it = sub.getSegment(m.name(i));
            if (!mc::check(it != sub.getSegments().end(), "segment of the subtree", "%s below %s", m.name(i).c_str(), m.name(a).c_str())) continue;
            KDL::Frame f; int guard = 0; bool moves = m.n[i].g.moves();
            if (moves) mc::check(numbers.insert(GetTreeElementQNr(it->second)).second && GetTreeElementQNr(it->second) < joints, "joint number in the subtree", "%s: %u", m.name(i).c_str(), GetTreeElementQNr(it->second));
            for (auto s = it; s != sub.getRootSegment() && guard < 10; s = GetTreeElementParent(s->second), guard++) {
                int x = 0; while (x < n && m.name(x) != s->first) x++;
                f = GetTreeElementSegment(s->second).pose(x < n && m.n[x].q >= 0 ? q[m.n[x].q] : 0) * f;
            }
            nearF(f, ref::inv(m.pose(a, q)) * m.pose(i, q), 1e-10, "pose in the subtree", m.name(i).c_str());
        }
        // the subtree can be extended without changing the tree
        Seg late = menu()[0]; late.name = "late"; sub.addSegment(late.make(), m.name(a));
    }
    { KDL::Tree sub; mc::check(!t.getSubTree("nope", sub), "subtree below an unknown segment is refused", " "); KDL::Tree self = t; std::string was = snapshot(self); mc::check(!self.getSubTree("nope", self) && snapshot(self) == was, "subtree below an unknown segment is refused", " "); }
    mc::check(snapshot(t) == before, "extraction leaves the tree alone", "%s", m.str().c_str());
}
SCENARIO_SPLIT(kinds, 6) {
    // moving joints with scale and offset, axes off the origin, translations, fixed segments
    std::vector<int> k = mc::thorough() ? std::vector<int>{1, 0, 4, 6, 5, 7, 10} : std::vector<int>{1, 6, 7, 10, 4};
    all_pairs(choose_tree(mc::tiered(3, 4), k));
}
SCENARIO_SPLIT(shapes, 6) { all_pairs(choose_shape(mc::tiered(5, 6), {7, 10, 1, 6, 5, 8, 2})); }
