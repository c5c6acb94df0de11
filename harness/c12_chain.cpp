// C12: a chain is exactly the list of segments put into it.
#include "kin.hpp"
using namespace kin;

static void same(const KDL::Chain& c, const Spec& s, const std::string& who) {
    unsigned n = 0;
    for (auto& g : s) n += g.moves();
    if (!mc::check(c.getNrOfSegments() == s.size(), "number of segments " + who, "%u instead of %zu", c.getNrOfSegments(), s.size())) throw mc::Stop();
    mc::check(c.getNrOfJoints() == n, "number of joints " + who, "%u instead of %u", c.getNrOfJoints(), n);
    mc::check(c.segments.size() == s.size(), "stored segments " + who, "%zu instead of %zu", c.segments.size(), s.size());
    for (size_t i = 0; i < s.size(); i++) {
        const KDL::Segment& g = c.getSegment((unsigned)i);
        mc::check(g.getName() == s[i].name, "order of segments " + who, "segment %zu is %s instead of %s", i, g.getName().c_str(), s[i].name.c_str());
        mc::check(g.getJoint().getType() == s[i].type, "joint type " + who, "segment %zu", i);
        mc::check(g.getInertia().getMass() == s[i].mass, "mass " + who, "segment %zu: %g instead of %g", i, g.getInertia().getMass(), s[i].mass);
        nearF(g.pose(0.7), s[i].pose(0.7), 1e-12, "segment pose " + who);
    }
}

SCENARIO_SPLIT(histories, 3) {
    KDL::Chain c[2]; Spec s[2];
    int depth = mc::tiered(5, 6), names = 0;
    static const int kinds[] = {0, 1, 7};
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(15, "operation");
        int x = op < 7 ? op & 1 : (op - 7) & 1, y = 1 - x;
        mc::step();
        if (op < 6) {
            Seg g = menu()[kinds[op / 2]]; g.name = mc::fmt("n%d", names++);
            c[x].addSegment(g.make()); s[x].push_back(g);
            mc::note("chain %d: add %s", x, g.name.c_str());
        } else if (op == 6) {
            if (s[0].empty()) throw mc::Skip();
            c[0].addSegment(c[0].getSegment(0)); Seg g = s[0][0]; s[0].push_back(g);
            mc::note("chain 0: add own first segment");
        } else if (op < 9) {
            if (s[x].size() + s[y].size() > 16) throw mc::Skip();
            c[x].addChain(c[y]); s[x].insert(s[x].end(), s[y].begin(), s[y].end());
            mc::note("chain %d: add chain %d", x, y);
        } else if (op == 9) {
            if (s[0].size() > 8) throw mc::Skip();
            // on the unrepaired library this did not end; bounded by the memory the watchdog allows
            c[0].addChain(c[0]); Spec t = s[0]; s[0].insert(s[0].end(), t.begin(), t.end());
            mc::note("chain 0: add itself");
        } else if (op == 10) {
            c[0] = c[1]; s[0] = s[1]; mc::note("chain 0 = chain 1");
        } else if (op == 11) {
            KDL::Chain t(c[0]); c[0] = c[1]; c[1] = t; std::swap(s[0], s[1]); mc::note("swap through a copy");
            same(t, s[1], "of a copy");
        } else if (op == 12) {
            KDL::Chain& r = c[0]; c[0] = r; mc::note("chain 0 = chain 0");
        } else if (op == 13) {
            if (s[0].empty()) throw mc::Skip();
            unsigned l = (unsigned)s[0].size() - 1;
            Fr f = frame(0.1, 0.2, 0.3, names, 0, 1); c[0].getSegment(l).setFrameToTip(k(f)); s[0][l].tip = f; mc::note("edit the last segment of chain 0");
        } else {
            if (s[1].empty()) throw mc::Skip();
            c[1].getSegment(0).setInertia(KDL::RigidBodyInertia(3 + i)); s[1][0].mass = 3 + i; mc::note("edit the first segment of chain 1");
        }
        same(c[0], s[0], "after operations"); same(c[1], s[1], "after operations");
        std::string st; for (int j = 0; j < 2; j++) { for (auto& g : s[j]) st += mc::fmt("%d%s,", g.type, g.name.c_str()); st += "|"; }
        mc::state(st);
    }
}
// replacing a segment by one with another joint type is not offered by the interface; long chains keep their order
SCENARIO(long_chains) {
    auto& L = long_shapes();
    Spec a = spec(L[mc::choose((int)L.size(), "first")]), b = spec(L[mc::choose((int)L.size(), "second")]);
    KDL::Chain ca = chain(a), cb = chain(b);
    for (int i = 0; i < 4; i++) { ca.addChain(cb); for (auto& g : b) a.push_back(g); mc::step(); }
    same(ca, a, "of a long chain"); same(cb, b, "of the appended chain");
    KDL::Chain d(ca); ca = cb; same(d, a, "of a copy"); same(ca, b, "of an assigned chain");
    mc::state(mc::fmt("%zu %zu", a.size(), b.size()));
}
