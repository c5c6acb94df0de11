// C13: a tree keeps its structure under any construction history.
#include "kin.hpp"
#include <tree.hpp>
using namespace kin;

struct Node { std::string parent; Seg g; unsigned q; std::vector<std::string> kids; };
struct Model {
    std::string root; std::map<std::string, Node> n; unsigned joints = 0, segs = 0;
    explicit Model(const std::string& r = "root") : root(r) { n[r] = Node(); n[r].q = 0; }
    bool add(const Seg& g, const std::string& hook) {
        if (!n.count(hook) || n.count(g.name)) return false;
        Node x; x.parent = hook; x.g = g; x.q = g.moves() ? joints++ : 0;
        n[g.name] = x; n[hook].kids.push_back(g.name); segs++;
        return true;
    }
    bool addTree(const Model& m, const std::string& at, const std::string& hook) {
        for (auto& c : m.n.at(at).kids) if (!add(m.n.at(c).g, hook) || !addTree(m, c, c)) return false;
        return true;
    }
};
static void same(const KDL::Tree& t, const Model& m, const std::string& who) {
    if (!mc::check(t.getNrOfSegments() == m.segs, "number of segments " + who, "%u instead of %u", t.getNrOfSegments(), m.segs)) throw mc::Stop();
    mc::check(t.getNrOfJoints() == m.joints, "number of joints " + who, "%u instead of %u", t.getNrOfJoints(), m.joints);
    auto& S = t.getSegments();
    if (!mc::check(S.size() == m.n.size(), "stored elements " + who, "%zu instead of %zu", S.size(), m.n.size())) throw mc::Stop();
    mc::check(t.getRootSegment() != S.end() && t.getRootSegment()->first == m.root, "root " + who, " ");
    mc::check(t.getSegment("no such segment") == S.end(), "unknown segment " + who, " ");
    for (auto& p : m.n) {
        auto it = t.getSegment(p.first);
        if (!mc::check(it != S.end() && it->first == p.first, "segment present " + who, "%s", p.first.c_str())) throw mc::Stop();
        const Node& x = p.second;
        auto& kids = GetTreeElementChildren(it->second);
        if (mc::check(kids.size() == x.kids.size(), "number of children " + who, "%s: %zu instead of %zu", p.first.c_str(), kids.size(), x.kids.size())) {
            // each child once, and an iterator of this very tree
            std::set<std::string> a, b(x.kids.begin(), x.kids.end());
            for (auto& c : kids) { a.insert(c->first); mc::check(&*c == &*t.getSegment(c->first), "child belongs to the tree " + who, "%s", p.first.c_str()); }
            mc::check(a == b, "children " + who, "of %s", p.first.c_str());
        }
        if (p.first == m.root) { mc::check(GetTreeElementSegment(it->second).getName() == m.root, "root segment name " + who, " "); continue; }
        auto par = GetTreeElementParent(it->second);
        mc::check(&*par == &*t.getSegment(x.parent), "parent " + who, "of %s is %s", p.first.c_str(), x.parent.c_str());
        const KDL::Segment& g = GetTreeElementSegment(it->second);
        mc::check(g.getName() == p.first, "segment name " + who, "%s", p.first.c_str());
        mc::check(g.getJoint().getType() == x.g.type, "joint type " + who, "%s", p.first.c_str());
        if (x.g.moves()) mc::check(GetTreeElementQNr(it->second) == x.q, "joint number " + who, "%s has number %u instead of %u", p.first.c_str(), GetTreeElementQNr(it->second), x.q);
        nearF(g.pose(0.7), x.g.pose(0.7), 1e-12, "segment pose " + who);
        mc::check(g.getInertia().getMass() == x.g.mass, "mass " + who, "%s", p.first.c_str());
    }
}
static std::string canon(const Model& m, const std::string& at) {
    std::string s = at + (m.n.at(at).g.moves() ? mc::fmt("#%u", m.n.at(at).q) : "") + "(";
    for (auto& c : m.n.at(at).kids) s += canon(m, c) + " ";
    return s + ")";
}
static Seg seg(const char* name, int kind) { Seg g = menu()[kind]; g.name = name; return g; }
// after a refused chain or tree the tree holds what was hooked before the refusal, or nothing of it
static void refused(const KDL::Tree& t, Model& m, const Model& before) { if (t.getNrOfSegments() == before.segs) m = before; }

SCENARIO_SPLIT(histories, 3) {
    KDL::Tree t[2] = {KDL::Tree("root"), KDL::Tree("base")};
    Model m[2] = {Model("root"), Model("base")};
    static const char* names[] = {"A", "B", "C", "D"};
    static const char* hooks[] = {"root", "A", "B", "none"};
    int depth = mc::tiered(4, 5);
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(35, "operation");
        mc::step();
        if (op < 16) {                              // hook a segment in tree 0; odd names are fixed
            int n = op / 4; std::string h = hooks[op % 4]; if (h == "root") h = m[0].root;
            Seg g = seg(names[n], n == 3 ? 1 : n == 1 ? 7 : 0);
            mc::note("tree 0: hook %s to %s", names[n], h.c_str());
            bool want = m[0].add(g, h), got = t[0].addSegment(g.make(), h);
            mc::check(want == got, "answer to hooking a segment", "%s to %s: %d", names[n], h.c_str(), got);
        } else if (op < 20) {                       // a chain of two
            static const int pair[4][2] = {{0, 1}, {1, 2}, {2, 3}, {2, 2}};
            auto& p = pair[op - 16];
            std::string h = hooks[1 + (i % 2)]; if (!m[0].n.count(h)) h = m[0].root;
            Spec s = {seg(names[p[0]], 2), seg(names[p[1]], p[1] == 3 ? 1 : 3)};
            Model b = m[0];
            bool want = m[0].add(s[0], h) && m[0].add(s[1], s[0].name), got = t[0].addChain(chain(s), h);
            mc::note("tree 0: hook chain %s,%s to %s: %d", names[p[0]], names[p[1]], h.c_str(), got);
            mc::check(want == got, "answer to hooking a chain", "%s %s: %d", s[0].name.c_str(), s[1].name.c_str(), got);
            if (!want) refused(t[0], m[0], b);
        } else if (op < 24) {                       // hook a segment in tree 1
            int n = op - 20;
            std::string h = i % 2 && m[1].n.count("A") ? "A" : m[1].root;
            Seg g = seg(names[n], n == 3 ? 5 : 4);
            bool want = m[1].add(g, h), got = t[1].addSegment(g.make(), h);
            mc::note("tree 1: hook %s to %s", names[n], h.c_str());
            mc::check(want == got, "answer to hooking a segment", "%s: %d", names[n], got);
        } else if (op < 28) {                       // hook a tree to a tree
            int d = op & 1; std::string h = op >= 26 ? "A" : m[d].root;
            Model b = m[d];
            bool want = m[d].n.count(h) ? m[d].addTree(m[1 - d], m[1 - d].root, h) : m[1 - d].segs == 0, got = t[d].addTree(t[1 - d], h);
            mc::note("tree %d: hook tree %d to %s: %d", d, 1 - d, h.c_str(), got);
            if (!(m[1 - d].segs == 0 && !b.n.count(h))) mc::check(want == got, "answer to hooking a tree", "at %s: %d", h.c_str(), got);
            if (!want) refused(t[d], m[d], b);
        } else switch (op) {
            case 28: t[0] = t[1]; m[0] = m[1]; mc::note("tree 0 = tree 1"); break;
            case 29: t[1] = t[0]; m[1] = m[0]; mc::note("tree 1 = tree 0"); break;
            case 30: { KDL::Tree& r = t[0]; t[0] = r; mc::note("tree 0 = tree 0"); break; }
            case 31: { KDL::Tree c(t[0]); same(c, m[0], "of a copy"); t[0] = t[1]; t[1] = c; std::swap(m[0], m[1]); mc::note("swap through a copy"); break; }
            case 32: t[1] = KDL::Tree("other"); m[1] = Model("other"); mc::note("tree 1 emptied"); break;
            case 33: { bool got = t[0].addSegment(seg(m[0].root.c_str(), 0).make(), m[0].root); mc::check(!got, "a segment named like the root is refused", " "); mc::note("tree 0: hook a segment named like the root"); break; }
            case 34: { if (m[0].segs == 0) throw mc::Skip(); bool got = t[0].addTree(t[0], m[0].root); mc::note("tree 0: hook itself"); mc::check(!got, "a tree hooked to itself is refused", " "); break; }
        }
        same(t[0], m[0], "after operations"); same(t[1], m[1], "after operations");
        mc::state(canon(m[0], m[0].root) + "|" + canon(m[1], m[1].root));
    }
}
// every way to build five segments: each hooked to any earlier one or the root, moving or fixed; then copied and assigned
SCENARIO(shapes) {
    KDL::Tree t; Model m;
    static const char* names[] = {"c", "a", "e", "b", "d", "f"};
    int n = mc::tiered(4, 5);
    std::vector<std::string> have = {"root"};
    for (int i = 0; i < n; i++) {
        std::string h = have[mc::choose((int)have.size(), "hook")];
        Seg g = seg(names[i], mc::flag("moving") ? (i % 2 ? 4 : 6) : 1);
        mc::check(t.addSegment(g.make(), h) && m.add(g, h), "accepted", " ");
        have.push_back(names[i]); mc::step();
    }
    same(t, m, "when built");
    KDL::Tree c(t); same(c, m, "of a copy");
    KDL::Tree d("x"); d.addSegment(seg("y", 0).make(), "x"); d = t; same(d, m, "of an assigned tree");
    Model mt = m;
    Seg g = seg("late", 0);
    mc::check(t.addSegment(g.make(), have.back()) && mt.add(g, have.back()), "accepted", " ");
    same(t, mt, "after an addition"); same(c, m, "of a copy after the original changed"); same(d, m, "of an assigned tree after the original changed");
    mc::check(c.addSegment(g.make(), have.back()), "accepted", " "); same(c, mt, "of a copy after the same addition");
    KDL::Tree e("pre"); Model me("pre"); Seg p = seg("first", 2);
    mc::check(e.addSegment(p.make(), "pre") && me.add(p, "pre"), "accepted", " ");
    mc::check(e.addTree(t, "first") && me.addTree(mt, "root", "first"), "accepted", " "); same(e, me, "of a tree hooked to a tree");
    mc::state(canon(m, "root"));
}
