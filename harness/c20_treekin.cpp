// C20: tree kinematics agrees with the chains inside the tree.
#include "treeref.hpp"
#include <chainfksolverpos_recursive.hpp>
#include <chainjnttojacsolver.hpp>
#include <treefksolverpos_recursive.hpp>
#include <treejnttojacsolver.hpp>
using namespace kin;

static const double TOL = 1e-10;
static KDL::Jacobian dirty(int n) { KDL::Jacobian J(n); for (int i = 0; i < 6; i++) for (int j = 0; j < n; j++) J(i, j) = 77 + i - j; return J; }
// one pair of solvers against the model: every segment, several postures, refused calls in between
static void against(const TRef& m, KDL::TreeFkSolverPos_recursive& fk, KDL::TreeJntToJacSolver& js, int postures, bool refuse) {
    int n = (int)m.n.size(), N = m.joints;
    for (int p = 0; p <= postures; p++) {   // the last with small values
        std::vector<double> q = qpat(N, p == postures ? 5 : (p + 1) % 5);
        KDL::JntArray Q = ja(q);
        for (int i = -1; i < n; i++) {
            std::string name = m.name(i);
            KDL::Frame F(KDL::Rotation::RotX(1), KDL::Vector(9, 9, 9)); KDL::Jacobian J = dirty(N);
            mc::step(2);
            int a = fk.JntToCart(Q, F, name), b = js.JntToJac(Q, J, name);
            mc::check(a >= 0, "pose of a segment is answered", "%s: %d", name.c_str(), a);
            mc::check(b >= 0, "jacobian of a segment is answered", "%s: %d", name.c_str(), b);
            nearF(F, m.pose(i, q), TOL, "pose of a segment", name.c_str());
            nearMat(mat(J), m.jacobian(i, q), TOL, "jacobian of a segment", name.c_str());
            nearQ(Q, q, 0, "argument untouched");
            double s[6] = {F.p[0], F.p[1], F.p[2], F.M(0, 1), F.M(1, 2), (double)i}; mc::state(s, 6);
            if (!refuse) continue;
            for (int d = -N; d <= 2; d++) {
                if (!d) continue;
                KDL::JntArray bad(N + d); for (int k = 0; k < N + d; k++) bad(k) = 0.1;
                KDL::Jacobian K = dirty(N);
                mc::step(2);
                int r = fk.JntToCart(bad, F, name); mc::check(r < 0, "wrong number of joints refused by the position solver", "%+d: %d", d, r);
                r = js.JntToJac(bad, K, name); mc::check(r < 0, "wrong number of joints refused by the jacobian solver", "%+d: %d", d, r);
                if (N + d == 0) continue;
                KDL::Jacobian W = dirty(N + d);
                r = js.JntToJac(Q, W, name); mc::check(r < 0, "wrong number of columns refused", "%+d: %d", d, r);
                mc::check(W.columns() == (unsigned)(N + d), "refused output keeps its size", "%u", W.columns());
            }
            for (const char* u : {"", "nope", "d ", "D", "root2", "roo"}) {
                KDL::Jacobian K = dirty(N);
                mc::step(2);
                int r = fk.JntToCart(Q, F, u); mc::check(r < 0, "unknown segment refused by the position solver", "'%s': %d", u, r);
                r = js.JntToJac(Q, K, u); mc::check(r < 0, "unknown segment refused by the jacobian solver", "'%s': %d", u, r);
            }
        }
    }
}
// the chains inside the tree, as the chain solvers see them
static void chains(const TRef& m, const KDL::Tree& t) {
    int n = (int)m.n.size(), N = m.joints;
    KDL::TreeFkSolverPos_recursive fk(t); KDL::TreeJntToJacSolver js(t);
    for (int i = -1; i < n; i++) {
        KDL::Chain c; if (!mc::check(t.getChain(m.name(-1), m.name(i), c), "chain to a segment", "%s", m.name(i).c_str())) continue;
        std::vector<int> map; for (int x = 0; x < n; x++) if (m.n[x].q >= 0 && m.below(i, x)) map.push_back(m.n[x].q);   // parents come before children
        if (!mc::check(c.getNrOfJoints() == map.size(), "joints of the chain", "%u", c.getNrOfJoints())) continue;
        KDL::ChainFkSolverPos_recursive cf(c); KDL::ChainJntToJacSolver cj(c);
        for (int p = 1; p < 3; p++) {
            std::vector<double> q = qpat(N, p), cq; for (int x : map) cq.push_back(q[x]);
            KDL::Frame A, B; KDL::Jacobian J = dirty(N), K((unsigned)map.size());
            mc::step(4);
            mc::check(fk.JntToCart(ja(q), A, m.name(i)) >= 0 && cf.JntToCart(ja(cq), B) >= 0, "answers", " ");
            mc::check(js.JntToJac(ja(q), J, m.name(i)) >= 0 && cj.JntToJac(ja(cq), K) >= 0, "answers", " ");
            nearF(A, f(B), TOL, "pose equals the chain's", m.name(i).c_str());
            Mat want(6, N); for (size_t k = 0; k < map.size(); k++) for (int r = 0; r < 6; r++) want(r, map[k]) = K(r, (unsigned)k);
            nearMat(mat(J), want, TOL, "jacobian equals the chain's", m.name(i).c_str());
        }
    }
}
static void all(const TRef& m, bool refuse) {
    KDL::Tree t = m.make();
    std::unique_ptr<KDL::TreeFkSolverPos_recursive> fk; std::unique_ptr<KDL::TreeJntToJacSolver> js;
    int how = mc::choose(4, "tree handed over");
    if (how == 0) { fk.reset(new KDL::TreeFkSolverPos_recursive(t)); js.reset(new KDL::TreeJntToJacSolver(t)); }
    if (how == 1) { KDL::Tree a(t), b(a); fk.reset(new KDL::TreeFkSolverPos_recursive(a)); js.reset(new KDL::TreeJntToJacSolver(b)); against(m, *fk, *js, 1, false); }   // the copies die
    if (how == 2) {
        KDL::Tree a("other"); a.addSegment(menu()[2].make(), "other"); a = t; KDL::Tree b = m.make(); b = a; b = *&b;
        fk.reset(new KDL::TreeFkSolverPos_recursive(b)); js.reset(new KDL::TreeJntToJacSolver(a)); against(m, *fk, *js, 1, false);
    }
    if (how == 3) {   // copies of the solvers
        KDL::TreeFkSolverPos_recursive f0(t); KDL::TreeJntToJacSolver j0(t);
        fk.reset(new KDL::TreeFkSolverPos_recursive(f0)); js.reset(new KDL::TreeJntToJacSolver(j0)); against(m, f0, j0, 1, false);
    }
    against(m, *fk, *js, mc::tiered(2, 4), refuse);
    if (how == 0) chains(m, t);
}
SCENARIO_SPLIT(kinds, 5) {
    int n = mc::choose(mc::tiered(4, 5), "segments");
    std::vector<int> k = n < 3 ? all_kinds() : n == 3 ? mc::thorough() ? std::vector<int>{0, 1, 3, 4, 5, 6, 7, 8, 10} : std::vector<int>{1, 4, 6, 5, 7} : std::vector<int>{1, 6, 7, 10};
    all(choose_tree(n, k), n < 3);
}
SCENARIO_SPLIT(shapes, 6) { all(choose_shape(mc::tiered(5, 7), {7, 10, 1, 6, 5, 8, 2}), false); }
// a tree assembled from pieces in every order numbers its joints in the order of addition
SCENARIO_SPLIT(assembled, 4) {
    // piece 0: a single segment; 1: a chain of two; 2: a tree with a branch
    TRef m; KDL::Tree t("root");
    int pieces = 1 + mc::choose(3, "pieces");
    for (int p = 0; p < pieces; p++) {
        int hook = mc::choose((int)m.n.size() + 1, "hook") - 1;
        int kind = mc::choose(3, "piece");
        auto seg = [&](int k, const char* nm) { Seg g = menu()[k]; g.name = mc::fmt("%s%d", nm, 9 - p); return g; };
        Seg a = seg(6, "u"), b = seg(10, "k"), c = seg(7, "z"), d = seg(1, "f");
        bool ok = true;
        if (kind == 0) { ok = t.addSegment(c.make(), m.name(hook)); m.add(c, hook); }
        if (kind == 1) {
            KDL::Chain x; x.addSegment(d.make()); x.addSegment(b.make()); x.addSegment(a.make());
            ok = t.addChain(x, m.name(hook)); m.add(d, hook); m.add(b, (int)m.n.size() - 1); m.add(a, (int)m.n.size() - 1);
        }
        if (kind == 2) {
            KDL::Tree x("any"); x.addSegment(a.make(), "any"); x.addSegment(b.make(), a.name); x.addSegment(c.make(), a.name); x.addSegment(d.make(), "any");
            ok = t.addTree(x, m.name(hook));
            m.add(a, hook); int ia = (int)m.n.size() - 1; m.add(b, ia); m.add(c, ia); m.add(d, hook);
        }
        mc::check(ok, "adding a piece", "%d", kind);
    }
    KDL::TreeFkSolverPos_recursive fk(t); KDL::TreeJntToJacSolver js(t);
    against(m, fk, js, 2, true);
    KDL::Tree u(t); KDL::TreeFkSolverPos_recursive fk2(u); KDL::TreeJntToJacSolver js2(u);
    against(m, fk2, js2, 2, false);
    // what happens to the tree later does not reach the solvers' answers for it
    chains(m, t);
}
