// C24: tree inverse dynamics equals Newton-Euler mechanics of the whole tree.
#include "dyn.hpp"
#include <chainidsolver_recursive_newton_euler.hpp>
#include <treeidsolver_recursive_newton_euler.hpp>
using namespace kin;

static Wr wrench(int i) { Wr w; w.f = V(1.5 - i, 0.7 * i, -2 + 0.3 * i); w.t = V(0.4, -0.3 * i, 0.8 - 0.2 * i); return w; }
static double big(const std::vector<double>& v) { double m = 1; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
// every subset of wrenches for small trees; none, each alone and all for bigger ones
static void against(const TRef& m, KDL::TreeIdSolver_RNE& id, const V& g, int motions) {
    int n = (int)m.n.size(), N = m.joints; Dyn d = dyn(m);
    std::vector<double> zero(N, 0.0);
    std::vector<unsigned> subs; if (n <= 3) for (unsigned x = 0; x < 1u << n; x++) subs.push_back(x); else { subs = {0, (1u << n) - 1}; for (int i = 0; i < n; i++) subs.push_back(1u << i); subs.push_back(0); }
    for (int p = 0; p <= motions; p++) {   // the last with small values
        bool small = p == motions;
        std::vector<double> q = qpat(N, small ? 1 : (p + 1) % 5), qd = small ? qpat(N, 5) : p == 1 ? zero : qpat(N, (p + 2) % 5), qdd = small ? qpat(N, 5) : p == 0 ? zero : qpat(N, (p + 3) % 5);
        std::string at = m.str() + " at " + kin::str(q);
        for (unsigned sub : subs) {
            if (small && sub) break;   // the first is the empty one
            std::vector<Wr> ext(n); KDL::WrenchMap W;
            for (int i = 0; i < n; i++) if (sub >> i & 1) { ext[i] = wrench(i); W[m.name(i)] = w(ext[i]); }
            if (sub & 1) W[m.name(-1)] = KDL::Wrench(KDL::Vector(1, 2, 3), KDL::Vector(4, 5, 6));   // on the base: no joint feels it
            KDL::JntArray T(N), Q = ja(q), A = ja(qdd), B = ja(qd); for (int i = 0; i < N; i++) T(i) = 77;
            mc::step();
            int r = id.CartToJnt(Q, B, A, W, T);
            mc::check(r == 0 && id.getError() == 0, "answer", "%d", r);
            std::vector<double> want = d.tau(q, qd, qdd, -1.0 * g, V(), ext);
            nearQ(T, want, 1e-10 * big(want), "inverse dynamics of the tree", (at + mc::fmt(", motion %d, wrenches %u", p, sub)).c_str());
            nearQ(Q, q, 0, "argument untouched"); nearQ(A, qdd, 0, "argument untouched"); nearQ(B, qd, 0, "argument untouched");
            if (N) mc::state(want.data(), N, sub);
        }
        KDL::JntArray T(N), Q = ja(q); KDL::WrenchMap none;
        for (int x = -N; x <= 2; x++) if (x) {
            KDL::JntArray bad(N + x); mc::step(4);
            mc::check(id.CartToJnt(bad, Q, Q, none, T) == KDL::SolverI::E_SIZE_MISMATCH && id.CartToJnt(Q, bad, Q, none, T) == KDL::SolverI::E_SIZE_MISMATCH && id.CartToJnt(Q, Q, bad, none, T) == KDL::SolverI::E_SIZE_MISMATCH &&
                      id.CartToJnt(Q, Q, Q, none, bad) == KDL::SolverI::E_SIZE_MISMATCH && id.getError() == KDL::SolverI::E_SIZE_MISMATCH, "wrong sizes refused", "%+d", x);
        }
    }
}
static const V GRAV[] = {V(0, 0, -9.81), V(1.5, -2.5, 3.5), V()};
static void all(const TRef& m, int motions) {
    KDL::Tree t = m.make();
    const V& g = GRAV[mc::choose(mc::tiered(2, 3), "gravity")];
    int how = mc::choose(3, "tree");
    if (how == 0) { KDL::TreeIdSolver_RNE id(t, k(g)); against(m, id, g, motions); }
    if (how == 1) { KDL::Tree u(t), x; x = u; KDL::TreeIdSolver_RNE id(x, k(g)); against(m, id, g, motions); }
    if (how == 2) {   // the tree grew and was updated
        KDL::Tree x("root"); KDL::TreeIdSolver_RNE id(x, k(g)); int last = (int)m.n.size();
        for (int i = 0; i < last; i++) { x.addSegment(m.n[i].g.make(), m.name(m.n[i].parent)); if (i == last / 2) id.updateInternalDataStructures(); }
        id.updateInternalDataStructures(); against(m, id, g, motions);
    }
    // a tree that is a chain
    bool line = true; for (int i = 0; i < (int)m.n.size(); i++) line &= m.n[i].parent == i - 1;
    if (line) {
        KDL::Chain c; for (auto& x : m.n) c.addSegment(x.g.make());
        KDL::TreeIdSolver_RNE id(t, k(g)); KDL::ChainIdSolver_RNE ci(c, k(g)); int N = m.joints, n = (int)m.n.size();
        KDL::JntArray a(N), b(N); KDL::WrenchMap W; KDL::Wrenches X(n); for (int i = 0; i < n; i++) W[m.name(i)] = X[i] = w(wrench(i));
        mc::step(2);
        mc::check(id.CartToJnt(ja(qpat(N, 1)), ja(qpat(N, 2)), ja(qpat(N, 4)), W, a) == 0 && ci.CartToJnt(ja(qpat(N, 1)), ja(qpat(N, 2)), ja(qpat(N, 4)), X, b) == 0, "answer", " ");
        nearQ(a, vec(b), 1e-11 * big(vec(b)), "a tree that is a chain equals the chain");
    }
}
SCENARIO_SPLIT(kinds, 5) {
    int n = mc::choose(mc::tiered(4, 5), "segments");
    std::vector<int> k = n < 3 ? all_kinds() : n == 3 ? mc::thorough() ? std::vector<int>{0, 1, 3, 4, 5, 6, 7, 10} : std::vector<int>{1, 4, 6, 5} : std::vector<int>{1, 6, 7, 10};
    all(choose_tree(n, k), n < 3 ? 3 : 2);
}
SCENARIO_SPLIT(shapes, 6) { all(choose_shape(mc::tiered(5, 6), {7, 10, 1, 6, 5, 8, 2}), 2); }
