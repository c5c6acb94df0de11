// C21: tree inverse kinematics reaches its targets within its limits.
#include "treeref.hpp"
#include <treefksolverpos_recursive.hpp>
#include <treeiksolverpos_nr_jl.hpp>
#include <treeiksolverpos_online.hpp>
#include <treeiksolvervel_wdls.hpp>
using namespace kin;

static void rotvec(const M& a, const M& b, double* e) {   // from a to b, in the base
    M d = b * ref::tr(a);
    double c = (d[0][0] + d[1][1] + d[2][2] - 1) / 2; c = c > 1 ? 1 : c < -1 ? -1 : c;
    V ax = ref::unskew(d); double sn = ref::norm(ax), ang = std::atan2(sn, c);
    for (int i = 0; i < 3; i++) e[i] = sn > 1e-12 ? ax[i] / sn * ang : (c < 0 && i == 0 ? M_PI : 0);
}
static void poseErr(const TRef& m, int node, const std::vector<double>& q, const Fr& goal, double* e) {
    Fr f = m.pose(node, q);
    for (int i = 0; i < 3; i++) e[i] = goal.p[i] - f.p[i];
    rotvec(f.R, goal.R, e + 3);
}
static Mat sym(int n, int kind) {
    Mat m = Mat::eye(n);
    if (kind == 1) for (int i = 0; i < n; i++) m(i, i) = 0.5 + 0.4 * (i % 7);
    if (kind == 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = i == j ? 1.5 + 0.1 * i : 0.2 / (1 + std::abs(i - j)) * ((i + j) % 2 ? -1 : 1);
    if (kind == 3 && n) m(n / 2, n / 2) = 0;
    return m;
}
static Eigen::MatrixXd eig(const Mat& a) { Eigen::MatrixXd r(a.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) r(i, j) = a(i, j); return r; }
static const double TW[][6] = {{1, 0, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0}, {0, 0, 0, 0, 1, 0}, {0.3, -0.7, 1.1, -0.2, 0.5, 0.9}, {-2, 0.1, 0, 1, -0.3, 0.4}, {0, 0, 0, 0, 0, 0}};
static KDL::Twist tw(const double* t) { return KDL::Twist(KDL::Vector(t[0], t[1], t[2]), KDL::Vector(t[3], t[4], t[5])); }

// ---- velocity
static void velocity(const TRef& m, const std::vector<int>& nodes) {   // endpoint nodes
    int N = m.joints;
    std::vector<std::string> names; std::map<std::string, int> order;
    for (int x : nodes) { names.push_back(m.name(x)); order[m.name(x)] = x; }
    int E = (int)order.size();
    bool listed = std::is_sorted(names.begin(), names.end());   // which endpoint a row of the weight stands for is only clear then
    KDL::Tree t = m.make();
    KDL::TreeIkSolverVel_wdls s(t, names);
    if ((int)names.size() == E) mc::check(s.getLambda() == 0 && s.getWeightJS().isIdentity(0) && s.getWeightTS().isIdentity(0), "defaults of the settings", " ");
    int kq = mc::choose(4, "joint weight"), kx = mc::choose(listed ? 4 : 1, "task weight");
    static const double lams[] = {0, 0.05, 1.5};
    double lambda = mc::pick(lams, "lambda");
    Mat Mq = sym(N, kq), Mx = sym(6 * E, kx), full = Mat::eye(6 * (int)names.size());
    for (int i = 0; i < 6 * E; i++) for (int j = 0; j < 6 * E; j++) full(i, j) = Mx(i, j);
    s.setWeightJS(eig(Mq)); s.setWeightTS(eig(full)); s.setLambda(lambda);
    mc::check(s.getLambda() == lambda && s.getWeightJS() == eig(Mq) && s.getWeightTS() == eig(full), "settings are kept", " ");
    for (int p = -2; p < mc::tiered(3, 5); p++) {
        std::vector<double> q = qpat(N, p < 0 ? 0 : (p + 1) % 5); if (p < 0) for (int i = 0; i < N; i++) q[i] += (p == -1 ? 1e-4 : 2e-7) * (1 + i % 3);   // nearly straight
        Mat J(6 * E, N); int k = 0;
        for (auto& o : order) { Mat j = m.jacobian(o.second, q); for (int r = 0; r < 6; r++) for (int c = 0; c < N; c++) J(6 * k + r, c) = j(r, c); k++; }
        Mat B = Mx * J * Mq, U, W; std::vector<double> sv = ref::svals(B, &U, &W);
        bool clear = true; double top = sv.empty() ? 0 : sv[0];
        for (double x : sv) if (lambda == 0 && x > 1e-13 * top && x < 1e-7) clear = false;
        if (!clear) { mc::count("singular value near zero without damping"); continue; }
        for (int w = 0; w < 6; w++) {
            KDL::Twists v; Mat T(6 * E, 1); k = 0;
            for (auto& o : order) { const double* x = TW[(w + 2 * k) % 6]; v[o.first] = tw(x); for (int r = 0; r < 6; r++) T(6 * k + r, 0) = x[r]; k++; }
            Mat y = Mx * T, z(N, 1);
            for (int i = 0; i < N && i < (int)sv.size(); i++) {
                double f = sv[i] > 1e-12 * top ? sv[i] / (sv[i] * sv[i] + lambda * lambda) : 0, d = 0;
                for (int r = 0; r < 6 * E; r++) d += i < U.c ? U(r, i) * y(r, 0) : 0;
                for (int r = 0; r < N; r++) z(r, 0) += W(r, i) * f * d;
            }
            Mat want = Mq * z; double nrm = 0; for (double x : y.a) nrm += x * x; nrm = std::sqrt(nrm);
            KDL::JntArray Q = ja(q), o(N); for (int i = 0; i < N; i++) o(i) = 77;
            mc::step();
            double r = s.CartToJnt(Q, v, o);
            std::string at = mc::fmt("%s at %s, twist %d, weights %d %d, lambda %g", m.str().c_str(), kin::str(q).c_str(), w, kq, kx, lambda);
            mc::near(r, nrm, 1e-9, "velocity: weighted norm returned", at.c_str());
            nearQ(o, want.a, 1e-7 * (1 + ref::maxabs(want)), "velocity: joint velocity", at.c_str());
            nearQ(Q, q, 0, "argument untouched");
            if (N) mc::state(want.a.data(), want.a.size(), w);
        }
    }
    // refusals, then a correct call
    KDL::Twists v; for (auto& o : order) v[o.first] = tw(TW[3]);
    std::vector<double> q = qpat(N, 1);
    KDL::JntArray first(N), again(N), o(N);
    double r0 = s.CartToJnt(ja(q), v, first);
    KDL::Twists u = v; u["nobody"] = tw(TW[0]);
    mc::check(s.CartToJnt(ja(q), u, o) < 0, "velocity: unknown endpoint refused", " ");
    for (auto& x : order) { KDL::Twists less = v; less.erase(x.first); mc::check(s.CartToJnt(ja(q), less, o) < 0, "velocity: missing endpoint refused", "%s", x.first.c_str()); }
    for (int d = -N; d <= 2; d++) if (d) {
        KDL::JntArray bad(N + d); for (int i = 0; i < N + d; i++) bad(i) = 0.1;
        mc::check(s.CartToJnt(bad, v, o) < 0, "velocity: wrong number of joints refused", "%+d", d);
        mc::check(s.CartToJnt(ja(q), v, bad) < 0, "velocity: wrong size of the result refused", "%+d", d);
        mc::check(bad.rows() == (unsigned)(N + d), "velocity: refused result keeps its size", "%u", bad.rows());
    }
    s.setWeightJS(Eigen::MatrixXd::Identity(N + 1, N + 1)); mc::check(s.CartToJnt(ja(q), v, o) < 0, "velocity: wrong joint weight refused", " ");
    s.setWeightJS(eig(Mq));
    s.setWeightTS(Eigen::MatrixXd::Identity(6 * E + 1, 6 * E + 1)); mc::check(s.CartToJnt(ja(q), v, o) < 0, "velocity: wrong task weight refused", " ");
    s.setWeightTS(eig(full));
    mc::step(6 + 2 * N);
    mc::check(s.CartToJnt(ja(q), v, again) == r0, "velocity: works after refusals", " ");
    nearQ(again, vec(first), 0, "velocity: works after refusals");
}
static std::vector<int> some_nodes(int n) {   // every sequence of one or two nodes (the second may repeat the first), or three
    std::vector<int> r; int c = 1 + mc::choose(2, "endpoints");
    for (int i = 0; i < c; i++) r.push_back(mc::choose(n + 1, "endpoint") - 1);
    return r;
}
SCENARIO_SPLIT(vel_small, 5) {
    TRef m = choose_tree(mc::tiered(2, 3), mc::thorough() ? std::vector<int>{1, 4, 6, 5} : std::vector<int>{1, 4, 6, 5, 0, 7, 10});
    velocity(m, some_nodes((int)m.n.size()));
}
// a torso with two arms; 0: planar torso and two three-joint arms, 1: six and seven joints after a common joint, 2: an arm and a neck with fixed segments
static TRef body(int which) {
    TRef m; int c = 0;
    auto seg = [&](int k) { Seg g = menu()[k]; g.name = mc::fmt("%c%d", 'z' - c % 5, c); c++; return g; };
    auto chain = [&](std::vector<int> ks, int hook) { for (int k : ks) { m.add(seg(k), hook); hook = (int)m.n.size() - 1; } return hook; };
    int t;
    switch (which) {
        case 0: t = chain({0}, -1); chain({2, 6, 1}, t); chain({4, 7}, t); break;
        case 1: t = chain({1, 0}, -1); chain({0, 2, 6, 4, 7, 2}, t); chain({4, 6, 0, 7, 2, 0}, t); break;
        case 2: t = chain({3, 1}, -1); chain({0, 2, 0, 6}, t); chain({1, 5, 4, 12}, t); break;
        default: chain({0, 2, 4, 6, 7, 0, 2}, -1); chain({5}, -1);
    }
    return m;
}
static std::vector<int> leaves(const TRef& m) { std::vector<int> r; for (int i = 0; i < (int)m.n.size(); i++) { bool leaf = true; for (auto& x : m.n) leaf &= x.parent != i; if (leaf) r.push_back(i); } return r; }
SCENARIO_SPLIT(vel_body, 4) {
    TRef m = body(mc::choose(4, "body")); std::vector<int> l = leaves(m);
    int how = mc::choose(3, "endpoints");
    if (how == 1) std::reverse(l.begin(), l.end());
    if (how == 2) l.push_back((int)m.n.size() / 2);
    velocity(m, l);
}

// ---- position, Newton-Raphson within limits
struct Limits { std::vector<double> lo, hi; };
static Limits limits(const TRef& m, int kind) {
    Limits l; int N = m.joints; std::vector<double> q = qpat(N, 1);
    for (int i = 0; i < N; i++) {
        double w = kind == 0 ? 100 : kind == 1 ? 1.0 : kind == 2 ? (i % 2 ? 0 : 3) : 0.1;
        l.lo.push_back(q[i] - w); l.hi.push_back(q[i] + w * (kind == 1 ? 0.5 : 1));
    }
    return l;
}
struct Ask { std::string what; std::map<int, Fr> goal; std::vector<double> start; bool same = false, easy = false; };
static std::vector<Ask> asks(const TRef& m, const std::vector<int>& ends) {
    std::vector<Ask> r; int N = m.joints, E = (int)ends.size();
    Mat J(6 * E, N); std::vector<double> q1 = qpat(N, 1);
    for (int p = 0; p < 3; p++) for (unsigned sub = 0; sub < 1u << E; sub++) for (int kind = 0; kind < 5; kind++) {
        Ask a; std::vector<double> q = qpat(N, p == 2 ? 4 : p);
        a.start = qpat(N, p == 2 ? 4 : p);
        a.what = mc::fmt("posture %d, endpoints %u, kind %d", p, sub, kind);
        if (kind == 0) a.same = true;
        if (kind == 1) { for (int i = 0; i < N; i++) a.start[i] += 0.03 * (i % 2 ? 1 : -0.7); a.easy = p == 1; }
        if (kind == 2) a.start = qpat(N, (p + 1) % 3);
        for (int e = 0; e < E; e++) if (sub >> e & 1) {
            Fr f = m.pose(ends[e], q);
            if (kind == 3) f.p = f.p + V(50, -70, 20);
            if (kind == 4) { f.p = f.p + V(1e-3, 5e-4, -1e-3); f.R = ref::rotx(1e-3) * f.R; }
            a.goal[ends[e]] = f;
        }
        r.push_back(a);
    }
    return r;
}
struct Ans { double r; std::vector<double> q; };
template <class S> static Ans call(S& s, const TRef& m, const Ask& a) {
    KDL::Frames f; for (auto& g : a.goal) f[m.name(g.first)] = k(g.second);
    KDL::JntArray q = ja(a.start), o(m.joints); for (int i = 0; i < m.joints; i++) o(i) = 77;
    Ans x; mc::step();
    double sum = 0; for (double v : a.start) sum += v;
    if ((long)std::floor(std::fabs(sum) * 1000) % 3 == 1) { x.r = s.CartToJnt(q, f, q); x.q = vec(q); return x; }   // the answer may take the place of the start
    x.r = s.CartToJnt(q, f, o); x.q = vec(o);
    nearQ(q, a.start, 0, "argument untouched");
    return x;
}
static bool inside(const std::vector<double>& q, const Limits& l) { for (size_t i = 0; i < q.size(); i++) if (!(q[i] >= l.lo[i] && q[i] <= l.hi[i])) return false; return true; }
static void position(const TRef& m, const std::vector<int>& ends) {
    int N = m.joints, E = (int)ends.size();
    KDL::Tree t = m.make(); std::vector<std::string> names; for (int e : ends) names.push_back(m.name(e));
    int kind = mc::choose(4, "limits"); Limits l = limits(m, kind);
    static const double lams[] = {0, 0.02}; double lambda = mc::pick(lams, "lambda");
    static const int iters[] = {30, 0, 1, 3, 100, 10}; int maxiter = iters[mc::choose(mc::tiered(3, 6), "maxiter")];
    static const double tols[] = {1e-6, 1e-3, 1e-9}; double eps = tols[mc::choose(mc::tiered(2, 3), "eps")];
    int kx = mc::choose(2, "task weight");
    bool sorted = std::is_sorted(names.begin(), names.end());
    Mat Mx = kx == 0 ? Mat::eye(6 * E) : sorted ? sym(6 * E, 1) : 3.0 * Mat::eye(6 * E);
    KDL::TreeFkSolverPos_recursive fk(t);
    KDL::TreeIkSolverVel_wdls vel(t, names); vel.setLambda(lambda); vel.setWeightTS(eig(Mx));
    KDL::TreeIkSolverPos_NR_JL s(t, names, ja(l.lo), ja(l.hi), fk, vel, maxiter, eps);
    for (auto& a : asks(m, ends)) {
        Ans x = call(s, m, a);
        std::string at = mc::fmt("%s, %s, limits %d, lambda %g, %d iterations, eps %g", m.str().c_str(), a.what.c_str(), kind, lambda, maxiter, eps);
        mc::check(x.q.size() == (size_t)N, "position: size of the result", "%s", at.c_str());
        mc::check(!std::isnan(x.r), "position: answer is a number", "%s", at.c_str());
        for (double v : x.q) mc::check(std::isfinite(v), "position: joints are numbers", "%s", at.c_str());
        mc::check(inside(x.q, l), "position: joints within their limits", "%s: %s", at.c_str(), kin::str(x.q).c_str());
        if (x.r >= 0) {
            Mat T(6 * E, 1); int k = 0; double big = 1; std::map<std::string, int> order; for (int e : ends) order[m.name(e)] = e;
            for (auto& o : order) { auto g = a.goal.find(o.second); if (g != a.goal.end()) { double e[6]; poseErr(m, o.second, x.q, g->second, e); for (int i = 0; i < 6; i++) T(6 * k + i, 0) = e[i]; } k++; }
            Mat y = Mx * T; double d = 0; for (double v : y.a) d += v * v; d = std::sqrt(d);
            double slack = 2e-6 * E * ref::maxabs(Mx);   // turns below the library's angle tolerance are no error to it
            mc::check(d <= eps * 1.001 + slack + 1e-10 * big, "position: success means the endpoints are at their targets", "%s: distance %g", at.c_str(), d);
            mc::near(x.r, d, 1e-9 + 1e-3 * eps + slack, "position: distance returned", at.c_str());
            mc::count("position: reached");
        } else {
            mc::count("position: not reached");
            mc::check(!a.same || !inside(a.start, l) || maxiter == 0, "position: already there", "%s: %g", at.c_str(), x.r);
            // tolerances below the library's angle tolerance need not be reachable
            if (a.easy && maxiter >= 30 && kind == 0 && eps < 1e-6) mc::count("easy target missed");
            else mc::check(!(a.easy && maxiter >= 30 && kind == 0), "position: an easy target is reached", "%s: %g", at.c_str(), x.r);
        }
        if (a.same && inside(a.start, l) && maxiter) nearQ(ja(x.q), a.start, 0, "position: already there", at.c_str());
        KDL::TreeFkSolverPos_recursive fk2(t); KDL::TreeIkSolverVel_wdls vel2(t, names); vel2.setLambda(lambda); vel2.setWeightTS(eig(Mx));
        KDL::TreeIkSolverPos_NR_JL s2(t, names, ja(l.lo), ja(l.hi), fk2, vel2, maxiter, eps);
        Ans y = call(s2, m, a);
        if (!mc::check(x.r == y.r || std::fabs(x.r - y.r) < 1e-9, "position: independent of earlier calls", "%s: %g instead of %g", at.c_str(), x.r, y.r)) continue;
        nearQ(ja(x.q), y.q, 1e-9, "position: independent of earlier calls", at.c_str());
        double st[3] = {x.r, x.q.empty() ? 0 : x.q[0], x.q.empty() ? 0 : x.q.back()}; mc::state(st, 3);
    }
    Ask a = asks(m, ends).back(); KDL::Frames f, g; for (auto& x : a.goal) f[m.name(x.first)] = k(x.second);
    KDL::JntArray o(N); g = f; g["nobody"] = KDL::Frame();
    mc::check(s.CartToJnt(ja(a.start), g, o) < 0, "position: unknown endpoint refused", " ");
    for (int d = -N; d <= 2; d++) if (d) {
        KDL::JntArray bad(N + d), big(N + d); for (int i = 0; i < N + d; i++) { bad(i) = 0; big(i) = 5; }
        KDL::JntArray lo = ja(l.lo), hi = ja(l.hi);
        mc::check(s.CartToJnt(bad, f, o) < 0, "position: wrong number of joints refused", "%+d", d);
        KDL::TreeIkSolverPos_NR_JL b1(t, names, bad, hi, fk, vel, maxiter, eps), b2(t, names, lo, big, fk, vel, maxiter, eps);
        KDL::JntArray o1(N), o2(N);
        mc::check(b1.CartToJnt(ja(a.start), f, o1) < 0, "position: wrong lower limits refused", "%+d", d);
        mc::check(b2.CartToJnt(ja(a.start), f, o2) < 0, "position: wrong upper limits refused", "%+d", d);
        mc::step(3);
    }
}
SCENARIO_SPLIT(pos_body, 4) { TRef m = body(mc::choose(4, "body")); std::vector<int> l = leaves(m); if (mc::flag("other order")) std::reverse(l.begin(), l.end()); position(m, l); }
SCENARIO_SPLIT(pos_small, 5) {
    TRef m = choose_tree(2, {1, 4, 6, 5});
    std::vector<int> e = {mc::choose(2, "endpoint")}; position(m, e);
}
// solvers that fail: the failure is what the position solvers report
struct BadFk : KDL::TreeFkSolverPos { KDL::TreeFkSolverPos& in; int at, n = 0, code; BadFk(KDL::TreeFkSolverPos& i, int a, int c) : in(i), at(a), code(c) {} int JntToCart(const KDL::JntArray& q, KDL::Frame& f, std::string s) { if (n++ == at) return code; return in.JntToCart(q, f, s); } };
struct BadVel : KDL::TreeIkSolverVel { KDL::TreeIkSolverVel& in; int at, n = 0; BadVel(KDL::TreeIkSolverVel& i, int a) : in(i), at(a) {} double CartToJnt(const KDL::JntArray& q, const KDL::Twists& v, KDL::JntArray& o) { if (n++ == at) return -7; return in.CartToJnt(q, v, o); } };
SCENARIO(failing) {
    TRef m = body(mc::choose(4, "body")); std::vector<int> e = leaves(m); std::vector<std::string> names; for (int x : e) names.push_back(m.name(x));
    KDL::Tree t = m.make(); int N = m.joints;
    KDL::TreeFkSolverPos_recursive fk(t); KDL::TreeIkSolverVel_wdls vel(t, names); vel.setLambda(0.02);
    int at = mc::choose(6, "failing call"); bool position = mc::flag("position solver fails");
    BadFk bf(fk, position ? at : -1, mc::flag("code") ? -1 : -2); BadVel bv(vel, position ? -1 : at);
    std::vector<double> lo(N, -100), hi(N, 100), sp(N, 1);
    Ask a; a.start = qpat(N, 1); for (int x : e) { Fr f = m.pose(x, a.start); f.p = f.p + V(30, -20, 40); a.goal[x] = f; }
    { KDL::TreeIkSolverPos_NR_JL s(t, names, ja(lo), ja(hi), bf, bv, 10, 1e-6); Ans x = call(s, m, a); mc::check(x.r < 0, "a failing solver is no success", "%g", x.r); }
    { bf.n = bv.n = 0; if (at >= (position ? (int)e.size() : 1)) return; KDL::TreeIkSolverPos_Online s(N, names, ja(lo), ja(hi), ja(sp), 1, 1, bf, bv); Ans x = call(s, m, a); mc::check(x.r < 0, "online: a failing solver is no success", "%g", x.r); }
}

// ---- online
struct Stub : KDL::TreeIkSolverVel { KDL::Twists asked; std::vector<double> out, seen; int calls = 0; double CartToJnt(const KDL::JntArray& q, const KDL::Twists& v, KDL::JntArray& o) { calls++; asked = v; seen = vec(q); for (unsigned i = 0; i < o.rows(); i++) o(i) = out[i]; return 0.25; } };
static void check_step(const std::vector<double>& q, const std::vector<double>& qd, const std::vector<double>& got, const Limits& l, const std::vector<double>& sp, const std::string& at) {
    double s = 1; for (size_t i = 0; i < q.size(); i++) if (std::fabs(qd[i]) > sp[i]) s = std::min(s, sp[i] / std::fabs(qd[i]));
    for (size_t i = 0; i < q.size(); i++) {
        mc::check(got[i] >= l.lo[i] && got[i] <= l.hi[i], "online: joints within their limits", "joint %zu at %.17g, %s", i, got[i], at.c_str());
        if (q[i] >= l.lo[i] && q[i] <= l.hi[i]) mc::check(std::fabs(got[i] - q[i]) <= sp[i] * (1 + 1e-12) + 1e-15, "online: joints within their speed limits", "joint %zu moves %.17g, %s", i, got[i] - q[i], at.c_str());
        double want = q[i] + s * qd[i]; want = std::min(l.hi[i], std::max(l.lo[i], want));
        mc::near(got[i], want, 1e-12, "online: the step keeps its direction", at.c_str());
    }
}
SCENARIO_SPLIT(online_joints, 4) {
    TRef m; Seg a = menu()[6], b = menu()[4], c = menu()[3]; a.name = "a"; b.name = "b"; c.name = "c"; m.add(a, -1); m.add(b, 0); m.add(c, 0);
    KDL::Tree t = m.make(); KDL::TreeFkSolverPos_recursive fk(t); Stub st;
    static const double D[] = {0, 0.3, -0.5, 0.5000001, -0.7, 5, -40};
    std::vector<double> sp(3), q(3); Limits l; st.out.resize(3); l.lo.resize(3); l.hi.resize(3);
    for (int i = 0; i < 3; i++) st.out[i] = D[mc::choose(7, "joint speed")];
    for (int i = 0; i < 3; i++) {
        static const double W[][2] = {{-10, 10}, {-0.1, 10}, {-10, 0.2}, {0, 0}, {0.1, 5}, {-5, -0.1}};   // around the start
        sp[i] = i == 2 ? 0.8 : 0.5; q[i] = 0.4 - 0.3 * i;
        int w = mc::choose(mc::tiered(4, 6), "limits"); l.lo[i] = q[i] + W[w][0]; l.hi[i] = q[i] + W[w][1];
    }
    if (mc::flag("one joint may not move")) sp[1] = 0;
    std::vector<std::string> names = {"b", "c"};
    KDL::TreeIkSolverPos_Online s(3, names, ja(l.lo), ja(l.hi), ja(sp), 1, 1, fk, st);
    KDL::Frames f; KDL::JntArray o(3);
    mc::step();
    double r = s.CartToJnt(ja(q), f, o);
    mc::check(r >= 0, "online: answer", "%g", r);
    check_step(q, st.out, vec(o), l, sp, mc::fmt("speeds %s", kin::str(st.out).c_str()));
    std::vector<double> x = vec(o); mc::state(x.data(), 3);
}
SCENARIO_SPLIT(online_cartesian, 4) {
    TRef m = body(0); std::vector<int> e = leaves(m);
    KDL::Tree t = m.make(); KDL::TreeFkSolverPos_recursive fk(t); Stub st; int N = m.joints; st.out.assign(N, 0.0);
    std::vector<std::string> names; for (int x : e) names.push_back(m.name(x));
    static const double LIM[] = {0.5, 2, 0, 1e-3};
    double tm = mc::pick(LIM, "translation limit"), rm = mc::pick(LIM, "rotation limit");
    std::vector<double> lo(N, -50), hi(N, 50), sp(N, 1);
    KDL::TreeIkSolverPos_Online s(N, names, ja(lo), ja(hi), ja(sp), tm, rm, fk, st);
    static const double D[] = {0, 0.3, 0.5, 0.50001, 1.2, 2.5};
    std::vector<double> q = qpat(N, 1);
    for (int round = 0; round < 2; round++) {
        Ask a; a.start = q; std::map<int, std::pair<double, double>> size;
        unsigned sub = round ? 1 + mc::choose(3, "endpoints given") : 3;
        for (int i = 0; i < 2; i++) if (sub >> i & 1) {
            static const double P2[][2] = {{0.3, 1.2}, {2.5, 0.3}, {0.5, 0}};
            int w2 = i ? round ? 0 : mc::choose(mc::tiered(2, 3), "second endpoint") : 0;
            double dt = i ? P2[w2][0] : D[mc::choose(6, "distance")], dr = i ? P2[w2][1] : D[mc::choose(6, "turn")];
            Fr f = m.pose(e[i], q);
            V d = V(0.6, 0, -0.8); if (i) d = V(0, -1, 0);
            V ax(0.48, 0.6, 0.64);
            f.p = f.p + dt * d; f.R = ref::rodrigues(ax, dr) * f.R;
            a.goal[e[i]] = f; size[e[i]] = {dt, dr};
        }
        Ans x = call(s, m, a);
        mc::near(x.r, 0.25, 0, "online: distance returned");
        mc::check(st.asked.size() == 2, "online: every endpoint is asked for", "%zu", st.asked.size());
        for (int i = 0; i < 2; i++) {
            KDL::Twist got = st.asked[m.name(e[i])];
            if (!a.goal.count(e[i])) { mc::check(got.vel.Norm() == 0 && got.rot.Norm() == 0, "online: an endpoint that is not given stays", "%g %g", got.vel.Norm(), got.rot.Norm()); continue; }
            mc::check(got.vel.Norm() <= tm * (1 + 1e-9) + 1e-12 && got.rot.Norm() <= rm * (1 + 1e-9) + 1e-12, "online: endpoint within the Cartesian speed limits", "distance %g, turn %g, limits %g %g: asked %.12g %.12g", size[e[i]].first, size[e[i]].second, tm, rm, got.vel.Norm(), got.rot.Norm());
            double err[6]; poseErr(m, e[i], q, a.goal[e[i]], err);
            double nt = ref::norm(V(err[0], err[1], err[2])), nr = ref::norm(V(err[3], err[4], err[5])), sc = 1;
            if (nt > tm) sc = std::min(sc, tm / nt);
            if (nr > rm) sc = std::min(sc, rm / nr);
            // rounding may put a distance on either side of the limit or leave a trace of a turn
            if (std::min(tm, rm) < 1e-2 && (nt < 1e-6 || nr < 1e-6)) { mc::count("rounding decides"); continue; }
            nearT(got, sc * V(err[0], err[1], err[2]), sc * V(err[3], err[4], err[5]), 1e-6, "online: the motion asked for keeps its direction");
        }
        nearQ(ja(st.seen), q, 0, "online: velocity solved where the arm is");
    }
}
SCENARIO_SPLIT(online_real, 4) {
    TRef m = body(mc::choose(4, "body")); std::vector<int> e = leaves(m); int N = m.joints;
    KDL::Tree t = m.make(); std::vector<std::string> names; for (int x : e) names.push_back(m.name(x));
    KDL::TreeFkSolverPos_recursive fk(t); KDL::TreeIkSolverVel_wdls vel(t, names); double lambda = mc::flag("damped") ? 0.05 : 1e-3; vel.setLambda(lambda);
    Limits l = limits(m, mc::choose(4, "limits"));
    static const double S[] = {0.01, 0.2, 3}; double js = mc::pick(S, "joint speed"), ts = mc::pick(S, "translation speed"), rs = mc::pick(S, "rotation speed");
    std::vector<double> sp(N, js); for (int i = 0; i < N; i += 3) sp[i] *= 2;
    KDL::TreeIkSolverPos_Online s(N, names, ja(l.lo), ja(l.hi), ja(sp), ts, rs, fk, vel);
    for (auto& a : asks(m, e)) {
        std::vector<double> q = a.start; for (int i = 0; i < N; i++) q[i] = std::min(l.hi[i], std::max(l.lo[i], q[i]));
        for (int step = 0; step < 3; step++) {
            Ask b = a; b.start = q; Ans x = call(s, m, b);
            mc::check(x.r >= 0, "online: answer", "%g", x.r);
            for (int i = 0; i < N; i++) {
                mc::check(x.q[i] >= l.lo[i] && x.q[i] <= l.hi[i], "online: joints within their limits", "%s step %d", a.what.c_str(), step);
                mc::check(std::fabs(x.q[i] - q[i]) <= sp[i] * (1 + 1e-9) + 1e-12, "online: joints within their speed limits", "%s step %d joint %d: %g", a.what.c_str(), step, i, x.q[i] - q[i]);
            }
            KDL::TreeIkSolverVel_wdls v2(t, names); v2.setLambda(lambda); KDL::TreeIkSolverPos_Online s2(N, names, ja(l.lo), ja(l.hi), ja(sp), ts, rs, fk, v2);
            Ans y = call(s2, m, b);
            mc::near(x.r, y.r, 1e-9, "online: independent of earlier calls", a.what.c_str()); nearQ(ja(x.q), y.q, 1e-9, "online: independent of earlier calls", a.what.c_str());
            q = x.q;
        }
    }
    KDL::Frames f, g; KDL::JntArray o(N); g["nobody"] = KDL::Frame();
    mc::check(s.CartToJnt(ja(qpat(N, 1)), g, o) < 0, "online: unknown endpoint refused", " ");
    for (int d = -N; d <= 2; d++) if (d) {
        KDL::JntArray bad(N + d); for (int i = 0; i < N + d; i++) bad(i) = 0.5;
        KDL::JntArray lo = ja(l.lo), hi = ja(l.hi), v = ja(sp), o1(N);
        mc::check(s.CartToJnt(bad, f, o1) < 0, "online: wrong number of joints refused", "%+d", d);
        for (int w = 0; w < 4; w++) {
            KDL::TreeIkSolverPos_Online b(w == 3 ? N + d : N, names, w == 0 ? bad : lo, w == 1 ? bad : hi, w == 2 ? bad : v, ts, rs, fk, vel);
            KDL::JntArray o2(N);
            mc::check(b.CartToJnt(ja(qpat(N, 1)), f, o2) < 0, "online: wrong size of a limit refused", "limit %d %+d", w, d);
            mc::step();
        }
    }
}
// ---- several endpoints, any of them given, one request after another: each is answered as if it were the first
SCENARIO_SPLIT(some_given, 3) {
    TRef m = body(mc::choose(3, "body")); std::vector<int> e = leaves(m); int E = 3 + mc::choose(2, "endpoints"), N = m.joints; for (int x : {1, (int)m.n.size() - 2}) if ((int)e.size() < E && std::find(e.begin(), e.end(), x) == e.end()) e.push_back(x);
    E = (int)e.size(); KDL::Tree t = m.make(); std::vector<std::string> names; for (int x : e) names.push_back(m.name(x));
    int mode = mc::choose(3, "solver"); KDL::TreeFkSolverPos_recursive fk(t); Stub st; st.out.assign(N, 0.0); KDL::TreeIkSolverVel_wdls vel(t, names); vel.setLambda(0.05); Limits l = limits(m, 0); std::vector<double> sp(N, 0.3);
    KDL::TreeIkSolverPos_Online on(N, names, ja(l.lo), ja(l.hi), ja(sp), 0.4, 0.3, fk, mode ? static_cast<KDL::TreeIkSolverVel&>(vel) : st); KDL::TreeIkSolverPos_NR_JL nr(t, names, ja(l.lo), ja(l.hi), fk, vel, 5, 1e-3);
    for (int round = 0; round < mc::tiered(2, 3); round++) {
        Ask a; a.start = qpat(N, round % 2 ? 4 : 1); a.what = mc::fmt("request %d", round); unsigned sub = mc::choose(round == 2 ? std::min(8, 1 << E) : 1 << E, "endpoints given");
        for (int i = 0; i < E; i++) if (sub >> i & 1) { Fr f = m.pose(e[i], a.start); f.p = f.p + (0.1 + 0.2 * ((i + round) % 3)) * V(0.6, i % 2 ? 0.8 : 0, i % 2 ? 0 : -0.8); f.R = ref::rodrigues(V(0.48, 0.6, 0.64), 0.2 * ((i + 2 * round) % 4) - 0.1) * f.R; a.goal[e[i]] = f; }
        std::string at = m.str() + mc::fmt(": %d endpoints, given %u in request %d", E, sub, round);
        Ans x = mode == 2 ? call(nr, m, a) : call(on, m, a);
        if (mode == 0) {
            mc::check((int)st.asked.size() == E, "online: every endpoint is asked for", "%zu", st.asked.size());
            for (int i = 0; i < E; i++) {
                KDL::Twist got = st.asked[m.name(e[i])]; if (!a.goal.count(e[i])) { mc::check(got.vel.Norm() == 0 && got.rot.Norm() == 0, "online: an endpoint that is not given stays", "%s: endpoint %d: %g %g", at.c_str(), i, got.vel.Norm(), got.rot.Norm()); continue; }
                double err[6]; poseErr(m, e[i], a.start, a.goal[e[i]], err); double nt = ref::norm(V(err[0], err[1], err[2])), nr_ = ref::norm(V(err[3], err[4], err[5])), sc = 1; if (nt > 0.4) sc = std::min(sc, 0.4 / nt); if (nr_ > 0.3) sc = std::min(sc, 0.3 / nr_);
                nearT(got, sc * V(err[0], err[1], err[2]), sc * V(err[3], err[4], err[5]), 1e-6, "online: the motion asked for keeps its direction", at.c_str());
            }
        } else {
            KDL::TreeFkSolverPos_recursive fk2(t); KDL::TreeIkSolverVel_wdls v2(t, names); v2.setLambda(0.05); Ans y;
            if (mode == 1) { KDL::TreeIkSolverPos_Online s2(N, names, ja(l.lo), ja(l.hi), ja(sp), 0.4, 0.3, fk2, v2); y = call(s2, m, a); } else { KDL::TreeIkSolverPos_NR_JL s2(t, names, ja(l.lo), ja(l.hi), fk2, v2, 5, 1e-3); y = call(s2, m, a); }
            mc::near(x.r, y.r, 1e-9, "independent of earlier requests", at.c_str()); nearQ(ja(x.q), y.q, 1e-9, "independent of earlier requests", at.c_str());
        }
        double k3[3] = {x.r, x.q.empty() ? 0 : x.q[0], (double)sub}; mc::state(k3, 3);
    }
}
