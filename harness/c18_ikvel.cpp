// C18: velocity inverse kinematics is the (weighted, damped) least-squares inverse.
#include "kin.hpp"
#include <chainiksolvervel_pinv.hpp>
#include <chainiksolvervel_pinv_givens.hpp>
#include <chainiksolvervel_pinv_nso.hpp>
#include <chainiksolvervel_wdls.hpp>
using namespace kin;

static const double TW[][6] = {{1, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 0, 0}, {0, 0, 1, 0, 0, 0}, {0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 0, 1}, {0.3, -0.7, 1.1, -0.2, 0.5, 0.9}, {-2, 0.1, 0, 1, -0.3, 0.4}, {2e-4, -3e-6, 1e-3, 5e-5, -4e-4, 1e-6}, {0, 0, 0, 0, 0, 0}};
static KDL::Twist tw(const double* t) { return KDL::Twist(KDL::Vector(t[0], t[1], t[2]), KDL::Vector(t[3], t[4], t[5])); }
static Mat col(const double* t) { Mat r(6, 1); for (int i = 0; i < 6; i++) r(i, 0) = t[i]; return r; }
static std::vector<double> vecof(const Mat& m) { return m.a; }
// are all singular values clearly below or clearly above the cut?
static bool clear_of(const std::vector<double>& s, double cut, double lo, double hi) {
    for (double x : s) if (x > lo * cut && x < hi * cut) return false;
    return true;
}
static const double TOL = 1e-8;

struct Case { Spec s; int N; std::vector<double> q; Mat J; std::vector<double> sv; Mat U, W; };
static Case make(const Spec& s, const std::vector<double>& q) {
    Case c; c.s = s; c.N = nj(s); c.q = q; c.J = jacobian(s, q, (int)s.size()); c.sv = ref::svals(c.J, &c.U, &c.W); return c;
}
static int rank(const std::vector<double>& s, double eps) { int r = 0; for (double x : s) r += x >= eps; return r; }
static std::string where(const Case& c, const double* t) { return mc::fmt("%s at %s, twist %d", str(c.s).c_str(), kin::str(c.q).c_str(), (int)((const double(*)[6])t - TW)); }

static void pinv(const Case& c, KDL::ChainIkSolverVel_pinv& s, double eps) {
    if (!clear_of(c.sv, eps, 1e-3, 1.5)) { mc::count("singular value near the cut-off"); return; }
    Mat P = ref::pinv(c.J, eps); int r = rank(c.sv, eps);
    for (auto& t : TW) {
        KDL::JntArray o(c.N); for (int i = 0; i < c.N; i++) o(i) = 77;
        KDL::JntArray q = ja(c.q); KDL::Twist v = tw(t);
        mc::step();
        int code = s.CartToJnt(q, v, o);
        std::string w = where(c, t);
        mc::check(code == s.getError(), "pinv: error read-out", "%d %d", code, s.getError());
        mc::check(code == (r < std::min(6, c.N) ? KDL::ChainIkSolverVel_pinv::E_CONVERGE_PINV_SINGULAR : 0), "pinv: code tells whether singular", "%d with rank %d of %d, %s", code, r, c.N, w.c_str());
        mc::check((int)s.getNrZeroSigmas() == c.N - r && s.getSVDResult() == 0, "pinv: number of vanishing singular values", "%u instead of %d", s.getNrZeroSigmas(), c.N - r);
        std::vector<double> want = vecof(P * col(t));
        nearQ(o, want, TOL, "pinv: joint velocity", w.c_str());
        nearQ(q, c.q, 0, "argument untouched");
        if (c.N) mc::state(want.data(), c.N, 1);
    }
}
static void givens(const Case& c, KDL::ChainIkSolverVel_pinv_givens& s) {
    bool full = rank(c.sv, 1e-2) == std::min(6, c.N);
    Mat P = ref::pinv(c.J, 1e-8);
    for (auto& t : TW) {
        KDL::JntArray o(c.N); for (int i = 0; i < c.N; i++) o(i) = 77;
        mc::step();
        int code = s.CartToJnt(ja(c.q), tw(t), o);
        mc::check(code == 0 && s.getError() == 0, "pinv_givens: code", "%d", code);
        if (!full) { mc::count("givens: not full rank"); continue; }
        nearQ(o, vecof(P * col(t)), 1e-5, "pinv_givens: joint velocity", where(c, t).c_str());
    }
}
static Mat sym(int n, int kind) {   // 0 identity, 1 diagonal, 2 full positive definite, 3 one zero
    Mat m = Mat::eye(n);
    if (kind == 1) for (int i = 0; i < n; i++) m(i, i) = 0.5 + 0.4 * i;
    if (kind == 2) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = i == j ? 1.5 + 0.1 * i : 0.2 / (1 + std::abs(i - j)) * ((i + j) % 2 ? -1 : 1);
    if (kind == 3 && n) m(n / 2, n / 2) = 0;
    return m;
}
static Eigen::MatrixXd eig(const Mat& a) { Eigen::MatrixXd r(a.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) r(i, j) = a(i, j); return r; }
static void wdls(const Case& c, KDL::ChainIkSolverVel_wdls& s, int kq, int kx, double eps, double lambda, bool fresh) {
    Mat Mq = sym(c.N, kq), Mx = sym(6, kx), B = Mx * c.J * Mq, U, W;
    std::vector<double> sv = ref::svals(B, &U, &W);
    // undamped: the cut acts; damped: the formula is continuous except at the cut
    for (double x : sv) if ((x > 0.9 * eps && x < 1.1 * eps) || (x > 1e-11 && x < 1e-3 && !(eps > 0.01 && lambda > 0) && x > 1e-3 * eps)) { mc::count("singular value near the cut-off"); return; }
    double smin = c.N >= 6 ? sv[5] : 0;
    double ls = smin < eps ? std::sqrt(1 - smin / eps * (smin / eps)) * lambda : 0;
    int zeros = 0; Mat D(c.N, 6);   // D = V f(S) U^T
    for (int k = 0; k < c.N; k++) {
        double f = sv[k] >= eps ? 1 / sv[k] : ls > 0 && k < 6 ? sv[k] / (sv[k] * sv[k] + ls * ls) : 0;
        zeros += sv[k] < eps;
        for (int i = 0; i < c.N; i++) for (int j = 0; j < 6; j++) D(i, j) += W(i, k) * f * U(j, k);
    }
    Mat P = Mq * D * Mx;
    // as made: identity weights, no damping, the cut-off of the constructor
    if (!fresh || kq || kx) mc::check(s.setWeightJS(eig(Mq)) == 0 && s.setWeightTS(eig(Mx)) == 0, "wdls: setting weights", " ");
    if (!fresh) s.setEps(eps); if (!fresh || lambda > 0) s.setLambda(lambda);
    for (auto& t : TW) {
        KDL::JntArray o(c.N); for (int i = 0; i < c.N; i++) o(i) = 77;
        KDL::JntArray q = ja(c.q);
        mc::step();
        int code = s.CartToJnt(q, tw(t), o);
        std::string w = where(c, t) + mc::fmt(", weights %d %d, eps %g, lambda %g", kq, kx, eps, lambda);
        mc::check(code == s.getError(), "wdls: error read-out", "%d %d", code, s.getError());
        bool singular = c.N - zeros < std::min(6, c.N);
        mc::check(code == (singular ? KDL::ChainIkSolverVel_wdls::E_CONVERGE_PINV_SINGULAR : 0), "wdls: code tells whether singular", "%d with %d of %d vanishing, %s", code, zeros, c.N, w.c_str());
        nearQ(o, vecof(P * col(t)), TOL * 10, "wdls: joint velocity", w.c_str());
        mc::check((int)s.getNrZeroSigmas() == zeros && s.getSVDResult() == 0, "wdls: number of vanishing singular values", "%u instead of %d: %s", s.getNrZeroSigmas(), zeros, w.c_str());
        mc::near(s.getSigmaMin(), smin, 1e-9, "wdls: smallest singular value", w.c_str());
        mc::near(s.getLambdaScaled(), ls, 1e-6, "wdls: scaled damping", w.c_str());
        mc::check(s.getEps() == eps && s.getLambda() == lambda, "wdls: settings read back", " ");
        Eigen::VectorXd so(c.N);
        if (mc::check(s.getSigma(so) == 0, "wdls: singular value read-out", " ") && c.N) mc::nearv(so.data(), sv.data(), c.N, 1e-9, "wdls: singular values", w.c_str());
        nearQ(q, c.q, 0, "argument untouched");
    }
}
static std::vector<double> nsow(int N, int kw) { std::vector<double> w(N, 1.0); for (int i = 0; i < N; i++) w[i] = kw == 1 ? 0.3 + 0.5 * i : kw == 2 ? i % 2 : 1; return w; }
static void nso(const Case& c, KDL::ChainIkSolverVel_pinv_nso& s, double eps, double alpha, int kw, int ko, bool given = false) {
    if (!clear_of(c.sv, eps, 1e-3, 1.5)) return;
    std::vector<double> w = nsow(c.N, kw), opt = qpat(c.N, ko == 0 ? 0 : 4);
    if (ko == 2) opt = c.q;
    if (ko == 3) for (int i = 0; i < c.N; i++) opt[i] = c.q[i] + (i % 2 ? -1e-3 : 1e-3) * (1 + i);   // nearly there
    if (!given) mc::check(s.setWeights(ja(w)) == 0 && s.setOptPos(ja(opt)) == 0 && s.setAlpha(alpha) == 0, "nso: settings", " ");
    nearQ(s.getWeights(), w, 0, "nso: settings read back"); nearQ(s.getOptPos(), opt, 0, "nso: settings read back"); mc::near(s.getAlpha(), alpha, 0, "nso: settings read back");
    Mat P = ref::pinv(c.J, eps), grad(c.N, 1); double g = 0, A = 0;
    for (int i = 0; i < c.N; i++) { double d = c.q[i] - opt[i]; g += 0.5 * w[i] * d * d; grad(i, 0) = w[i] * d; A += w[i] * w[i] * d * d; }
    Mat extra(c.N, 1);
    if (A > 1e-9) { Mat n = Mat::eye(c.N) - P * c.J; extra = (-2 * alpha * g / A) * (n * grad); }
    for (auto& t : TW) {
        KDL::JntArray o(c.N); for (int i = 0; i < c.N; i++) o(i) = 77;
        KDL::JntArray q = ja(c.q);
        mc::step();
        int code = s.CartToJnt(q, tw(t), o);
        std::string at = where(c, t);
        mc::check(code == 0 && s.getError() == 0, "nso: code", "%d", code);
        Mat base = P * col(t);
        nearQ(o, vecof(base + extra), TOL, "nso: joint velocity", at.c_str());
        // the added motion leaves the end effector alone and goes downhill
        Mat d(c.N, 1); for (int i = 0; i < c.N; i++) d(i, 0) = o(i) - base(i, 0);
        if (rank(c.sv, eps) == rank(c.sv, 1e-9)) mc::check(ref::maxabs(c.J * d) <= 1e-8 * (1 + ref::maxabs(d) + ref::maxabs(base)), "nso: the added motion does not move the end effector", "%s: %g", at.c_str(), ref::maxabs(c.J * d));
        double down = 0; for (int i = 0; i < c.N; i++) down += d(i, 0) * grad(i, 0);
        mc::check(down <= 1e-9 * (1 + ref::maxabs(base)), "nso: the added motion goes toward the preferred posture", "%s: %g", at.c_str(), down);
        nearQ(q, c.q, 0, "argument untouched");
    }
}
static void all(const Spec& s) {
    KDL::Chain ch = chain(s); int N = nj(s);
    if (!N) return;
    int kind = mc::choose(4, "solver");
    std::vector<Case> cs;
    for (int p = 0; p < 5; p++) cs.push_back(make(s, qpat(N, p)));
    if (kind == 0) {
        double eps = mc::pick(std::vector<double>{1e-5, 0.3}, "eps");
        KDL::ChainIkSolverVel_pinv sol(ch, eps);
        for (auto& c : cs) pinv(c, sol, eps);
    } else if (kind == 1) {
        KDL::ChainIkSolverVel_pinv_givens sol(ch);
        for (int rep = 0; rep < 2; rep++) for (auto& c : cs) givens(c, sol);
    } else if (kind == 2) {
        int kq = mc::choose(4, "joint weights"), kx = mc::choose(4, "task weights");
        double eps = mc::pick(std::vector<double>{1e-5, 0.3}, "eps"), lambda = mc::pick(std::vector<double>{0, 0.1}, "lambda");
        bool ctor = mc::flag("eps by constructor");
        KDL::ChainIkSolverVel_wdls sol = ctor ? KDL::ChainIkSolverVel_wdls(ch, eps) : KDL::ChainIkSolverVel_wdls(ch);
        for (auto& c : cs) wdls(c, sol, kq, kx, eps, lambda, ctor || eps == 1e-5);
    } else {
        int kw = mc::choose(3, "weights"), ko = mc::choose(4, "preferred posture");
        double alpha = mc::pick(std::vector<double>{0.25, 1, 0}, "alpha"), eps = mc::pick(std::vector<double>{1e-5, 0.3}, "eps");
        if (ko < 2) {   // preferred posture and weights given when it is made, one solver after another
            KDL::ChainIkSolverVel_pinv_nso made(ch, ja(qpat(N, ko == 0 ? 0 : 4)), ja(nsow(N, kw)), eps, 150, alpha);
            for (auto& c : cs) nso(c, made, eps, alpha, kw, ko, true);
            if (eps == 1e-5 && alpha == 0.25) { KDL::ChainIkSolverVel_pinv_nso plain(ch, ja(qpat(N, ko == 0 ? 0 : 4)), ja(nsow(N, kw))); for (auto& c : cs) nso(c, plain, eps, alpha, kw, ko, true); }
        }
        KDL::ChainIkSolverVel_pinv_nso sol(ch, eps);
        for (auto& c : cs) nso(c, sol, eps, alpha, kw, ko);
    }
}
SCENARIO(small) {
    int n = 1 + mc::choose(mc::tiered(2, 3), "segments");
    all(choose_spec(n, n > 2 ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 8} : all_kinds()));
}
SCENARIO(large) {
    auto& L = long_shapes();
    Spec s = spec(L[mc::choose((int)L.size(), "shape")]);
    int cut = mc::choose((int)s.size(), "start"); s.erase(s.begin(), s.begin() + cut);
    all(s);
}
// too few iterations: an error and no motion, or the right answer; afterwards the solver works again
SCENARIO(iterations) {
    auto& L = long_shapes();
    Spec s = spec(L[mc::choose((int)L.size(), "shape")]); int N = nj(s);
    KDL::Chain ch = chain(s); int it = mc::choose(6, "iterations"), p = mc::choose(5, "posture"); std::vector<double> q = qpat(N, p);
    Case c = make(s, q);
    if (!clear_of(c.sv, 1e-5, 1e-3, 1e2)) return;
    KDL::ChainIkSolverVel_pinv a(ch, 1e-5, it); KDL::ChainIkSolverVel_wdls b(ch, 1e-5, it); KDL::ChainIkSolverVel_pinv_nso d(ch, 1e-5, it, 0);
    d.setWeights(ja(std::vector<double>(N, 1.0))); d.setOptPos(ja(std::vector<double>(N, 0.0)));
    KDL::ChainIkSolverVel* ss[3] = {&a, &b, &d};
    Mat P = ref::pinv(c.J, 1e-5);
    for (int k = 0; k < 3; k++) for (auto& t : TW) {
        KDL::JntArray o(N); for (int i = 0; i < N; i++) o(i) = 77;
        mc::step();
        int code = ss[k]->CartToJnt(ja(q), tw(t), o);
        mc::check(code == ss[k]->getError(), "few iterations: error read-out", "%d", code);
        int res = k == 0 ? a.getSVDResult() : k == 1 ? b.getSVDResult() : d.getSVDResult();
        if (code == KDL::SolverI::E_SVD_FAILED) {
            mc::count("reported as not converged");
            nearQ(o, std::vector<double>(N, 0.0), 0, "few iterations: no motion on failure");
            mc::check(res != 0, "few iterations: decomposition read-out", " ");
        } else if (mc::check(code == 0 || code == 100, "few iterations: code", "%d", code)) {
            nearQ(o, vecof(P * col(t)), TOL * 10, "few iterations: success is right", where(c, t).c_str());
            mc::check(res == 0, "few iterations: decomposition read-out", "%d", res);
        }
    }
    b.setMaxIter(150);
    for (auto& t : TW) {
        KDL::JntArray o(N); mc::step();
        int code = b.CartToJnt(ja(q), tw(t), o);
        mc::check(code == 0 || code == 100, "more iterations: success", "%d", code);
        nearQ(o, vecof(P * col(t)), TOL * 10, "more iterations: result", where(c, t).c_str());
    }
}
