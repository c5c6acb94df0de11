// C23: forward and hybrid dynamics invert the inverse dynamics.
#include "dyn.hpp"
#include <chainfdsolver_recursive_newton_euler.hpp>
#include <chainhdsolver_vereshchagin.hpp>
#include <chainidsolver_vereshchagin.hpp>
#include <iostream>
#include <memory>
#include <sstream>
#include <chainidsolver_recursive_newton_euler.hpp>
using namespace kin;

static Wr wrench(int i) { Wr w; w.f = V(1.5 - i, 0.7 * i, -2 + 0.3 * i); w.t = V(0.4, -0.3 * i, 0.8 - 0.2 * i); return w; }
static double big(const std::vector<double>& v) { double m = 1; for (double x : v) m = std::max(m, std::fabs(x)); return m; }
static const V GRAV[] = {V(0, 0, -9.81), V(1.5, -2.5, 3.5), V()};
static std::vector<double> solve(const Mat& H, std::vector<double> b) {   // symmetric positive definite, by Cholesky
    int n = H.r; Mat L(n, n);
    for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { double s = H(i, j); for (int k = 0; k < j; k++) s -= L(i, k) * L(j, k); L(i, j) = i == j ? std::sqrt(s) : s / L(j, j); }
    for (int i = 0; i < n; i++) { for (int k = 0; k < i; k++) b[i] -= L(i, k) * b[k]; b[i] /= L(i, i); }
    for (int i = n - 1; i >= 0; i--) { for (int k = i + 1; k < n; k++) b[i] -= L(k, i) * b[k]; b[i] /= L(i, i); }
    return b;
}
static std::vector<double> accel(const Dyn& d, const std::vector<double>& q, const std::vector<double>& qd, const std::vector<double>& tau, const V& g, const std::vector<Wr>& ext) {
    std::vector<double> b = d.tau(q, qd, std::vector<double>(d.N, 0.0), -1.0 * g, V(), ext), r(d.N);
    for (int i = 0; i < d.N; i++) r[i] = tau[i] - b[i];
    return solve(d.mass(q), r);
}
static Spec heavies(Spec s) { for (size_t i = 0; i < s.size(); i++) s[i] = heavy(s[i], (int)i); return s; }
static void forward(const Spec& s, int many) {
    KDL::Chain c = chain(s); int n = (int)s.size(), N = nj(s); Dyn d = dyn(s);
    for (int gi = 0; gi < (many ? 3 : 1); gi++) {
        V g = GRAV[gi];
        KDL::ChainFdSolver_RNE fd(c, k(g)); KDL::ChainIdSolver_RNE id(c, k(g));
        for (int p = 0; p < 3; p++) for (int v = 0; v < 3; v++) for (int t = 0; t < (many ? N + 2 : 2); t++) for (int f = 0; f < 2; f++) {
            std::vector<double> q = qpat(N, p == 2 ? 4 : p), qd(N, 0.0), tau(N, 0.0); if (v) qd = qpat(N, v == 2 ? 5 : 2);
            if (t == 0) tau = qpat(N, v == 2 ? 5 : 1); else if (t > 1) tau[t - 2] = 3;
            std::vector<Wr> ext(n); if (f) for (int i = 0; i < n; i++) ext[i] = wrench(i);
            KDL::JntArray A(N), T(N); for (int i = 0; i < N; i++) A(i) = 77;
            mc::step(2);
            KDL::JntArray Q = ja(q), B = ja(qd), X = ja(tau); KDL::Wrenches W = ws(ext);
            mc::check(fd.CartToJnt(Q, B, X, W, A) == 0 && fd.getError() == 0, "answer", " ");
            std::string at = str(s) + " at " + kin::str(q) + mc::fmt(", velocity %d, torque %d, wrench %d", v, t, f);
            std::vector<double> back = d.tau(q, qd, vec(A), -1.0 * g, V(), ext), want = accel(d, q, qd, tau, g, ext);
            nearQ(ja(back), tau, 1e-9 * big(want), "inverse dynamics of the result gives the torques", at.c_str());
            nearQ(A, want, 1e-8 * big(want), "forward dynamics", at.c_str());
            mc::check(id.CartToJnt(Q, B, A, W, T) == 0, "answer", " ");
            nearQ(T, tau, 1e-9 * big(want), "the library's inverse dynamics gives the torques back", at.c_str());
            nearQ(Q, q, 0, "argument untouched"); nearQ(B, qd, 0, "argument untouched"); nearQ(X, tau, 0, "argument untouched");
            if (N) mc::state(want.data(), N);
        }
        // integration: a classical Runge-Kutta step
        for (int p = 1; p < 3; p++) for (double dt : {1e-3, 0.05}) {
            std::vector<double> q = qpat(N, p), qd = qpat(N, 4), tau = qpat(N, 1);
            std::vector<Wr> ext(n); if (n) ext[n - 1] = wrench(1);
            KDL::JntArray Q = ja(q), B = ja(qd), T = ja(tau), a(N), b(N), e(N), h(N), o(N); KDL::Wrenches W = ws(ext); unsigned nn = N; double t = 0;
            for (int step = 0; step < 2; step++) {
                fd.RK4Integrator(nn, t, dt, Q, B, T, W, fd, a, b, e, h, o); mc::step();
                std::vector<std::vector<double>> vs, as; std::vector<double> x = q, y = qd;
                for (int st = 0; st < 4; st++) {
                    vs.push_back(y); as.push_back(accel(d, x, y, tau, g, ext));
                    double w = st < 2 ? dt / 2 : dt;
                    for (int i = 0; i < N; i++) { x[i] = q[i] + w * vs[st][i]; y[i] = qd[i] + w * as[st][i]; }
                }
                for (int i = 0; i < N; i++) { q[i] += dt / 6 * (vs[0][i] + 2 * vs[1][i] + 2 * vs[2][i] + vs[3][i]); qd[i] += dt / 6 * (as[0][i] + 2 * as[1][i] + 2 * as[2][i] + as[3][i]); }
                nearQ(Q, q, 1e-8 * big(q), "integration of the position", mc::fmt("step %g", dt).c_str());
                nearQ(B, qd, 1e-8 * big(as[0]), "integration of the velocity", mc::fmt("step %g", dt).c_str());
            }
        }
    }
}
SCENARIO(fd_small) {
    int n = mc::choose(mc::tiered(4, 5), "segments");
    forward(heavies(choose_spec(n, n > 3 ? std::vector<int>{1, 4, 5, 6} : n > 2 ? mc::thorough() ? std::vector<int>{0, 1, 3, 4, 5, 6, 7, 10} : std::vector<int>{1, 4, 5, 6} : all_kinds())), n <= 2);
}
SCENARIO(fd_large) {
    auto& L = long_shapes();
    Spec s = spec(L[mc::choose((int)L.size(), "shape")]);
    int cut = mc::choose(mc::tiered(3, (int)s.size()), "start"); if (cut >= (int)s.size()) return;
    s.erase(s.begin(), s.begin() + cut);
    forward(heavies(s), mc::thorough());
}
// ---- hybrid
// the solver under its old name (which says so on the console)
static KDL::ChainHdSolver_Vereshchagin* old_name(const KDL::Chain& c, const KDL::Twist& a, int nc) { std::ostringstream none; auto* was = std::cout.rdbuf(none.rdbuf()); auto* r = new KDL::ChainIdSolver_Vereshchagin(c, a, nc); std::cout.rdbuf(was); return r; }
static void hybrid(const Spec& s, int nc, const Mat& alpha, int motion, int root) {
    KDL::Chain c = chain(s); int N = nj(s), n = (int)s.size(); Dyn d = dyn(s);
    V a0 = root == 0 ? V(0, 0, 9.81) : root == 1 ? V(-1, 2, 0.5) : V(), al0 = root == 1 ? V(0.3, -0.2, 0.6) : V();
    KDL::ChainHdSolver_Vereshchagin hd(c, KDL::Twist(k(a0), k(al0)), nc);
    KDL::Jacobian AL(nc); for (int i = 0; i < nc; i++) for (int r = 0; r < 6; r++) AL(r, i) = alpha(r, i);
    for (int p = 0; p < 3; p++) for (int f = 0; f < 2; f++) for (int b = 0; b < 2; b++) {
        std::vector<double> q = qpat(N, p == 2 ? 4 : p), qd(N, 0.0), ff(N, 0.0); if (motion & 1) qd = qpat(N, 2); if (motion & 2) ff = qpat(N, 1);
        Mat J = jacobian(s, q, n), H = d.mass(q), M(nc, nc), S(N, nc);
        Mat JA = ref::tr(J) * alpha;
        for (int x = 0; x < nc; x++) { std::vector<double> col(N); for (int j = 0; j < N; j++) col[j] = JA(j, x); std::vector<double> r = solve(H, col); for (int j = 0; j < N; j++) S(j, x) = r[j]; }
        M = ref::tr(JA) * S;
        std::vector<double> sv = ref::svals(M); bool clear = true; int zero = 0, idle = 0;
        for (double x : sv) { if (x > 0 && x < 1e-7) clear = false; if (x == 0) zero++; }
        for (int x = 0; x < nc; x++) { double e = 0; for (int i = 0; i < 6; i++) e += std::fabs(alpha(i, x)); idle += e == 0; }
        bool full = zero == idle;   // every active constraint can be met
        if (!clear) { mc::count("constraints near singular"); continue; }
        std::vector<double> beta(nc, 0.0); if (b) for (int x = 0; x < nc; x++) beta[x] = 0.7 - 0.4 * x;
        std::vector<Wr> ext(n), loc(n); auto P = fk(s, q);
        if (f) for (int i = 0; i < n; i++) { ext[i] = wrench(i); loc[i].f = ref::tr(P[i].R) * ext[i].f; loc[i].t = ref::tr(P[i].R) * ext[i].t; }   // given in base coordinates
        KDL::JntArray A(N), C(N), T(N), B(nc); for (int i = 0; i < N; i++) A(i) = C(i) = T(i) = 77; for (int x = 0; x < nc; x++) B(x) = beta[x];
        mc::step();
        int r = hd.CartToJnt(ja(q), ja(qd), A, AL, B, ws(ext), ja(ff), C);
        std::string at = str(s) + " at " + kin::str(q) + mc::fmt(", %d constraints, wrench %d, motion %d, root %d", nc, f, motion, root);
        if (!mc::check(r == 0, "hybrid: answer", "%d, %s", r, at.c_str())) continue;
        Eigen::VectorXd nu = Eigen::VectorXd::Zero(nc); hd.getContraintForceMagnitude(nu);
        hd.getTotalTorque(T);
        std::vector<double> acc = vec(A), back = d.tau(q, qd, acc, a0, al0, loc), app = ff, con(N, 0.0);
        // the constraint forces act with the opposite sign of the multipliers
        for (int j = 0; j < N; j++) { for (int x = 0; x < nc; x++) con[j] -= JA(j, x) * nu(x); app[j] += con[j]; }
        double sc = big(acc) * big(sv) * 10; for (int x = 0; x < nc; x++) sc = std::max(sc, std::fabs(nu(x)) * 10);
        nearQ(ja(back), app, 1e-9 * sc, "hybrid: Newton-Euler motion under torques and constraint forces", at.c_str());
        // accelerations of the links
        std::vector<KDL::Twist> X(n + 1); hd.getTransformedLinkAcceleration(X);
        auto E = d.at(q, qd, acc);
        nearT(X[0], a0, al0, 0, "hybrid: acceleration of the base");
        for (int i = 0; i < n; i++) {
            V w = ref::omega(E[i].R), pos = ref::v0(E[i].p);
            V lin = ref::v2(E[i].p) - ref::cross(w, ref::v1(E[i].p)) + a0 + ref::cross(al0, pos), ang = ref::alpha(E[i].R) + al0;
            nearT(X[i + 1], lin, ang, 1e-9 * sc, "hybrid: acceleration of a link", at.c_str());
        }
        for (int x = 0; x < nc; x++) {
            double col = 0; for (int i = 0; i < 6; i++) col += std::fabs(alpha(i, x));
            double e = 0; for (int i = 0; i < 3; i++) e += alpha(i, x) * X[n].vel[i] + alpha(3 + i, x) * X[n].rot[i];
            if (col == 0) { mc::near(nu(x), 0, 1e-9 * sc, "hybrid: no force where nothing is constrained", at.c_str()); continue; }
            if (full) mc::near(e, beta[x], 1e-8 * sc, "hybrid: the constraint is met", at.c_str());
        }
        // joint torques: what joint j and those after it feel with the joints before it held
        for (int j = 0; j < N; j++) {
            int m = N - j; Mat Hs(m, m); std::vector<double> u(m), e(m, 0.0); e[0] = 1;
            for (int a = 0; a < m; a++) { u[a] = con[j + a]; for (int b2 = 0; b2 < m; b2++) Hs(a, b2) = H(j + a, j + b2); }
            double D = 1 / solve(Hs, e)[0], want = solve(Hs, u)[0] * D;
            mc::near(C(j), want, 1e-8 * sc, "hybrid: constraint torque", at.c_str());
            mc::near(T(j), D * acc[j], 1e-8 * sc, "hybrid: total torque", at.c_str());
        }
        if (nc == 0 || sv[0] == 0) {
            std::vector<double> tau = ff; KDL::ChainFdSolver_RNE fd(c, k(-1.0 * a0)); KDL::JntArray F(N);
            if (root != 1) { mc::check(fd.CartToJnt(ja(q), ja(qd), ja(ff), ws(loc), F) == 0, "answer", " "); nearQ(A, vec(F), 1e-8 * sc, "hybrid: forward dynamics without constraints", at.c_str()); }
        }
        // the same from a fresh one, made under either of its names
        std::unique_ptr<KDL::ChainHdSolver_Vereshchagin> fresh(b ? old_name(c, KDL::Twist(k(a0), k(al0)), nc) : new KDL::ChainHdSolver_Vereshchagin(c, KDL::Twist(k(a0), k(al0)), nc)); auto& h2 = *fresh; KDL::JntArray A2(N), C2(N), T2(N);
        h2.CartToJnt(ja(q), ja(qd), A2, AL, B, ws(ext), ja(ff), C2); h2.getTotalTorque(T2);
        nearQ(A, vec(A2), 1e-10 * sc, "hybrid: independent of earlier calls"); nearQ(C, vec(C2), 1e-10 * sc, "hybrid: independent of earlier calls"); nearQ(T, vec(T2), 1e-10 * sc, "hybrid: independent of earlier calls");
        if (N) mc::state(acc.data(), N);
    }
}
static const std::vector<std::vector<int>>& movers() {
    static std::vector<std::vector<int>> s = {{0}, {6}, {5}, {0, 2}, {4, 3}, {0, 2, 4}, {10, 6, 7}, {0, 2, 6, 4}, {1, 0, 2}, {0, 1, 2}, {0, 2, 1}, {1, 12, 0, 1, 6, 1, 1}, {0, 2, 4, 6, 7}, {0, 6, 2, 7, 4, 0}, {4, 7, 5, 10, 0, 6}, {0, 2, 6, 4, 7, 0, 2}, {4, 7, 5, 10, 0, 6, 8, 3}};
    return s;
}
SCENARIO_SPLIT(hd_axes, 4) {
    Spec s = heavies(spec(movers()[mc::choose((int)movers().size(), "shape")]));
    int motion = mc::choose(4, "motion"), root = mc::choose(3, "root acceleration");
    // every set of constrained axes (or none)
    int mask = mc::choose(64, "axes"); int nc = __builtin_popcount(mask);
    Mat a(6, nc); int x = 0; for (int i = 0; i < 6; i++) if (mask >> i & 1) a(i, x++) = 1;
    if (nc > nj(s)) return;
    if (!mc::thorough() && (mask * 7 + root) % 5) return;
    hybrid(s, nc, a, motion, root);
}
SCENARIO_SPLIT(hd_skew, 4) {
    Spec s = heavies(spec(movers()[mc::choose((int)movers().size(), "shape")]));
    int motion = mc::choose(4, "motion"), root = mc::choose(3, "root acceleration");
    int nc = 1 + mc::choose(6, "constraints"), off = mc::choose(8, "inactive constraint");   // columns along skew directions, some column zero, or all
    Mat a(6, nc);
    for (int x = 0; x < nc; x++) for (int i = 0; i < 6; i++) a(i, x) = off == 7 || x == off ? 0 : (i == x) + 0.3 * std::sin(1.0 + 2 * i + 3 * x);
    if (off > nc && off != 7) return;
    if (!mc::thorough() && (off + nc + root + motion) % 2) return;
    int act = 0; for (int x = 0; x < nc; x++) act += off != 7 && x != off;
    if (act > nj(s)) return;
    hybrid(s, nc, a, motion, root);
}
SCENARIO_SPLIT(hd_chains, 3) {
    int n = 1 + mc::choose(mc::tiered(2, 3), "segments");
    Spec s = heavies(choose_spec(n, n > 2 ? std::vector<int>{0, 1, 4, 5, 6, 7, 10} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}));
    int what = mc::choose(4, "constraint"); Mat a(6, what == 3 ? 0 : 1); if (what == 0) a(0, 0) = 1; if (what == 1) for (int i = 0; i < 6; i++) a(i, 0) = 0.5 - 0.2 * i;
    hybrid(s, a.c, a, 3, 0);
}
