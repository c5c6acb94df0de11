// C25: the external wrench estimator, against the same observer run on the reference mechanics.
#include "dyn.hpp"
#include <chainexternalwrenchestimator.hpp>
#include <memory>
using namespace kin;
typedef std::vector<double> D;
static const V GRAV[] = {V(0, 0, -9.81), V(1.5, -2.5, 3.5), V()};
static Spec heavies(Spec s) { for (size_t i = 0; i < s.size(); i++) s[i] = heavy(s[i], (int)i); return s; }
static D mul(const Mat& H, const D& v) { D r(H.r, 0.0); for (int i = 0; i < H.r; i++) for (int j = 0; j < H.c; j++) r[i] += H(i, j) * v[j]; return r; }
// Jacobian about the tip, in tip axes
static Mat tipjac(const Spec& s, const D& q) {
    Mat J = jacobian(s, q, (int)s.size()), R(6, J.c); M T;
    if (!s.empty()) T = ref::tr(fk<double>(s, q).back().R);
    for (int j = 0; j < J.c; j++) { V a = T * V(J(0, j), J(1, j), J(2, j)), b = T * V(J(3, j), J(4, j), J(5, j)); for (int i = 0; i < 3; i++) { R(i, j) = a[i]; R(3 + i, j) = b[i]; } }
    return R;
}
struct Post { D q; Mat H, Jt; D g; };      // a posture and its mechanics, computed once
struct Obs {                                // the momentum observer
    const Spec& s; const Dyn& d; V grav; double dt, K, c;
    Mat prev; D p0, in, r; bool started = false, seen = false; double scale = 1;
    Obs(const Spec& s_, const Dyn& d_, V g, double f, double K_, double c_) : s(s_), d(d_), grav(g), dt(1 / f), K(K_), c(c_), prev(d.N, d.N), p0(d.N, 0.0), in(d.N, 0.0), r(d.N, 0.0) {}
    Post post(const D& q) const { Post p; p.q = q; p.H = d.mass(q); p.Jt = ref::tr(tipjac(s, q)); D z(d.N, 0.0); p.g = d.tau(q, z, z, -1.0 * grav, V(), {}); return p; }
    void set(const Post& p, const D& qd) { p0 = mul(p.H, qd); in.assign(d.N, 0.0); r = in; prev = p.H; started = true; }
    void step(const Post& p, const D& qd, const D& tau) {
        D z(d.N, 0.0), C = d.tau(p.q, qd, z, V(), V(), {}), Mq = mul(p.H, qd), Md = seen || started ? mul(p.H - prev, qd) : z;
        for (int i = 0; i < d.N; i++) {
            in[i] += (tau[i] - p.g[i] - C[i] + r[i]) * dt + Md[i];
            r[i] = c * r[i] + (1 - c) * K * (Mq[i] - in[i] - p0[i]);
            for (double x : {Mq[i] * K, Md[i] * K, tau[i], p.g[i], C[i], r[i]}) scale = std::max(scale, std::fabs(x));
        }
        prev = p.H; seen = true;
    }
};
// the wrench with the least norm that explains the torques best; false when the posture is close to a singular one
static bool wrench(const Mat& Jt, const D& r, double eps, D& w, double& amp) {
    auto sv = ref::svals(Jt); amp = 1;
    for (double x : sv) { if (x > eps / 3 && x < eps * 3) return false; if (x > 1e-12 && x <= 1e-7 && eps < 1e-7) return false; if (x >= eps) amp = std::max(amp, 1 / x); }
    w = mul(ref::pinv(Jt, eps), r); return true;
}
static void compare(KDL::ChainExternalWrenchEstimator& e, const Obs& o, const Mat& Jt, double eps, const KDL::Wrench& W, const std::string& at) {
    KDL::JntArray T(o.d.N); for (int i = 0; i < o.d.N; i++) T(i) = 77;
    e.getEstimatedJntTorque(T);
    nearQ(T, o.r, 1e-9 * o.scale, "estimated joint torques", at.c_str());
    D w; double amp;
    if (!wrench(Jt, o.r, eps, w, amp)) { mc::count("close to a singular posture"); return; }
    nearW(W, V(w[0], w[1], w[2]), V(w[3], w[4], w[5]), 1e-9 * o.scale * amp * amp, "estimated wrench", at.c_str());
}
// ---- a chain held or carried along a motion, with a constant wrench in tip axes
static const double FREQ[] = {100, 1000}, GAIN[] = {30, 5, 90}, FILT[] = {0, 0.5, 0.9};
static void run(const Spec& s, int gi, double f, double K, double c, int many) {
    KDL::Chain ch = chain(s); int N = nj(s); Dyn d = dyn(s); V g = GRAV[gi];
    for (int p = 1; p < (many ? 5 : 3); p++) for (int x = -1; x < (many ? 7 : 3); x++) {
        // held: x selects nothing, one component of the wrench or a mixed one
        KDL::ChainExternalWrenchEstimator e(ch, k(g), f, K, c);
        Obs o(s, d, g, f, K, c); Post P = o.post(qpat(N, p)); D z(N, 0.0), F(6, 0.0), tau = P.g;
        if (x == 6 || (!many && x == 2)) F = {3, -2, 5, 0.4, -0.7, 0.9}; else if (x >= 0) F[many ? x : 4 * x] = 4;
        D push = mul(P.Jt, F); for (int i = 0; i < N; i++) tau[i] -= push[i];
        if (x % 2 == 0) { mc::check(e.setInitialMomentum(ja(P.q), ja(z)) == 0, "answer", " "); o.set(P, z); }
        KDL::Wrench W; std::string at = str(s) + " at " + kin::str(P.q) + mc::fmt(", component %d, %g Hz, gain %g, filter %g", x, f, K, c);
        int steps = 4;
        for (int i = 0; i < steps; i++) { mc::step(); mc::check(e.JntToExtWrench(ja(P.q), ja(z), ja(tau), W) == 0 && e.getError() == 0, "answer", "%s", at.c_str()); o.step(P, z, tau); compare(e, o, P.Jt, 1e-5, W, at); }
        if (x < 0) nearW(W, V(), V(), 1e-9 * o.scale * 1e5, "nothing acts", at.c_str());
        if (N) mc::state(o.r.data(), N);
    }
}
SCENARIO_SPLIT(held_small, 2) {
    int n = mc::choose(mc::tiered(3, 4), "segments");
    Spec s = heavies(choose_spec(n, n > 2 ? std::vector<int>{1, 4, 5, 6} : all_kinds()));
    int gi = mc::choose(3, "gravity"), cf = mc::choose(3, "settings");
    run(s, gi, FREQ[cf % 2], GAIN[cf], FILT[cf], n < 2);
}
SCENARIO_SPLIT(held_large, 3) {
    auto& L = long_shapes(); Spec s = spec(L[mc::choose((int)L.size(), "shape")]);
    int cut = mc::choose(mc::tiered(2, (int)s.size()), "start"); if (cut >= (int)s.size()) return;
    s.erase(s.begin(), s.begin() + cut); s = heavies(s);
    int f = mc::choose(2, "rate"), K = mc::choose(mc::tiered(2, 3), "gain"), c = mc::choose(3, "filter");
    run(s, (f + K + c) % 3, FREQ[f], GAIN[K], FILT[c], mc::thorough());
}
// ---- convergence: the read-outs settle on the torques and the wrench that act
SCENARIO_SPLIT(converges, 2) {
    auto& L = long_shapes(); Spec s = heavies(spec(L[mc::choose((int)L.size(), "shape")]));
    int p = 1 + mc::choose(4, "posture"), cf = mc::choose(3, "settings"), x = mc::choose(7, "wrench");
    if (!mc::thorough() && (cf == 1 || (p + x) % 2)) return;
    KDL::Chain ch = chain(s); int N = nj(s); Dyn d = dyn(s); double f = 1000, K = GAIN[cf], c = FILT[mc::choose(2, "filter")];
    KDL::ChainExternalWrenchEstimator e(ch, k(GRAV[0]), f, K, c); Obs o(s, d, GRAV[0], f, K, c);
    Post P = o.post(qpat(N, p)); D z(N, 0.0), F(6, 0.0), tau = P.g; if (x == 6) F = {3, -2, 5, 0.4, -0.7, 0.9}; else F[x] = 4;
    D push = mul(P.Jt, F); for (int i = 0; i < N; i++) tau[i] -= push[i];
    e.setInitialMomentum(ja(P.q), ja(z)); KDL::Wrench W; KDL::JntArray T(N), Q = ja(P.q), B = ja(z), X = ja(tau);
    int half = 0, steps = (int)(12 / K * f);
    for (int i = 1; i <= steps; i++) {
        e.JntToExtWrench(Q, B, X, W);
        e.getEstimatedJntTorque(T);
        for (int j = 0; j < N; j++) mc::check(std::fabs(T(j)) <= std::fabs(push[j]) * (1 + 1e-9) + 1e-6 || c > 0, "no overshoot", "joint %d after %d", j, i);
        if (!half) { bool all = true; for (int j = 0; j < N; j++) all = all && std::fabs(T(j) - push[j]) <= 0.5 * std::fabs(push[j]) + 1e-6; if (all) half = i; }
    }
    mc::step(steps);
    nearQ(T, push, 1e-3 * o.scale * 20, "converges to the torques", str(s).c_str());
    D w; double amp; if (wrench(P.Jt, push, 1e-5, w, amp)) {
        nearW(W, V(w[0], w[1], w[2]), V(w[3], w[4], w[5]), 2e-2 * amp * amp, "converges to the wrench", str(s).c_str());
        auto sv = ref::svals(P.Jt); if ((int)sv.size() >= 6 && sv[5] > 0.05) nearW(W, V(F[0], F[1], F[2]), V(F[3], F[4], F[5]), 2e-2 * amp * amp, "converges to the wrench that acts", str(s).c_str());
    }
    double ln2 = 0.6931 / K * f, any = 0; for (double v : push) any += std::fabs(v);
    if (any > 1e-3) mc::check(half >= 0.85 * ln2 - 3 && half <= 1.15 * ln2 + 5, "rate", "half of the wrench after %d calls instead of %g", half, ln2);
}
// ---- carried along smooth motions: the torques of the motion leave nothing
SCENARIO_SPLIT(moving, 2) {
    auto& L = long_shapes(); static const std::vector<std::vector<int>> S = {{0}, {6}, {0, 2}, {4, 3, 6}, {10, 6, 7}};
    int i0 = mc::choose((int)(L.size() + S.size()), "shape"); Spec s = heavies(spec(i0 < (int)S.size() ? S[i0] : L[i0 - S.size()]));
    int p = 1 + mc::choose(4, "posture"), cf = mc::choose(3, "settings"), push = mc::choose(2, "wrench"), late = mc::choose(2, "restarted");
    KDL::Chain ch = chain(s); int N = nj(s); Dyn d = dyn(s); double f = 1000, K = GAIN[cf], c = FILT[cf]; V g = GRAV[cf];
    KDL::ChainExternalWrenchEstimator e(ch, k(g), f, K, c); Obs o(s, d, g, f, K, c);
    D q0 = qpat(N, p), A = qpat(N, 2); std::vector<Wr> F(s.size()); if (push && !s.empty()) { F.back().f = V(3, -2, 5); F.back().t = V(0.4, -0.7, 0.9); }
    auto at = [&](double t, D& q, D& b, D& a) { q = q0; b = a = D(N); for (int i = 0; i < N; i++) { double w = 2 + 0.3 * i; q[i] += A[i] * std::sin(w * t); b[i] = A[i] * w * std::cos(w * t); a[i] = -A[i] * w * w * std::sin(w * t); } };
    D q, b, a; KDL::Wrench W; double worst = 0, dt = 1 / f, tscale = 1;
    for (int pass = 0; pass <= late; pass++) {
        if (late) { at(pass * 0.3, q, b, a); mc::check(e.setInitialMomentum(ja(q), ja(b)) == 0, "answer", " "); o.set(o.post(q), b); }
        else { at(0, q, b, a); mc::check(e.setInitialMomentum(ja(q), ja(b)) == 0, "answer", " "); o.set(o.post(q), b); }
        for (int i = 1; i <= mc::tiered(12, 40); i++) {
            at(pass * 0.3 + i * dt, q, b, a); D tau = d.tau(q, b, a, -1.0 * g, V(), F); Post P = o.post(q);
            mc::step(); mc::check(e.JntToExtWrench(ja(q), ja(b), ja(tau), W) == 0, "answer", " ");
            o.step(P, b, tau); compare(e, o, P.Jt, 1e-5, W, str(s) + mc::fmt(" carried, call %d", i));
            KDL::JntArray T(N); e.getEstimatedJntTorque(T); for (int j = 0; j < N; j++) { tscale = std::max(tscale, std::fabs(tau[j])); if (!push) worst = std::max(worst, std::fabs(T(j))); }
        }
    }
    if (!push) mc::check(worst <= 2000 * dt * K * dt * tscale + 1e-6, "a motion by itself leaves nothing", "%s: %g with torques up to %g", str(s).c_str(), worst, tscale);
    if (N) mc::state(o.r.data(), N);
}
// ---- histories of calls
SCENARIO_SPLIT(histories, 3) {
    static const std::vector<std::vector<int>> S = {{0}, {0, 2}, {4, 3, 6}, {1, 0, 2, 6, 4, 7, 0}, {0, 2, 6, 4, 7, 0, 2, 5}};
    Spec s = heavies(spec(S[mc::choose((int)S.size(), "shape")])); KDL::Chain ch = chain(s); int N = nj(s); Dyn d = dyn(s);
    double f = 200, K = 30, c = 0.4, eps = 1e-5; V g = GRAV[1];
    KDL::ChainExternalWrenchEstimator e(ch, k(g), f, K, c); Obs o(s, d, g, f, K, c);
    Post A = o.post(qpat(N, 1)), B = o.post(qpat(N, 4)); D z(N, 0.0), v = qpat(N, 2), u = qpat(N, 4);
    KDL::Wrench W; std::string tr;
    for (int i = 0; i < mc::tiered(4, 6); i++) {
        int op = mc::choose(8, "operation"); mc::step(); int r = 0; tr += (char)('0' + op);
        switch (op) {
        case 0: r = e.setInitialMomentum(ja(A.q), ja(z)); o.set(A, z); break;
        case 1: r = e.setInitialMomentum(ja(B.q), ja(v)); o.set(B, v); break;
        case 2: r = e.JntToExtWrench(ja(A.q), ja(z), ja(u), W); o.step(A, z, u); compare(e, o, A.Jt, eps, W, tr); break;
        case 3: if (!o.seen && !o.started) return; r = e.JntToExtWrench(ja(B.q), ja(v), ja(z), W); o.step(B, v, z); compare(e, o, B.Jt, eps, W, tr); break;
        case 4: { if (!o.seen && !o.started) return; r = e.JntToExtWrench(ja(A.q), ja(u), ja(u), W); o.step(A, u, u); compare(e, o, A.Jt, eps, W, tr); break; }
        case 5: { KDL::Wrench X(KDL::Vector(1, 2, 3), KDL::Vector(4, 5, 6));
            for (int w = 0; w < 3; w++) mc::check(e.JntToExtWrench(KDL::JntArray(N + (w == 0)), KDL::JntArray(N + (w == 1)), KDL::JntArray(N - (w == 2)), X) == KDL::SolverI::E_SIZE_MISMATCH && e.getError() == KDL::SolverI::E_SIZE_MISMATCH, "refused", "%d", w);
            for (int w = 0; w < 2; w++) mc::check(e.setInitialMomentum(KDL::JntArray(N + (w == 0)), KDL::JntArray(N + (w == 1))) == KDL::SolverI::E_SIZE_MISMATCH, "refused", "%d", w);
            nearW(X, V(1, 2, 3), V(4, 5, 6), 0, "refused: nothing written"); break; }
        case 6: e.updateInternalDataStructures(); break;   // the chain is the same
        case 7: eps = eps < 1e-3 ? 0.2 : 1e-5; e.setSVDEps(eps); break;
        }
        mc::check(r == 0, "answer", "%d after %s", r, tr.c_str());
        if (N) mc::state(o.r.data(), N);
    }
}
// ---- few iterations for the decomposition: the torques are estimated all the same, the wrench is right or the failure told
SCENARIO_SPLIT(few_iterations, 2) {
    auto& L = long_shapes(); Spec s = heavies(spec(L[mc::choose((int)L.size(), "shape")])); int it = mc::choose(6, "iterations"), p = 1 + mc::choose(4, "posture"), cf = mc::choose(3, "settings"); if (nj(s) == 0) return;
    KDL::Chain ch = chain(s); int N = nj(s); Dyn d = dyn(s); V g = GRAV[cf]; KDL::ChainExternalWrenchEstimator e(ch, k(g), 200, GAIN[cf], FILT[cf], 1e-5, it); Obs o(s, d, g, 200, GAIN[cf], FILT[cf]); bool later = mc::choose(2, "set later"); if (later) { e.setSVDMaxIter(150); e.setSVDMaxIter(it); }
    Post P = o.post(qpat(N, p)); D z(N, 0.0), u = qpat(N, 4); KDL::Wrench W;
    for (int i = 0; i < 4; i++) {
        if (i == 3) e.setSVDMaxIter(150);
        W = KDL::Wrench(KDL::Vector(1, 2, 3), KDL::Vector(4, 5, 6)); mc::step(); int r = e.JntToExtWrench(ja(P.q), ja(z), ja(u), W); o.step(P, z, u); std::string at = str(s) + mc::fmt(", %d iterations, call %d", it, i);
        mc::check(r == e.getError() && (r == 0 || (i < 3 && r == KDL::SolverI::E_SVD_FAILED)), "answer", "%s: %d", at.c_str(), r);
        if (r == 0) compare(e, o, P.Jt, 1e-5, W, at); else { mc::count("reported as not converged"); KDL::JntArray T(N); e.getEstimatedJntTorque(T); nearQ(T, o.r, 1e-9 * o.scale, "estimated joint torques", at.c_str()); nearW(W, V(1, 2, 3), V(4, 5, 6), 0, "refused: nothing written"); }
    }
    if (N) mc::state(o.r.data(), N);
}
