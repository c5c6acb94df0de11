// C22: chain dynamics obeys the equations of motion.
#include "dyn.hpp"
#include <chaindynparam.hpp>
#include <chainidsolver_recursive_newton_euler.hpp>
using namespace kin;

static const V GRAV[] = {V(0, 0, -9.81), V(), V(1.5, -2.5, 3.5)};
static Wr wrench(int i) { Wr w; w.f = V(1.5 - i, 0.7 * i, -2 + 0.3 * i); w.t = V(0.4, -0.3 * i, 0.8 - 0.2 * i); return w; }
static std::vector<double> scaled(std::vector<double> v, double s) { for (double& x : v) x *= s; return v; }
static double big(const std::vector<double>& v) { double m = 1; for (double x : v) m = std::max(m, std::fabs(x)); return m; }

static void all(const Spec& s, int many) {
    KDL::Chain c = chain(s); int n = (int)s.size(), N = nj(s);
    Dyn d = dyn(s);
    std::vector<double> zero(N, 0.0);
    for (auto& g : GRAV) {
        KDL::ChainIdSolver_RNE id(c, k(g)); KDL::ChainDynParam dp(c, k(g));
        if (&g != GRAV && !many) continue;
        for (int p = 0; p < 4; p++) {
            std::vector<double> q = qpat(N, p == 2 ? 4 : p == 3 ? 5 : p);
            std::string at = str(s) + " at " + kin::str(q);
            // the parts of the equation of motion
            Mat H = d.mass(q);
            KDL::JntSpaceInertiaMatrix HH(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) HH(i, j) = 77;
            mc::step(2);
            KDL::JntArray Q = ja(q), G(N); for (int i = 0; i < N; i++) G(i) = 77;
            mc::check(dp.JntToMass(Q, HH) == 0 && dp.JntToGravity(Q, G) == 0 && dp.getError() == 0, "answer", " ");
            std::vector<double> gref = d.tau(q, zero, zero, -1.0 * g, V(), {});
            nearQ(G, gref, 1e-10 * big(gref), "gravity term", at.c_str());
            if (ref::dot(g, g) == 0) nearQ(G, zero, 1e-12, "no gravity term without gravity");
            Mat hh(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) { hh(i, j) = HH(i, j); mc::check(HH(i, j) == HH(j, i), "inertia matrix is symmetric", "%g %g", HH(i, j), HH(j, i)); }
            nearMat(hh, H, 1e-10 * (1 + ref::maxabs(H)), "inertia matrix", at.c_str());
            for (int v = 0; v < 5; v++) {
                if (!many && (v == 2 || v == 3)) continue;
                std::vector<double> qd = v == 4 ? qpat(N, 5) : v == 0 ? qpat(N, 2) : v == 1 ? zero : v == 2 ? scaled(qpat(N, 4), -1) : zero;
                if (v == 3) { if (!N) continue; qd[N - 1] = 1.3; }
                KDL::JntArray C(N), T(N); for (int i = 0; i < N; i++) C(i) = T(i) = 77;
                mc::step();
                mc::check(dp.JntToCoriolis(Q, ja(qd), C) == 0 && dp.getError() == 0, "answer", " ");
                std::vector<double> cref = d.tau(q, qd, zero, V(), V(), {});
                nearQ(C, cref, 1e-10 * big(cref), "Coriolis term", at.c_str());
                if (v == 1) nearQ(C, zero, 0, "no Coriolis term at rest");
                double e = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) e += 0.5 * qd[i] * hh(i, j) * qd[j];
                mc::near(e, d.kinetic(q, qd), 1e-10 * (1 + std::fabs(e)), "kinetic energy", at.c_str());
                KDL::JntArray first(N);
                for (int f = 0; f <= n + 1; f++) {   // no wrench, one on each segment, one on all
                    std::vector<Wr> ext(n); for (int i = 0; i < n; i++) if (f == i + 1 || f == n + 1) ext[i] = wrench(i);
                    for (int a = 0; a < (f == 0 ? N + 2 : 2); a++) {
                        std::vector<double> qdd = zero; if (a == 1) qdd = qpat(N, v == 4 ? 5 : 1); else if (a > 1) qdd[a - 2] = 1;
                        mc::step();
                        KDL::Wrenches W = ws(ext); KDL::JntArray A = ja(qdd), B = ja(qd);
                        mc::check(id.CartToJnt(Q, B, A, W, T) == 0 && id.getError() == 0, "answer", " ");
                        std::vector<double> want = d.tau(q, qd, qdd, -1.0 * g, V(), ext), got = vec(T);
                        nearQ(T, want, 1e-10 * big(want), "inverse dynamics", (at + mc::fmt(", velocity %d, acceleration %d, wrench %d", v, a, f)).c_str());
                        nearQ(Q, q, 0, "argument untouched"); nearQ(A, qdd, 0, "argument untouched"); nearQ(B, qd, 0, "argument untouched");
                        if (f == 0) {
                            std::vector<double> sum(N, 0.0); for (int i = 0; i < N; i++) { sum[i] = C(i) + G(i); for (int j = 0; j < N; j++) sum[i] += HH(i, j) * qdd[j]; }
                            nearQ(T, sum, 1e-9 * big(sum), "torques are inertia, Coriolis and gravity terms", at.c_str());
                        }
                        if (N) mc::state(got.data(), N, a);
                        if (f == 0 && a == 0) first = T;
                    }
                }
                // a refused call in between leaves nothing behind
                KDL::Wrenches bad(n + 1, KDL::Wrench(KDL::Vector(9, 9, 9), KDL::Vector(9, 9, 9))), none(n, KDL::Wrench::Zero());
                mc::check(id.CartToJnt(Q, ja(qd), ja(zero), bad, T) < 0, "wrong number of wrenches refused", " ");
                mc::check(id.CartToJnt(Q, ja(qd), ja(zero), none, T) == 0, "answer", " ");
                nearQ(T, vec(first), 0, "works after a refusal");
            }
        }
    }
}
SCENARIO(small) {
    int n = mc::choose(mc::tiered(4, 5), "segments");
    all(choose_spec(n, n > 3 ? std::vector<int>{1, 4, 5, 6} : n > 2 ? mc::thorough() ? std::vector<int>{0, 1, 3, 4, 5, 6, 7, 10} : std::vector<int>{1, 4, 5, 6} : all_kinds()), n <= 2);
}
SCENARIO(large) {
    auto& L = long_shapes();
    Spec s = spec(L[mc::choose((int)L.size(), "shape")]);
    int cut = mc::choose(mc::tiered(3, (int)s.size()), "start"); if (cut >= (int)s.size()) return;
    s.erase(s.begin(), s.begin() + cut);
    int what = mc::choose(4, "bodies");   // as in the menu, every body heavy, only the last, none but joint inertias
    for (size_t i = 0; i < s.size(); i++) {
        if (what == 1) s[i] = heavy(s[i], (int)i);
        if (what >= 2 && (what == 3 || i + 1 < s.size())) { s[i].mass = 0; s[i].cog = V(); for (double& x : s[i].in) x = 0; }
        if (what == 3 && s[i].moves()) s[i].ji = 0.1 + 0.05 * i;
    }
    all(s, mc::thorough());
}
