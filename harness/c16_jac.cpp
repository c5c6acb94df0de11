// C16: the chain Jacobian is the derivative of the pose.
#include "kin.hpp"
#include <chainjnttojacsolver.hpp>
using namespace kin;

static const double TOL = 1e-10;
static Mat locked(const Mat& J, unsigned mask) {
    Mat r(6, J.c); int k = 0;
    for (int j = 0; j < J.c; j++) if (!(mask >> j & 1)) { for (int i = 0; i < 6; i++) r(i, k) = J(i, j); k++; }
    return r;
}
static void all(const Spec& s, int locks) {
    KDL::Chain c = chain(s);
    int n = (int)s.size(), N = nj(s);
    KDL::ChainJntToJacSolver solver(c);
    for (int p = 0; p < 5; p++) {
        std::vector<double> q = qpat(N, p == 4 ? 5 : p);
        std::vector<Mat> want; for (int k = 0; k <= n; k++) want.push_back(jacobian(s, q, k));
        std::vector<unsigned> masks;
        if (locks) for (unsigned m = 0; m < 1u << N; m++) masks.push_back(m); else masks = {0, (1u << N) - 1, 0xAAu & ((1u << N) - 1), 0};
        for (unsigned m : masks) {
            std::vector<bool> l(N); for (int i = 0; i < N; i++) l[i] = m >> i & 1;
            mc::step();
            if (m || p % 2) mc::check(solver.setLockedJoints(l) == 0, "locking joints", "mask %u", m);
            else { std::vector<bool> none(N, false); mc::check(solver.setLockedJoints(none) == 0, "unlocking joints", " "); }
            for (int k = -1; k <= n; k++) {
                KDL::Jacobian J(N); for (int i = 0; i < 6; i++) for (int j = 0; j < N; j++) J(i, j) = 77;
                mc::step();
                KDL::JntArray Q = ja(q);
                int r = solver.JntToJac(Q, J, k);
                mc::check(r == 0 && solver.getError() == 0, "answer", "segment %d: %d", k, r);
                int kk = k < 0 ? n : k;
                // locked joints leave no column; those of a prefix beyond it are zero
                nearMat(mat(J), locked(want[kk], m), TOL, m ? "jacobian with locked joints" : "jacobian", mc::fmt("segment %d, lock mask %u", k, m).c_str());
                nearQ(Q, q, 0, "argument untouched");
                Mat x = mat(J); if (N) mc::state(x.a.data(), x.a.size());
            }
        }
    }
    // the default segment number is the whole chain, a new solver has no locked joints
    KDL::ChainJntToJacSolver fresh(c); KDL::Jacobian J(N); std::vector<double> q = qpat(N, 1);
    mc::check(fresh.JntToJac(ja(q), J) == 0, "answer", " ");
    nearMat(mat(J), jacobian(s, q, n), TOL, "jacobian of the tip");
}
SCENARIO(small) {
    int n = mc::choose(mc::tiered(4, 5), "segments");
    all(choose_spec(n, n > 3 ? std::vector<int>{0, 1, 3, 4, 5, 6, 7, 8, 11} : n > 2 ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11} : all_kinds()), 1);
}
SCENARIO(large) {
    auto& L = long_shapes();
    Spec s = spec(L[mc::choose((int)L.size(), "shape")]);
    int cut = mc::choose((int)s.size(), "start"); s.erase(s.begin(), s.begin() + cut);
    all(s, nj(s) <= mc::tiered(5, 8));
}
// --- changes of base, reference point and reference frame
static const std::vector<V>& points() { static std::vector<V> p = {V(), V(1, 0, 0), V(0, -2, 0), V(0.3, 0.4, -0.5)}; return p; }
static const std::vector<Fr>& frames() { static std::vector<Fr> f = {Fr(), frame(1.5707963267948966, 0, 0, 0, 0, 0), frame(0, 0, 0, 1, 2, 3), frame(0.3, -0.2, 0.7, 0.1, -0.2, 0.3), frame(3.141592653589793, 0.5, -2, -4, 0.1, 0)}; return f; }
SCENARIO_SPLIT(changes, 3) {
    int N = mc::choose(4, "columns");
    KDL::Jacobian J(N); Mat A(6, N);
    for (int i = 0; i < 6; i++) for (int j = 0; j < N; j++) J(i, j) = A(i, j) = ((i * 7 + j * 5) % 11 - 5) * 0.37 + (i == j);
    int depth = mc::tiered(3, 4);
    for (int d = 0; d < depth; d++) {
        int kind = mc::choose(3, "change"), form = mc::choose(3, "form");
        Mat B(6, N);
        Fr F = kind == 1 ? Fr() : frames()[mc::choose(5, "frame")]; V p = kind == 1 ? points()[mc::choose(4, "point")] : V();
        for (int j = 0; j < N; j++) {
            V v(A(0, j), A(1, j), A(2, j)), w(A(3, j), A(4, j), A(5, j));
            if (kind == 0) { v = F.R * v; w = F.R * w; }
            else if (kind == 1) v = v + ref::cross(w, p);
            else { w = F.R * w; v = F.R * v + ref::cross(F.p, w); }
            for (int i = 0; i < 3; i++) { B(i, j) = v[i]; B(3 + i, j) = w[i]; }
        }
        KDL::Jacobian out(N);
        mc::step();
        bool ok = true;
        if (form == 0) { if (kind == 0) J.changeBase(k(F.R)); else if (kind == 1) J.changeRefPoint(k(p)); else J.changeRefFrame(k(F)); }
        else {
            KDL::Jacobian& dest = form == 1 ? out : J;
            if (kind == 0) ok = KDL::changeBase(J, k(F.R), dest); else if (kind == 1) ok = KDL::changeRefPoint(J, k(p), dest); else ok = KDL::changeRefFrame(J, k(F), dest);
            if (form == 1) { nearMat(mat(J), A, 0, "source of a change untouched"); J = out; }
        }
        mc::check(ok, "change accepted", "kind %d form %d", kind, form);
        A = B;
        nearMat(mat(J), A, 1e-12, kind == 0 ? "change of base" : kind == 1 ? "change of reference point" : "change of reference frame");
        if (N) mc::state(A.a.data(), A.a.size());
    }
}
SCENARIO(mismatch) {
    int a = mc::choose(4, "source columns"), b = mc::choose(4, "destination columns"), kind = mc::choose(3, "change");
    KDL::Jacobian A(a), B(b);
    for (int i = 0; i < 6; i++) { for (int j = 0; j < a; j++) A(i, j) = i + j; for (int j = 0; j < b; j++) B(i, j) = 100 * i + j; }
    Mat a0 = mat(A), b0 = mat(B);
    Fr F = frames()[3]; mc::step();
    bool ok = kind == 0 ? KDL::changeBase(A, k(F.R), B) : kind == 1 ? KDL::changeRefPoint(A, k(F.p), B) : KDL::changeRefFrame(A, k(F), B);
    mc::check(ok == (a == b), "sizes must match", "%d and %d columns: %d", a, b, ok);
    nearMat(mat(A), a0, 0, "source untouched");
    if (a != b) nearMat(mat(B), b0, 0, "refused change leaves the destination");
    mc::state(mc::fmt("%d %d %d", a, b, kind));
}
