// C27: the decompositions reconstruct their input.
#include "kin.hpp"
#include <utilities/ldl_solver_eigen.hpp>
#include <utilities/svd_HH.hpp>
#include <utilities/svd_eigen_HH.hpp>
#include <utilities/svd_eigen_Macie.hpp>
#include <solveri.hpp>
using namespace kin;

static std::string str(const Mat& a) {
    std::string s = "[";
    for (int i = 0; i < a.r; i++) { if (i) s += "; "; for (int j = 0; j < a.c; j++) s += mc::fmt("%s%.17g", j ? " " : "", a(i, j)); }
    return s + "]";
}
static Mat from(const Eigen::MatrixXd& a) { Mat r((int)a.rows(), (int)a.cols()); for (int i = 0; i < r.r; i++) for (int j = 0; j < r.c; j++) r(i, j) = a(i, j); return r; }
static Eigen::MatrixXd eig(const Mat& a) { Eigen::MatrixXd r(a.r, a.c); for (int i = 0; i < a.r; i++) for (int j = 0; j < a.c; j++) r(i, j) = a(i, j); return r; }

// A = U diag(s) V^T with V orthonormal, s >= 0, the columns of U of non-zero singular values orthonormal, s the singular values
static void verify(const Mat& A, const Mat& U, const std::vector<double>& s, const Mat& W, const std::string& who, double tol) {
    int n = A.c; double big = ref::maxabs(A), unit = big > 0 ? big : 1;
    bool ok = true;
    for (int k = 0; k < n; k++) ok &= s[k] >= 0 && s[k] <= 1.0000001 * unit * std::sqrt(double(A.r) * n) ;
    if (!mc::check(ok, who + ": singular values are finite and not negative", "%s", str(A).c_str())) return;
    Mat P(A.r, n);
    for (int i = 0; i < A.r; i++) for (int j = 0; j < n; j++) { double x = 0; for (int k = 0; k < n; k++) x += U(i, k) * (s[k] / unit) * W(j, k); P(i, j) = x; }
    mc::check(ref::maxabs(P - (1 / unit) * A) <= tol * std::sqrt(double(A.r) * n), who + ": the product is the input", "%s: relative error %g", str(A).c_str(), ref::maxabs(P - (1 / unit) * A));
    mc::check(ref::maxabs(tr(W) * W - Mat::eye(n)) <= tol, who + ": V is orthonormal", "%s: error %g", str(A).c_str(), ref::maxabs(tr(W) * W - Mat::eye(n)));
    // directions of singular values that vanish are not part of the decomposition
    std::vector<int> keep;
    for (int k = 0; k < n; k++) if (s[k] > 1e-9 * unit) keep.push_back(k);
    double e = 0;
    for (int a : keep) for (int b : keep) { double x = 0; for (int i = 0; i < A.r; i++) x += U(i, a) * U(i, b); e = std::max(e, std::fabs(x - (a == b))); }
    mc::check(e <= tol * 1e4, who + ": U is orthonormal", "%s: error %g", str(A).c_str(), e);
    std::vector<double> want = ref::svals((1 / unit) * A), got = s;
    std::sort(got.rbegin(), got.rend());
    for (int k = 0; k < n; k++) if (!mc::check(std::fabs(got[k] / unit - want[k]) <= tol * std::sqrt(double(A.r) * n), who + ": the singular values are those of the input", "%s: value %d is %.17g instead of %.17g", str(A).c_str(), k, got[k], want[k] * unit)) break;
}
static void hh_eigen(const Mat& A, int maxiter = 0) {
    Eigen::MatrixXd a = eig(A), U = Eigen::MatrixXd::Constant(A.r, A.c, 7), V = Eigen::MatrixXd::Constant(A.c, A.c, 7);
    Eigen::VectorXd S = Eigen::VectorXd::Constant(A.c, 7), tmp = Eigen::VectorXd::Constant(A.c, 7);
    mc::step();
    int r = maxiter ? KDL::svd_eigen_HH(a, U, S, V, tmp, maxiter) : KDL::svd_eigen_HH(a, U, S, V, tmp);
    mc::check(r <= 0, "svd_eigen_HH: return code", "%d", r);
    if (!maxiter) mc::check(r == 0, "svd_eigen_HH: converges", "%s: %d", str(A).c_str(), r);
    if (r == 0) {
        bool sorted = true;
        for (int k = 0; k + 1 < A.c; k++) sorted &= S(k) >= S(k + 1);
        mc::check(sorted, "svd_eigen_HH: singular values descend", "%s", str(A).c_str());
        verify(A, from(U), std::vector<double>(S.data(), S.data() + A.c), from(V), maxiter ? "svd_eigen_HH with few iterations" : "svd_eigen_HH", 1e-12);
    } else mc::count("reported as not converged");
    mc::state(S.data(), A.c);
}
static void hh(const Mat& A, int maxiter) {   // Jacobians have six rows
    if (A.r != 6) return;
    KDL::Jacobian J(A.c);
    for (int i = 0; i < 6; i++) for (int j = 0; j < A.c; j++) J(i, j) = A(i, j);
    KDL::SVD_HH svd(J);
    std::vector<KDL::JntArray> U(6, KDL::JntArray(A.c)), V(A.c, KDL::JntArray(A.c)); KDL::JntArray S(A.c);
    mc::step();
    int r = svd.calculate(J, U, S, V, maxiter ? maxiter : 150);
    mc::check(r <= 0, "SVD_HH: return code", "%d", r);
    if (!maxiter) mc::check(r == 0, "SVD_HH: converges", "%s: %d", str(A).c_str(), r);
    if (r) { mc::count("reported as not converged"); return; }
    Mat u(6, A.c), v(A.c, A.c);
    for (int j = 0; j < A.c; j++) { for (int i = 0; i < 6; i++) u(i, j) = U[i](j); for (int i = 0; i < A.c; i++) v(i, j) = V[i](j); }
    verify(A, u, vec(S), v, maxiter ? "SVD_HH with few iterations" : "SVD_HH", 1e-12);
}
struct Macie {
    int m, n; Eigen::MatrixXd U, V, B; Eigen::VectorXd S, t;
    Macie(int m_, int n_) : m(m_), n(n_), U(Eigen::MatrixXd::Identity(m_, m_)), V(Eigen::MatrixXd::Identity(n_, n_)), B(m_, n_), S(n_), t(m_) { B.setConstant(7); S.setConstant(7); t.setConstant(7); }
    void run(const Mat& A, bool toggle) {
        Eigen::MatrixXd a = eig(A);
        mc::step();
        int sweeps = KDL::svd_eigen_Macie(a, U, S, V, B, t, 1e-15, toggle);
        mc::check(sweeps >= 0, "svd_eigen_Macie: number of sweeps", "%d", sweeps);
        // convergence threshold 1e-15 on the squared cosine: columns are orthogonal to about 3e-8
        std::vector<double> s(S.data(), S.data() + n); Mat u = from(U.leftCols(n)), v = from(V);
        std::string who = toggle ? "svd_eigen_Macie updating V" : "svd_eigen_Macie updating U";
        if (toggle) verify(A, u, s, v, who, 1e-7);
        else verify(ref::tr(A), v, s, u, who, 1e-7);   // here U is the accumulated rotation
        mc::state(S.data(), n, toggle);
    }
};
static void all(const Mat& A, int maxiter = 0) {
    mc::note("matrix %s", str(A).c_str());
    hh_eigen(A, maxiter);
    hh(A, maxiter);
    if (maxiter) return;
    if (A.r >= A.c) {
        { Macie m(A.r, A.c); m.run(A, true); m.run(A, true); }
        if (A.r == A.c) { Macie m(A.r, A.c); m.run(A, false); m.run(A, false); }
    } else { Macie m(A.c, A.r); m.run(ref::tr(A), true); }
}
// every matrix of a small shape with entries of a small alphabet
SCENARIO(entries) {
    static const int SH[][2] = {{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {1, 4}, {4, 1}, {3, 3}, {2, 4}, {4, 2}};
    auto& sh = SH[mc::choose(mc::tiered(11, 13), "shape")];
    int cells = sh[0] * sh[1];
    std::vector<double> al = cells <= 4 ? std::vector<double>{0, 1, -1, 2, 1e-8, 1e8, -0.3} : cells <= 6 ? std::vector<double>{0, 1, -1, 1e-8, 2.5} : cells <= 8 ? std::vector<double>{0, 1, -1, 1e-8} : mc::thorough() ? std::vector<double>{0, 1, -1, 2.5} : std::vector<double>{0, 1, -1};
    Mat A(sh[0], sh[1]);
    for (double& x : A.a) x = mc::pick(al);
    all(A);
}
static Mat orth(int n, int which) {   // product of plane rotations
    Mat q = Mat::eye(n);
    if (which == 0) return q;
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) {
        double t = which == 1 ? 0.3 + 0.7 * i - 0.4 * j : which == 2 ? ((i + j) % 2 ? 1.5707963267948966 : 0) : 1e-9 * (i + 1);
        Mat g = Mat::eye(n); g(i, i) = g(j, j) = std::cos(t); g(i, j) = -std::sin(t); g(j, i) = std::sin(t);
        q = q * g;
    }
    for (double& x : q.a) if (std::fabs(x) < 1e-14) x = 0;
    return q;
}
static Mat structured(int m, int n) {
    static const double P[][9] = {{1, 1, 1, 1, 1, 1, 1, 1, 1}, {9, 8, 7, 6, 5, 4, 3, 2, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0}, {1, 0, 1, 0, 1, 0, 1, 0, 1}, {0, 2, 2, 1, 1, 3, 0, 5, 5},
                                  {1, 1e-8, 1e-8, 1, 1e-4, 1, 1e-12, 1, 1}, {1e4, 1, 1e-4, 1e4, 1, 1e-4, 1, 1, 1}, {0, 0, 0, 0, 0, 1, 2, 3, 4}, {1, 1 + 1e-9, 1 - 1e-9, 1, 1, 1, 1, 1, 1}};
    static const double SC[] = {1, 1e-9, 1e9, 1e-100, 1e100};
    auto& p = mc::pick(P, "singular values");
    int u = mc::choose(4, "left"), v = mc::choose(4, "right");
    double sc = mc::pick(SC, "scale");
    Mat D(m, n); for (int i = 0; i < std::min(m, n); i++) D(i, i) = p[i] * sc;
    return orth(m, u) * D * orth(n, v);
}
SCENARIO(shapes) {
    int m = 1 + mc::choose(mc::tiered(6, 8), "rows"), n = 1 + mc::choose(mc::tiered(8, 9), "columns");
    Mat A = structured(m, n);
    int zero = mc::choose(4, "zeroed");
    if (zero == 1) for (int i = 0; i < m; i++) A(i, n / 2) = 0;
    if (zero == 2) for (int j = 0; j < n; j++) A(m / 2, j) = 0;
    if (zero == 3) for (int i = 0; i < m; i++) A(i, n - 1) = A(i, 0);
    all(A);
}
// rows and columns in mixed units
SCENARIO(scaled) {
    static const double UN[] = {1, 1e-6, 1e5};
    int m = mc::thorough() ? 3 + 3 * mc::choose(2, "rows") : 6, n = 2 + mc::choose(mc::tiered(6, 8), "columns");
    int p[2] = {mc::choose(4, "left"), mc::choose(4, "right")};
    Mat D(m, n); for (int i = 0; i < std::min(m, n); i++) D(i, i) = 1 + 0.5 * i;
    Mat A = orth(m, p[0]) * D * orth(n, p[1]);
    for (int g = 0; g < 3; g++) { double r = mc::pick(UN), c = mc::pick(UN); for (int i = 0; i < m; i++) if (i % 3 == g) for (int j = 0; j < n; j++) A(i, j) *= r; for (int j = 0; j < n; j++) if (j % 3 == g) for (int i = 0; i < m; i++) A(i, j) *= c; }
    all(A);
}
SCENARIO(jacobians) {
    bool big = mc::flag("long");
    Spec s = big ? spec(mc::pick(long_shapes(), "shape")) : choose_spec(1 + mc::choose(mc::tiered(3, 4)), mc::thorough() ? all_kinds() : std::vector<int>{0, 2, 3, 4, 5, 6, 9, 11});
    int N = nj(s); if (!N) return;
    Mat J = jacobian(s, qpat(N, mc::choose(4, "posture")), (int)s.size());
    all(J); all(ref::tr(J));
}
// any iteration bound: either not converged or right
SCENARIO(iterations) {
    int m = mc::thorough() ? 2 + mc::choose(5, "rows") : 6 - 3 * mc::choose(2, "rows"), n = 2 + mc::choose(mc::tiered(6, 8), "columns");
    Mat A = structured(m, n);
    for (int it = 1; it <= mc::tiered(6, 40); it++) all(A, it);
}
// the warm-started decomposition over every sequence of matrices
SCENARIO(warm) {
    static const int SH[][2] = {{6, 6}, {2, 2}, {6, 5}, {8, 6}, {1, 1}, {3, 1}};
    auto& sh = SH[mc::choose(6, "shape")];
    Macie m(sh[0], sh[1]);
    for (int d = 0; d < mc::tiered(3, 5); d++) {
        Mat D(sh[0], sh[1]); int k = mc::choose(6, "matrix");
        for (int i = 0; i < sh[1]; i++) D(i, i) = k == 5 ? 0 : 1 + ((k * 3 + i * 2) % 5) * 0.4;
        if (k == 3) D(sh[1] - 1, sh[1] - 1) = 0;
        Mat A = orth(sh[0], k % 3) * D * orth(sh[1], k == 4 ? 1 : k % 4);
        mc::note("matrix %s", str(A).c_str());
        m.run(A, true);
    }
}
// LDL: symmetric positive definite systems
static void ldl(const Mat& A, const Mat& b) {
    int n = A.r;
    Eigen::MatrixXd a = eig(A), L = Eigen::MatrixXd::Constant(n, n, 7); Eigen::VectorXd v(n), D = Eigen::VectorXd::Constant(n, 7), t = D, q = D;
    for (int i = 0; i < n; i++) v(i) = b(i, 0);
    mc::step();
    mc::check(KDL::ldl_solver_eigen(a, v, L, D, t, q) == 0, "ldl: success", "%s", str(A).c_str());
    Mat x = ref::solve(A, b), l = from(L), d(n, n); for (int i = 0; i < n; i++) { d(i, i) = D(i); mc::check(D(i) > 0, "ldl: positive diagonal", "%s", str(A).c_str()); }
    bool unit = true; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) unit &= l(i, j) == (i == j);
    mc::check(unit, "ldl: L is unit lower triangular", "%s", str(A).c_str());
    double sc = ref::maxabs(A);
    mc::check(ref::maxabs(l * d * ref::tr(l) - A) <= 1e-12 * sc * n, "ldl: the factors give the input", "%s", str(A).c_str());
    double e = 0, mx = ref::maxabs(x); for (int i = 0; i < n; i++) e = std::max(e, std::fabs(q(i) - x(i, 0)));
    mc::check(e <= 1e-9 * mx, "ldl: solution", "%s: error %g of %g", str(A).c_str(), e, mx);
    mc::check(from(a).a == A.a, "ldl: input untouched", " ");
    mc::state(q.data(), n);
}
SCENARIO(ldl_system) {
    static const double P[][9] = {{1, 1, 1, 1, 1, 1, 1, 1, 1}, {9, 8, 7, 6, 5, 4, 3, 2, 1}, {1e-3, 1, 1e2, 1, 1, 1e-2, 1, 1, 1}, {0.5, 0.25, 4, 1, 0.1, 8, 3, 2, 6}};
    int n = 1 + mc::choose(mc::tiered(7, 9), "size");
    auto& p = mc::pick(P, "eigenvalues"); static const double SC[] = {1, 1e-9, 1e9}; double sc = mc::pick(SC, "scale");
    Mat D(n, n); for (int i = 0; i < n; i++) D(i, i) = p[i] * sc;
    Mat Q = orth(n, mc::choose(4, "basis")), A = Q * D * ref::tr(Q);
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) A(i, j) = A(j, i);
    Mat b(n, 1); int r = mc::choose(4, "right side"); for (int i = 0; i < n; i++) b(i, 0) = r == 0 ? 0 : r == 1 ? 1 : r == 2 ? (i == n - 1) : 0.3 * i - 1.1;
    ldl(A, b);
}
SCENARIO(ldl_entries) {   // all small symmetric matrices that are positive definite
    int n = 1 + mc::choose(mc::tiered(3, 4), "size");
    std::vector<double> dg = {1, 2, 5}, off = {0, 1, -1, 0.5};
    Mat A(n, n), b(n, 1);
    for (int i = 0; i < n; i++) { A(i, i) = mc::pick(dg); b(i, 0) = i + 1; for (int j = 0; j < i; j++) A(i, j) = A(j, i) = mc::pick(off); }
    std::vector<double> w; Mat Q; ref::eigsym(A, w, Q);
    for (double x : w) if (x < 1e-3) return;
    ldl(A, b);
}
SCENARIO(ldl_sizes) {   // any mismatched size is refused without touching anything
    int s[8]; static const char* what[8] = {"A rows", "A columns", "v", "L rows", "L columns", "D", "temporary", "q"};
    int bad = mc::choose(8, "argument"), n = 1 + mc::choose(4, "size"), other = mc::choose(6, "other size");
    for (int i = 0; i < 8; i++) s[i] = n;
    s[bad] = other; if (other == n) return;
    bool a00 = false;
    Eigen::MatrixXd A = Eigen::MatrixXd::Identity(s[0], s[1]), L = Eigen::MatrixXd::Constant(s[3], s[4], 7); Eigen::VectorXd v = Eigen::VectorXd::Ones(s[2]), D = Eigen::VectorXd::Constant(s[5], 7), t = Eigen::VectorXd::Constant(s[6], 7), q = Eigen::VectorXd::Constant(s[7], 7);
    (void)a00;
    mc::step();
    mc::check(KDL::ldl_solver_eigen(A, v, L, D, t, q) == KDL::SolverI::E_SIZE_MISMATCH, "ldl: size mismatch is reported", "%s %d instead of %d", what[bad], other, n);
    bool same = true; for (int i = 0; i < q.size(); i++) same &= q(i) == 7; for (int i = 0; i < D.size(); i++) same &= D(i) == 7; for (int i = 0; i < L.size(); i++) same &= L.data()[i] == 7;
    mc::check(same, "ldl: a refused call changes nothing", "%s", what[bad]);
}
