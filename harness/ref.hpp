// Independent reference mathematics: plain arrays, no library code.
// Jet = value, first and second derivative along one curve parameter.
#pragma once
#include <cmath>
#include <string>
#include <vector>
#include <cstddef>

namespace ref {

struct Jet {
    double x, d, e;   // f, f', f''
    Jet(double x_ = 0, double d_ = 0, double e_ = 0) : x(x_), d(d_), e(e_) {}
};
inline Jet operator+(Jet a, Jet b) { return {a.x + b.x, a.d + b.d, a.e + b.e}; }
inline Jet operator-(Jet a, Jet b) { return {a.x - b.x, a.d - b.d, a.e - b.e}; }
inline Jet operator-(Jet a) { return {-a.x, -a.d, -a.e}; }
inline Jet operator*(Jet a, Jet b) { return {a.x * b.x, a.d * b.x + a.x * b.d, a.e * b.x + 2 * a.d * b.d + a.x * b.e}; }
// g(a) given g, g', g'' at a.x
inline Jet comp(Jet a, double g, double g1, double g2) { return {g, g1 * a.d, g2 * a.d * a.d + g1 * a.e}; }
inline Jet inv(Jet a) { double i = 1 / a.x; return comp(a, i, -i * i, 2 * i * i * i); }
inline Jet operator/(Jet a, Jet b) { return a * inv(b); }
inline Jet sin(Jet a) { return comp(a, std::sin(a.x), std::cos(a.x), -std::sin(a.x)); }
inline Jet cos(Jet a) { return comp(a, std::cos(a.x), -std::sin(a.x), -std::cos(a.x)); }
inline Jet tan(Jet a) { double t = std::tan(a.x), s = 1 + t * t; return comp(a, t, s, 2 * t * s); }
inline Jet exp(Jet a) { double t = std::exp(a.x); return comp(a, t, t, t); }
inline Jet log(Jet a) { return comp(a, std::log(a.x), 1 / a.x, -1 / (a.x * a.x)); }
inline Jet sqrt(Jet a) { double s = std::sqrt(a.x); return comp(a, s, 0.5 / s, -0.25 / (s * s * s)); }
inline Jet sinh(Jet a) { return comp(a, std::sinh(a.x), std::cosh(a.x), std::sinh(a.x)); }
inline Jet cosh(Jet a) { return comp(a, std::cosh(a.x), std::sinh(a.x), std::cosh(a.x)); }
inline Jet tanh(Jet a) { double t = std::tanh(a.x), s = 1 - t * t; return comp(a, t, s, -2 * t * s); }
inline Jet asin(Jet a) { double u = 1 - a.x * a.x, r = std::sqrt(u); return comp(a, std::asin(a.x), 1 / r, a.x / (u * r)); }
inline Jet acos(Jet a) { double u = 1 - a.x * a.x, r = std::sqrt(u); return comp(a, std::acos(a.x), -1 / r, -a.x / (u * r)); }
inline Jet atan(Jet a) { double u = 1 + a.x * a.x; return comp(a, std::atan(a.x), 1 / u, -2 * a.x / (u * u)); }
inline Jet pow(Jet a, double n) { return comp(a, std::pow(a.x, n), n * std::pow(a.x, n - 1), n * (n - 1) * std::pow(a.x, n - 2)); }
inline double val(double a) { return a; }
inline double val(Jet a) { return a.x; }
using std::cos; using std::sin; using std::sqrt;

template <class T> struct V3 {
    T v[3];
    V3() : v{T(0), T(0), T(0)} {}
    V3(T a, T b, T c) : v{a, b, c} {}
    T& operator[](int i) { return v[i]; }
    const T& operator[](int i) const { return v[i]; }
};
template <class T> V3<T> operator+(const V3<T>& a, const V3<T>& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
template <class T> V3<T> operator-(const V3<T>& a, const V3<T>& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
template <class T> V3<T> operator-(const V3<T>& a) { return {-a[0], -a[1], -a[2]}; }
template <class T> V3<T> operator*(T s, const V3<T>& a) { return {s * a[0], s * a[1], s * a[2]}; }
template <class T> T dot(const V3<T>& a, const V3<T>& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
template <class T> V3<T> cross(const V3<T>& a, const V3<T>& b) {
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
template <class T> T norm(const V3<T>& a) { return sqrt(dot(a, a)); }

template <class T> struct M3 {
    T m[3][3];
    M3() { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = T(i == j ? 1 : 0); }
    T* operator[](int i) { return m[i]; }
    const T* operator[](int i) const { return m[i]; }
    static M3 zero() { M3 r; for (int i = 0; i < 3; i++) r.m[i][i] = T(0); return r; }
};
template <class T> M3<T> operator*(const M3<T>& a, const M3<T>& b) {
    M3<T> r = M3<T>::zero();
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r[i][j] = r[i][j] + a[i][k] * b[k][j];
    return r;
}
template <class T> M3<T> operator+(const M3<T>& a, const M3<T>& b) { M3<T> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[i][j] + b[i][j]; return r; }
template <class T> M3<T> operator-(const M3<T>& a, const M3<T>& b) { M3<T> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[i][j] - b[i][j]; return r; }
template <class T> M3<T> operator*(T s, const M3<T>& a) { M3<T> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = s * a[i][j]; return r; }
template <class T> V3<T> operator*(const M3<T>& a, const V3<T>& b) {
    V3<T> r;
    for (int i = 0; i < 3; i++) r[i] = a[i][0] * b[0] + a[i][1] * b[1] + a[i][2] * b[2];
    return r;
}
template <class T> M3<T> tr(const M3<T>& a) { M3<T> r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[j][i]; return r; }
template <class T> M3<T> skew(const V3<T>& w) {
    M3<T> r = M3<T>::zero();
    r[0][1] = -w[2]; r[0][2] = w[1]; r[1][0] = w[2]; r[1][2] = -w[0]; r[2][0] = -w[1]; r[2][1] = w[0];
    return r;
}
template <class T> T det(const M3<T>& a) {
    return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
// rotation by angle t about the unit axis u: I + sin K + (1-cos) K^2
template <class T> M3<T> rodrigues(const V3<T>& u, T t) {
    M3<T> K = skew(u);
    return M3<T>() + sin(t) * K + (T(1) - cos(t)) * (K * K);
}
template <class T> M3<T> rotx(T t) { return rodrigues(V3<T>(T(1), T(0), T(0)), t); }
template <class T> M3<T> roty(T t) { return rodrigues(V3<T>(T(0), T(1), T(0)), t); }
template <class T> M3<T> rotz(T t) { return rodrigues(V3<T>(T(0), T(0), T(1)), t); }
// rotation vector (axis * angle) to matrix
inline M3<double> expv(const V3<double>& w) {
    double n = norm(w);
    if (n == 0) return M3<double>();
    return rodrigues((1 / n) * w, n);
}

template <class T> struct F {          // frame
    M3<T> R; V3<T> p;
};
template <class T> F<T> operator*(const F<T>& a, const F<T>& b) { F<T> r; r.R = a.R * b.R; r.p = a.R * b.p + a.p; return r; }
template <class T> V3<T> operator*(const F<T>& a, const V3<T>& b) { return a.R * b + a.p; }
template <class T> F<T> inv(const F<T>& a) { F<T> r; r.R = tr(a.R); r.p = -(r.R * a.p); return r; }

typedef V3<double> V; typedef M3<double> M; typedef F<double> Fr;
typedef V3<Jet> VJ; typedef M3<Jet> MJ; typedef F<Jet> FJ;

inline VJ jet(const V& a) { return VJ(a[0], a[1], a[2]); }
inline MJ jet(const M& a) { MJ r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = Jet(a[i][j]); return r; }
inline FJ jet(const Fr& a) { FJ r; r.R = jet(a.R); r.p = jet(a.p); return r; }
inline V v0(const VJ& a) { return V(a[0].x, a[1].x, a[2].x); }
inline V v1(const VJ& a) { return V(a[0].d, a[1].d, a[2].d); }
inline V v2(const VJ& a) { return V(a[0].e, a[1].e, a[2].e); }
inline M m0(const MJ& a) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[i][j].x; return r; }
inline M m1(const MJ& a) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[i][j].d; return r; }
inline M m2(const MJ& a) { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[i][j].e; return r; }
inline V unskew(const M& a) { return V((a[2][1] - a[1][2]) / 2, (a[0][2] - a[2][0]) / 2, (a[1][0] - a[0][1]) / 2); }
// angular velocity / acceleration of R(t), expressed in the base
inline V omega(const MJ& R) { return unskew(m1(R) * tr(m0(R))); }
inline V alpha(const MJ& R) { return unskew(m2(R) * tr(m0(R)) + m1(R) * tr(m1(R))); }
inline Fr f0(const FJ& a) { Fr r; r.R = m0(a.R); r.p = v0(a.p); return r; }

// ---- small dense matrices ------------------------------------------------------------------
struct Mat {
    int r, c; std::vector<double> a;
    Mat(int r_ = 0, int c_ = 0) : r(r_), c(c_), a((size_t)r_ * c_, 0.0) {}
    double& operator()(int i, int j) { return a[(size_t)i * c + j]; }
    double operator()(int i, int j) const { return a[(size_t)i * c + j]; }
    static Mat eye(int n) { Mat m(n, n); for (int i = 0; i < n; i++) m(i, i) = 1; return m; }
};
inline Mat operator*(const Mat& x, const Mat& y) { Mat r(x.r, y.c); for (int i = 0; i < x.r; i++) for (int j = 0; j < y.c; j++) { double s = 0; for (int k = 0; k < x.c; k++) s += x(i, k) * y(k, j); r(i, j) = s; } return r; }
inline Mat operator+(const Mat& x, const Mat& y) { Mat r = x; for (size_t i = 0; i < r.a.size(); i++) r.a[i] += y.a[i]; return r; }
inline Mat operator-(const Mat& x, const Mat& y) { Mat r = x; for (size_t i = 0; i < r.a.size(); i++) r.a[i] -= y.a[i]; return r; }
inline Mat operator*(double s, const Mat& y) { Mat r = y; for (double& v : r.a) v *= s; return r; }
inline Mat tr(const Mat& x) { Mat r(x.c, x.r); for (int i = 0; i < x.r; i++) for (int j = 0; j < x.c; j++) r(j, i) = x(i, j); return r; }
inline double maxabs(const Mat& x) { double m = 0; for (double v : x.a) { if (!(std::fabs(v) <= m)) m = std::fabs(v); } return m; }
// eigenvalues/vectors of a symmetric matrix by cyclic Jacobi
inline void eigsym(Mat A, std::vector<double>& w, Mat& Q) {
    int n = A.r; Q = Mat::eye(n);
    for (int sweep = 0; sweep < 100; sweep++) {
        double off = 0, dg = 0;
        for (int i = 0; i < n; i++) { dg += A(i, i) * A(i, i); for (int j = i + 1; j < n; j++) off += A(i, j) * A(i, j); }
        if (off <= 1e-40 * (dg + off) || off == 0) break;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            if (A(p, q) == 0) continue;
            double th = (A(q, q) - A(p, p)) / (2 * A(p, q));
            double t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
            double c = 1 / std::sqrt(t * t + 1), s = t * c;
            for (int k = 0; k < n; k++) { double x = A(k, p), y = A(k, q); A(k, p) = c * x - s * y; A(k, q) = s * x + c * y; }
            for (int k = 0; k < n; k++) { double x = A(p, k), y = A(q, k); A(p, k) = c * x - s * y; A(q, k) = s * x + c * y; }
            for (int k = 0; k < n; k++) { double x = Q(k, p), y = Q(k, q); Q(k, p) = c * x - s * y; Q(k, q) = s * x + c * y; }
        }
    }
    w.resize(n); for (int i = 0; i < n; i++) w[i] = A(i, i);
}
// singular values (descending, all min(r,c)) by one-sided Jacobi on the smaller side; accurate
inline std::vector<double> svals(const Mat& A0, Mat* Uout = nullptr, Mat* Vout = nullptr) {
    // one-sided Jacobi on columns of A (r x c), V accumulates
    Mat A = A0; int n = A.c; Mat Vv = Mat::eye(n);
    for (int sweep = 0; sweep < 200; sweep++) {
        bool rot = false;
        for (int p = 0; p < n; p++) for (int q = p + 1; q < n; q++) {
            double al = 0, be = 0, ga = 0;
            for (int k = 0; k < A.r; k++) { al += A(k, p) * A(k, p); be += A(k, q) * A(k, q); ga += A(k, p) * A(k, q); }
            if (std::fabs(ga) <= 1e-16 * std::sqrt(al * be) || ga == 0 || al * be < 1e-300) continue;
            rot = true;
            double z = (be - al) / (2 * ga), t = (z >= 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z)), c = 1 / std::sqrt(1 + t * t), s = c * t;
            for (int k = 0; k < A.r; k++) { double x = A(k, p), y = A(k, q); A(k, p) = c * x - s * y; A(k, q) = s * x + c * y; }
            for (int k = 0; k < n; k++) { double x = Vv(k, p), y = Vv(k, q); Vv(k, p) = c * x - s * y; Vv(k, q) = s * x + c * y; }
        }
        if (!rot) break;
    }
    std::vector<double> s(n);
    std::vector<int> idx(n);
    for (int j = 0; j < n; j++) { double x = 0; for (int k = 0; k < A.r; k++) x += A(k, j) * A(k, j); s[j] = std::sqrt(x); idx[j] = j; }
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (s[idx[j]] > s[idx[i]]) std::swap(idx[i], idx[j]);
    std::vector<double> so(n);
    Mat U(A.r, n), W(n, n);
    for (int j = 0; j < n; j++) {
        so[j] = s[idx[j]];
        for (int k = 0; k < A.r; k++) U(k, j) = so[j] > 0 ? A(k, idx[j]) / so[j] : 0;
        for (int k = 0; k < n; k++) W(k, j) = Vv(k, idx[j]);
    }
    if (Uout) *Uout = U;
    if (Vout) *Vout = W;
    return so;   // n values; those beyond the rank are ~0
}
// minimum-norm least squares with singular values <= cut treated as zero; lambda > 0 damps
inline Mat pinv(const Mat& A, double cut, double lambda = 0) {
    Mat U, W; std::vector<double> s = svals(A, &U, &W);
    Mat r(A.c, A.r);
    for (int k = 0; k < A.c; k++) {
        if (s[k] <= cut) continue;
        double g = s[k] / (s[k] * s[k] + lambda * lambda);
        for (int i = 0; i < A.c; i++) for (int j = 0; j < A.r; j++) r(i, j) += W(i, k) * g * U(j, k);
    }
    return r;
}
inline Mat solve(Mat A, Mat b) {   // Gauss with partial pivoting
    int n = A.r;
    for (int k = 0; k < n; k++) {
        int p = k; for (int i = k + 1; i < n; i++) if (std::fabs(A(i, k)) > std::fabs(A(p, k))) p = i;
        for (int j = 0; j < n; j++) std::swap(A(k, j), A(p, j));
        for (int j = 0; j < b.c; j++) std::swap(b(k, j), b(p, j));
        for (int i = k + 1; i < n; i++) {
            double f = A(i, k) / A(k, k);
            for (int j = k; j < n; j++) A(i, j) -= f * A(k, j);
            for (int j = 0; j < b.c; j++) b(i, j) -= f * b(k, j);
        }
    }
    Mat x(n, b.c);
    for (int j = 0; j < b.c; j++) for (int i = n - 1; i >= 0; i--) { double s = b(i, j); for (int k = i + 1; k < n; k++) s -= A(i, k) * x(k, j); x(i, j) = s / A(i, i); }
    return x;
}
}  // namespace ref
