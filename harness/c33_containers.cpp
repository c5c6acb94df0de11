// C33: joint-space containers are vector spaces of the right size.
#include "mc.hpp"
#include <jacobian.hpp>
#include <jntarray.hpp>
#include <jntarrayacc.hpp>
#include <jntarrayvel.hpp>
#include <jntspaceinertiamatrix.hpp>
#include <memory>
using namespace KDL;
typedef std::vector<double> Row;
typedef std::vector<Row> Val;   // value, first and second derivative
template <int K> struct T;
template <> struct T<1> { typedef JntArray A; static JntArray& lev(A& a, int) { return a; } };
template <> struct T<2> { typedef JntArrayVel A; static JntArray& lev(A& a, int k) { return k ? a.qdot : a.q; } };
template <> struct T<3> { typedef JntArrayAcc A; static JntArray& lev(A& a, int k) { return k == 2 ? a.qdotdot : k ? a.qdot : a.q; } };
static double val(int which, int k, int i) { static const double P[] = {0.5, -1.25, 3, 0, 1e-3, -700, 2.5, 0.125, -0.75, 11, -2e5}; return P[(which * 5 + k * 3 + i * 2 + i / 4) % 11] * (1 + 0.5 * which - 0.25 * k); }
static Val pattern(int K, int n, int which) { Val v(K, Row(n)); for (int k = 0; k < K; k++) for (int i = 0; i < n; i++) v[k][i] = val(which, k, i); return v; }
template <int K> static typename T<K>::A make(const Val& v) { int n = (int)v[0].size(); typename T<K>::A a(n); for (int k = 0; k < K; k++) for (int i = 0; i < n; i++) T<K>::lev(a, k)(i) = v[k][i]; return a; }
static bool close(double a, double b, double sc) { return std::fabs(a - b) <= 1e-13 * sc + 1e-300; }
template <int K> static bool is(typename T<K>::A& a, const Val& v, const char* what, const std::string& at) {
    for (int k = 0; k < K; k++) {
        JntArray& l = T<K>::lev(a, k); int n = (int)v[k].size(); if (!mc::check((int)l.rows() == n && l.columns() == 1 && l.data.rows() == n, "size", "%s (%s): %u for %d", what, at.c_str(), l.rows(), n)) return false;
        double sc = 1e-3; for (auto& r : v) for (double x : r) sc = std::max(sc, std::fabs(x));
        for (int i = 0; i < n; i++) if (!mc::check(close(l(i), v[k][i], sc * 50) && l(i, 0) == l(i) && l.data(i) == l(i), what, "%s: part %d element %d is %.17g instead of %.17g", at.c_str(), k, i, l(i), v[k][i])) return false;
    }
    return true;
}
static Val op(const Val& a, const Val& b, double s) { Val r = a; for (size_t k = 0; k < b.size(); k++) for (size_t i = 0; i < r[k].size(); i++) r[k][i] += s * b[k][i]; return r; }
struct Scalar { double t, d, dd; };
static Val times(const Val& a, Scalar f) { Val r = a; for (size_t i = 0; i < a[0].size(); i++) { double q = a[0][i], v = a.size() > 1 ? a[1][i] : 0, c = a.size() > 2 ? a[2][i] : 0; r[0][i] = q * f.t; if (a.size() > 1) r[1][i] = v * f.t + q * f.d; if (a.size() > 2) r[2][i] = c * f.t + 2 * v * f.d + q * f.dd; } return r; }
static Val over(const Val& a, Scalar f) { double g = 1 / f.t, g1 = -f.d / f.t / f.t, g2 = 2 * f.d * f.d / f.t / f.t / f.t - f.dd / f.t / f.t; return times(a, {g, g1, g2}); }
// ---- the calls: operation, kind of second operand, and which objects are the same
template <int K, int J> struct Call;   // array K with array J
template <int K, int J> static void arrays(int n, const char* name) {
    int sub = mc::choose(2, "operation"), alias = mc::choose(J == K ? 5 : 4, "same objects"); Val a = pattern(K, n, 1), b = pattern(J, n, 2), c = pattern(K, n, 3);
    auto A = make<K>(a); auto B = make<J>(b); auto C = make<K>(c); auto A0 = A; auto B0 = B; std::string at = mc::fmt("%s of %d, operation %d, objects %d", name, n, sub, alias); mc::step();
    auto call = [&](auto& x, auto& y, auto& z) { if (sub) Subtract(x, y, z); else Add(x, y, z); }; double s = sub ? -1 : 1;
    if (alias == 0) { call(A, B, C); is<K>(C, op(a, b, s), "sums and differences", at); is<K>(A, a, "operands are left alone", at); is<J>(B, b, "operands are left alone", at); }
    else if (alias == 1) { call(A, B, A); is<K>(A, op(a, b, s), "sums and differences", at); is<J>(B, b, "operands are left alone", at); }
    else if (alias == 4) { if constexpr (J == K) { call(A, A, A); is<K>(A, op(a, a, s), "sums and differences", at); } }
    else if (alias == 2) { if constexpr (J == K) { call(A, B, B); is<K>(B, op(a, b, s), "sums and differences", at); is<K>(A, a, "operands are left alone", at); } else if constexpr (J == 1) { call(A, C.q, C); is<K>(C, op(a, Val(1, c[0]), s), "sums and differences", at); } }
    else { if constexpr (J == K) { call(A, A, C); is<K>(C, op(a, a, s), "sums and differences", at); } else if constexpr (J == 1) { call(A, A.q, A); is<K>(A, op(a, Val(1, a[0]), s), "sums and differences", at); } }
    mc::state(at);
}
static doubleVel dv(Scalar s) { doubleVel r; r.t = s.t; r.grad = s.d; return r; }
static doubleAcc da(Scalar s) { doubleAcc r; r.t = s.t; r.d = s.d; r.dd = s.dd; return r; }
template <int K> static void scalars(int n, int D, const char* name) {   // D derivatives in the factor
    static const double S[] = {2, -0.5, 1, 0, 3e3}, DS[] = {0, 1, -2.5}, DDS[] = {0, 4, -0.3}; int div = mc::choose(2, "operation"), same = mc::choose(2, "same objects"); Scalar f{S[mc::choose(5, "factor")], D > 0 ? DS[mc::choose(3, "rate")] : 0, D > 1 ? DDS[mc::choose(3, "second rate")] : 0}; if (div && f.t == 0) return;
    Val a = pattern(K, n, 1); auto A = make<K>(a); auto C = make<K>(pattern(K, n, 3)); auto& R = same ? A : C; std::string at = mc::fmt("%s of %d by (%g %g %g), operation %d, same %d", name, n, f.t, f.d, f.dd, div, same); mc::step();
    if (D == 0) { double x = f.t; if (div) Divide(A, x, R); else Multiply(A, x, R); }
    if constexpr (K >= 2) if (D == 1) { if (div) Divide(A, dv(f), R); else Multiply(A, dv(f), R); }
    if constexpr (K == 3) if (D == 2) { if (div) Divide(A, da(f), R); else Multiply(A, da(f), R); }
    is<K>(R, div ? over(a, f) : times(a, f), div ? "quotients" : "multiples", at); if (!same) is<K>(A, a, "operands are left alone", at); mc::state(at);
}
static const int N = 9;
SCENARIO(sums) {
    int n = mc::choose(mc::tiered(N, 17), "size");
    switch (mc::choose(6, "types")) { case 0: arrays<1, 1>(n, "array + array"); break; case 1: arrays<2, 2>(n, "vel + vel"); break; case 2: arrays<2, 1>(n, "vel + array"); break; case 3: arrays<3, 3>(n, "acc + acc"); break; case 4: arrays<3, 2>(n, "acc + vel"); break; default: arrays<3, 1>(n, "acc + array"); }
}
SCENARIO(multiples) {
    int n = mc::choose(mc::tiered(N, 17), "size");
    switch (mc::choose(6, "types")) { case 0: scalars<1>(n, 0, "array"); break; case 1: scalars<2>(n, 0, "vel"); break; case 2: scalars<2>(n, 1, "vel, rate"); break; case 3: scalars<3>(n, 0, "acc"); break; case 4: scalars<3>(n, 1, "acc, rate"); break; default: scalars<3>(n, 2, "acc, two rates"); }
}
// ---- making, copying, emptying
template <int K> static void life(int n) {
    typedef typename T<K>::A X; std::string at = mc::fmt("%d parts of %d", K, n); Val z(K, Row(n, 0.0)), a = pattern(K, n, 1); mc::step();
    X e; Val none(K, Row()); is<K>(e, none, "nothing by default", at); X e2(e); is<K>(e2, none, "empty ones can be copied", at); X e3(n); e3 = e; is<K>(e3, none, "empty ones can be copied", at); SetToZero(e); is<K>(e, none, "nothing by default", at);
    { X junk(make<K>(a)); (void)junk; }   // leaves memory that is not zero behind
    X x(n); is<K>(x, z, "starts at zero", at); X y = make<K>(a); is<K>(y, a, "elements are kept", at);
    X c(y); x = y; is<K>(c, a, "copies", at); is<K>(x, a, "assigned", at); for (int k = 0; k < K; k++) for (int i = 0; i < n; i++) T<K>::lev(y, k)(i) = 9; is<K>(c, a, "copies are independent", at); is<K>(x, a, "copies are independent", at); { X& self = c; c = self; } is<K>(c, a, "assigned", at);
    SetToZero(c); is<K>(c, z, "set to zero", at); is<K>(x, a, "copies are independent", at);
    if constexpr (K >= 2) { JntArray v = x.value(), d = x.deriv(); is<1>(v, Val(1, a[0]), "value and derivative parts", at); is<1>(d, Val(1, a[1]), "value and derivative parts", at); JntArray q = x.q; X from(q); Val w = z; w[0] = a[0]; is<K>(from, w, "made of parts", at); X two(x.q, x.qdot); w[1] = a[1]; is<K>(two, w, "made of parts", at); }
    if constexpr (K == 3) { JntArray d = x.dderiv(); is<1>(d, Val(1, a[2]), "value and derivative parts", at); X three(x.q, x.qdot, x.qdotdot); is<3>(three, a, "made of parts", at); }
    for (int m = 0; m < mc::tiered(N, 17); m++) {   // a new size: old elements or zero, the others zero
        X r = x; r.resize(m); for (int k = 0; k < K; k++) { JntArray& l = T<K>::lev(r, k); if (!mc::check((int)l.rows() == m, "size", "%s: %u after resizing to %d", at.c_str(), l.rows(), m)) break; for (int i = 0; i < m; i++) mc::check(l(i) == 0 || (i < n && l(i) == a[k][i]), "new elements are zero", "%s: element %d is %g after resizing to %d", at.c_str(), i, l(i), m); }
    }
    mc::state(at);
}
SCENARIO(lives) { int n = mc::choose(mc::tiered(N, 17), "size"); switch (mc::choose(3, "parts")) { case 0: life<1>(n); break; case 1: life<2>(n); break; default: life<3>(n); } }
// ---- equality: one element off by more or less than the tolerance, or another size
template <int K> static void equal(int n) {
    typedef typename T<K>::A X; Val a = pattern(K, n, mc::choose(2, "values")); X x = make<K>(a), y = make<K>(a); std::string at = mc::fmt("%d parts of %d", K, n); mc::step();
    mc::check(Equal(x, y) && Equal(x, x, 1e-12), "equal", "%s", at.c_str()); X e; mc::check(Equal(e, X()), "equal", "empty"); for (int m = 0; m < N; m++) if (m != n) mc::check(!Equal(x, X(m)) && !Equal(X(m), x), "sizes are compared", "%s with %d", at.c_str(), m);
    if constexpr (K == 1) { mc::check(x == y, "equal", "%s", at.c_str()); if (n) { y(n - 1) += 1; mc::check(!(x == y), "each element is compared", "%s", at.c_str()); y(n - 1) -= 1; } }
    static const double EPS[] = {1e-12, 1e-6, 0.5, 40};
    for (int k = 0; k < K; k++) for (int i = 0; i < n; i++) for (double eps : EPS) for (double s : {-1.0, 1.0}) {
        double base = a[k][i]; if (std::fabs(base) > 1e4 * eps * 1e8) continue; double noise = 4e-16 * std::fabs(base);
        T<K>::lev(y, k)(i) = base + s * (0.9 * eps); bool in = Equal(x, y, eps) && Equal(y, x, eps); T<K>::lev(y, k)(i) = base + s * 1.1 * eps; bool out = !Equal(x, y, eps) && !Equal(y, x, eps); T<K>::lev(y, k)(i) = base; if (noise > 0.05 * eps) continue;
        mc::check(in && out, "each element is compared", "%s: part %d element %d at %g", at.c_str(), k, i, eps);
    }
    mc::state(at);
}
SCENARIO(equality) { int n = mc::choose(N, "size"); switch (mc::choose(3, "parts")) { case 0: equal<1>(n); break; case 1: equal<2>(n); break; default: equal<3>(n); } }
// ---- sequences of operations on three arrays
template <int K> static void sequence(int n, int depth) {
    typedef typename T<K>::A X; X r[2] = {make<K>(pattern(K, n, 1)), make<K>(pattern(K, n, 2))}; Val v[2] = {pattern(K, n, 1), pattern(K, n, 2)}; JntArray b = make<1>(pattern(1, n, 4)); Val bv = pattern(1, n, 4); Scalar f{-0.5, 0.7, 0.2}; std::string at = mc::fmt("%d parts of %d:", K, n);
    for (int s = 0; s < depth; s++) {
        int o = mc::choose(7, "operation"), d = mc::choose(2, "result"), x = o < 5 ? mc::choose(2, "operand") : 0; at += mc::fmt(" %d:%d:%d", o, d, x); mc::step();
        switch (o) {
        case 0: Add(r[x], r[1], r[d]); v[d] = op(v[x], v[1], 1); break; case 1: Subtract(r[x], r[0], r[d]); v[d] = op(v[x], v[0], -1); break;
        case 2: if constexpr (K == 1) { Multiply(r[x], f.t, r[d]); v[d] = times(v[x], {f.t, 0, 0}); } else { Multiply(r[x], dv(f), r[d]); v[d] = times(v[x], {f.t, f.d, 0}); } break;
        case 3: if constexpr (K == 3) { Divide(r[x], da(f), r[d]); v[d] = over(v[x], f); } else { Divide(r[x], f.t, r[d]); v[d] = over(v[x], {f.t, 0, 0}); } break;
        case 4: Add(r[x], b, r[d]); v[d] = op(v[x], bv, 1); break; case 5: SetToZero(r[d]); v[d] = Val(K, Row(n, 0.0)); break; case 6: r[d] = r[1 - d]; v[d] = v[1 - d]; break;
        }
    }
    double sc = 1; for (auto& w : v) for (auto& q : w) for (double y : q) sc = std::max(sc, std::fabs(y)); (void)sc;
    is<K>(r[0], v[0], "sequence", at); is<K>(r[1], v[1], "sequence", at); is<1>(b, bv, "operands are left alone", at); mc::state(at);
}
SCENARIO_SPLIT(sequences, 5) { static const int S[] = {1, 3, 7}; int n = S[mc::choose(mc::tiered(2, 3), "size")], K = mc::choose(3, "parts"), d = mc::tiered(3, 4); if (K == 0) sequence<1>(n, d); else if (K == 1) sequence<2>(n, d); else sequence<3>(n, d); }
// ---- inertia matrices
static JntSpaceInertiaMatrix im(int n, int which) { JntSpaceInertiaMatrix m(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) m(i, j) = val(which, j, i) + 0.01 * i; return m; }
static double imv(int which, int i, int j) { return val(which, j, i) + 0.01 * i; }
template <class F> static void mis(const JntSpaceInertiaMatrix& m, int n, F f, const char* what, const std::string& at) { if (!mc::check((int)m.rows() == n && (int)m.columns() == n && m.data.rows() == n && m.data.cols() == n, "size", "%s (%s): %u by %u", what, at.c_str(), m.rows(), m.columns())) return; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (!mc::check(close(m(i, j), f(i, j), 1e7) && m.data(i, j) == m(i, j), what, "%s: (%d,%d) is %.17g instead of %.17g", at.c_str(), i, j, m(i, j), f(i, j))) return; }
SCENARIO(inertias) {
    int n = mc::choose(mc::tiered(N, 13), "size"), what = mc::choose(5, "operation"), same = mc::choose(4, "same objects"); JntSpaceInertiaMatrix A = im(n, 1), B = im(n, 2), C = im(n, 3), D(A); auto& R = same == 0 ? C : same == 1 ? A : same == 2 ? B : A; std::string at = mc::fmt("inertia of %d, operation %d, objects %d", n, what, same); mc::step(); double f = -2.5;
    auto a = [](int i, int j) { return imv(1, i, j); }; auto b = [](int i, int j) { return imv(2, i, j); };
    if (what == 0) { Add(A, same == 3 ? A : B, R); mis(R, n, [&](int i, int j) { return a(i, j) + (same == 3 ? a(i, j) : b(i, j)); }, "sums and differences", at); }
    if (what == 1) { Subtract(A, same == 3 ? A : B, R); mis(R, n, [&](int i, int j) { return a(i, j) - (same == 3 ? a(i, j) : b(i, j)); }, "sums and differences", at); }
    if (what == 2) { Multiply(A, f, R); mis(R, n, [&](int i, int j) { return a(i, j) * f; }, "multiples", at); }
    if (what == 3) { Divide(A, f, R); mis(R, n, [&](int i, int j) { return a(i, j) / f; }, "quotients", at); }
    if (what == 4) { JntArray v = make<1>(pattern(1, n, 5)), o = make<1>(pattern(1, n, 6)); Multiply(A, v, o); Val w(1, Row(n)); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) w[0][i] += a(i, j) * val(5, 0, j); double sc = 1; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) sc = std::max(sc, std::fabs(a(i, j) * val(5, 0, j))); for (int i = 0; i < n; i++) mc::check((int)o.rows() == n && close(o(i), w[0][i], sc * 20), "products", "%s: %g instead of %g", at.c_str(), o(i), w[0][i]); is<1>(v, pattern(1, n, 5), "operands are left alone", at); }
    if (&R != &A) mis(A, n, a, "operands are left alone", at); if (&R != &B) mis(B, n, b, "operands are left alone", at); mis(D, n, a, "copies are independent", at); mc::state(at);
}
SCENARIO(inertia_lives) {
    int n = mc::choose(N, "size"); std::string at = mc::fmt("inertia of %d", n); auto zero = [](int, int) { return 0.0; }; auto a = [](int i, int j) { return imv(1, i, j); }; mc::step(); { JntSpaceInertiaMatrix junk = im(n, 1); }
    JntSpaceInertiaMatrix e, e2(e), x(n); mis(e, 0, zero, "nothing by default", at); mis(e2, 0, zero, "empty ones can be copied", at); mis(x, n, zero, "starts at zero", at); JntSpaceInertiaMatrix y = im(n, 1), c(y); x = y; mis(x, n, a, "assigned", at); SetToZero(y); mis(y, n, zero, "set to zero", at); mis(c, n, a, "copies are independent", at); x = e; mis(x, 0, zero, "empty ones can be copied", at);
    for (int m = 0; m < N; m++) { JntSpaceInertiaMatrix r = im(n, 1); r.resize(m); if (!mc::check((int)r.rows() == m && (int)r.columns() == m, "size", "%s resized to %d", at.c_str(), m)) continue; for (int i = 0; i < m; i++) for (int j = 0; j < m; j++) mc::check(r(i, j) == 0 || (i < n && j < n && r(i, j) == c(i, j)), "new elements are zero", "%s: (%d,%d) is %g after resizing to %d", at.c_str(), i, j, r(i, j), m); mc::check(m == n || (!Equal(c, r) && !Equal(r, c)), "sizes are compared", "%s", at.c_str()); }
    JntSpaceInertiaMatrix d = im(n, 1); mc::check(Equal(c, d) && c == d, "equal", "%s", at.c_str());
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (double eps : {1e-6, 0.5}) for (double s : {-1.0, 1.0}) { d(i, j) = a(i, j) + s * 0.9 * eps; bool in = Equal(c, d, eps) && Equal(d, c, eps); d(i, j) = a(i, j) + s * 1.1 * eps; bool out = !Equal(c, d, eps) && !Equal(d, c, eps) && !(c == d); d(i, j) = a(i, j); mc::check(in && out, "each element is compared", "%s: (%d,%d) at %g", at.c_str(), i, j, eps); }
    mc::state(at);
}
// ---- Jacobians
static Jacobian jac(int n, int which) { Jacobian J(n); for (int j = 0; j < n; j++) for (int i = 0; i < 6; i++) J(i, j) = val(which, i, j); return J; }
template <class F> static void jis(const Jacobian& J, int n, F f, const char* what, const std::string& at, double sc = 1e6) {
    if (!mc::check(J.rows() == 6 && (int)J.columns() == n, "size", "%s (%s): %u by %u", what, at.c_str(), J.rows(), J.columns())) return;
    for (int j = 0; j < n; j++) { Twist t = J.getColumn(j); for (int i = 0; i < 6; i++) if (!mc::check(close(J(i, j), f(i, j), sc) && t(i) == J(i, j) && J.data(i, j) == J(i, j), what, "%s: (%d,%d) is %.17g instead of %.17g", at.c_str(), i, j, J(i, j), f(i, j))) return; }
}
SCENARIO(jacobians) {
    int n = mc::choose(mc::tiered(N, 13), "columns"); std::string at = mc::fmt("jacobian of %d", n); auto zero = [](int, int) { return 0.0; }; auto a = [](int i, int j) { return val(1, i, j); }; mc::step(); { Jacobian junk = jac(n, 1); }
    Jacobian e, e2(e), x(n); jis(e2, 0, zero, "empty ones can be copied", at); jis(x, n, zero, "starts at zero", at); Jacobian y = jac(n, 1), c(y); jis(y, n, a, "elements are kept", at); x = y; jis(x, n, a, "assigned", at); SetToZero(y); jis(y, n, zero, "set to zero", at); jis(c, n, a, "copies are independent", at);
    for (int j = 0; j < n; j++) { Jacobian s = jac(n, 1); Twist t(Vector(1, 2, 3), Vector(-4, 5, -6)); s.setColumn(j, t); jis(s, n, [&](int i, int k) { return k == j ? t(i) : a(i, k); }, "columns", at); mc::check(s != c && !(s == c), "each element is compared", "%s", at.c_str()); s.setColumn(j, c.getColumn(j)); mc::check(s == c && !(s != c), "equal", "%s", at.c_str()); }
    for (int m = 0; m < N; m++) { Jacobian r = jac(n, 1); r.resize(m); mc::check(r.rows() == 6 && (int)r.columns() == m, "size", "%s resized to %d", at.c_str(), m); if (m != n) { Jacobian z(m); mc::check(!Equal(c, z) && !Equal(z, c), "sizes are compared", "%s", at.c_str()); } }
    Jacobian d = jac(n, 1); mc::check(Equal(c, d), "equal", "%s", at.c_str());
    for (int j = 0; j < n; j++) for (int i = 0; i < 6; i++) for (double eps : {1e-6, 0.5}) for (double s : {-1.0, 1.0}) { d(i, j) = a(i, j) + s * 0.9 * eps; bool in = Equal(c, d, eps) && Equal(d, c, eps); d(i, j) = a(i, j) + s * 1.1 * eps; bool out = !Equal(c, d, eps) && !Equal(d, c, eps); d(i, j) = a(i, j); mc::check(in && out, "each element is compared", "%s: (%d,%d) at %g", at.c_str(), i, j, eps); }
    mc::state(at);
}
// a change of reference: each column by itself, in place, into another or into itself; the wrong size is refused
SCENARIO(references) {
    int n = mc::choose(N, "columns"), what = mc::choose(3, "change"), how = mc::choose(4, "where to"); Jacobian J = jac(n, 1), R = jac(n, 2); Vector p(0.3, -1, 2); Rotation M = Rotation::RPY(0.3, -0.5, 1.2); Frame F(M, p); std::string at = mc::fmt("jacobian of %d, change %d, to %d", n, what, how); mc::step();
    double m[3][3]; for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) m[i][k] = M(i, k);
    auto want = [&](int i, int j) { double v[3], w[3], o[6]; for (int k = 0; k < 3; k++) v[k] = val(1, k, j), w[k] = val(1, k + 3, j);
        if (what == 0) { for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, b = (k + 2) % 3; o[k] = v[k] + w[a] * p(b) - w[b] * p(a); o[k + 3] = w[k]; } }
        else { double V[3] = {0, 0, 0}, W[3] = {0, 0, 0}; for (int r = 0; r < 3; r++) for (int k = 0; k < 3; k++) V[r] += m[r][k] * v[k], W[r] += m[r][k] * w[k]; for (int k = 0; k < 3; k++) { int a = (k + 1) % 3, b = (k + 2) % 3; o[k] = V[k] + (what == 2 ? p(a) * W[b] - p(b) * W[a] : 0); o[k + 3] = W[k]; } }
        return o[i]; };
    auto same = [](int i, int j) { return val(1, i, j); };
    auto call = [&](const Jacobian& s, Jacobian& d) { return what == 0 ? changeRefPoint(s, p, d) : what == 1 ? changeBase(s, M, d) : changeRefFrame(s, F, d); };
    if (how == 0) { if (what == 0) J.changeRefPoint(p); else if (what == 1) J.changeBase(M); else J.changeRefFrame(F); jis(J, n, want, "change of reference", at, 1e8); }
    else if (how == 1) { mc::check(call(J, R), "change of reference", "%s: refused", at.c_str()); jis(R, n, want, "change of reference", at, 1e8); jis(J, n, same, "operands are left alone", at); }
    else if (how == 2) { mc::check(call(J, J), "change of reference", "%s: refused", at.c_str()); jis(J, n, want, "change of reference", at, 1e8); }
    else for (int k = 0; k < N; k++) if (k != n) { Jacobian W = jac(k, 3); mc::check(!call(J, W), "other sizes are refused", "%s: %d", at.c_str(), k); jis(W, k, [](int i, int j) { return val(3, i, j); }, "other sizes are refused", at); }
    mc::state(at);
}
SCENARIO(jacobian_products) {
    int n = mc::choose(mc::tiered(N, 17), "columns"), which = mc::choose(4, "values"); Jacobian J = jac(n, which); JntArray q = make<1>(pattern(1, n, which + 1)); Twist t(Vector(7, 7, 7), Vector(7, 7, 7)); mc::step(); MultiplyJacobian(J, q, t);
    for (int i = 0; i < 6; i++) { double w = 0, sc = 1; for (int j = 0; j < n; j++) { double x = val(which, i, j) * val(which + 1, 0, j); w += x; sc = std::max(sc, std::fabs(x)); } mc::check(close(t(i), w, sc * 20), "products", "%d columns: element %d is %g instead of %g", n, i, t(i), w); }
    mc::state(mc::fmt("product %d %d", n, which));
}
