#include "mc.hpp"
#include "ref.hpp"
#include <utilities/rall1d.h>
#include <utilities/rall2d.h>
using ref::Jet;
namespace R {
typedef KDL::Rall1d<double> One; typedef KDL::Rall2d<double> Two;
typedef KDL::Rall1d<One, One, double> Nest;       // first derivative of a first derivative
typedef KDL::Rall2d<One, One, double> Mixed;      // second derivative carrying another first one
template <class T> struct B;
template <> struct B<One> { static One mk(Jet a) { return One(a.x, a.d); } static int get(const One& a, double* o) { o[0] = a.t; o[1] = a.grad; return 2; } static int want(Jet a, double* o) { o[0] = a.x; o[1] = a.d; return 2; } };
template <> struct B<Two> { static Two mk(Jet a) { return Two(a.x, a.d, a.e); } static int get(const Two& a, double* o) { o[0] = a.t; o[1] = a.d; o[2] = a.dd; return 3; } static int want(Jet a, double* o) { o[0] = a.x; o[1] = a.d; o[2] = a.e; return 3; } };
template <> struct B<Nest> { static Nest mk(Jet a) { return Nest(One(a.x, a.d), One(a.d, a.e)); } static int get(const Nest& a, double* o) { o[0] = a.t.t; o[1] = a.t.grad; o[2] = a.grad.t; o[3] = a.grad.grad; return 4; } static int want(Jet a, double* o) { o[0] = a.x; o[1] = o[2] = a.d; o[3] = a.e; return 4; } };
// inner derivative is along the same parameter, so only the parts up to the second derivative are known from a jet
template <> struct B<Mixed> { static Mixed mk(Jet a) { return Mixed(One(a.x, a.d), One(a.d, a.e), One(a.e, 0)); } static int get(const Mixed& a, double* o) { o[0] = a.t.t; o[1] = a.t.grad; o[2] = a.d.t; o[3] = a.d.grad; o[4] = a.dd.t; return 5; } static int want(Jet a, double* o) { o[0] = a.x; o[1] = o[2] = a.d; o[3] = o[4] = a.e; return 5; } };
}
using namespace R;
static Jet sqr(Jet a) { return a * a; }
static Jet hyp(Jet y, Jet x) { return ref::sqrt(x * x + y * y); }
static Jet atan2j(Jet y, Jet x) {   // derivative of the angle of (x, y)
    Jet v = x * x + y * y; double d = (x.x * y.d - y.x * x.d) / v.x, n1 = x.x * y.e - y.x * x.e;
    return Jet(std::atan2(y.x, x.x), d, (n1 - d * v.d) / v.x);
}
template <class T> bool same(const T& a, Jet b, const std::string& key, double scale = 1) {
    double x[6], y[6]; int n = B<T>::get(a, x); B<T>::want(b, y);
    double m = std::max(1.0, scale); for (int i = 0; i < n; i++) m = std::max(m, fabs(y[i]));
    return mc::nearv(x, y, n, 1e-12 * m, key, "value and derivatives");
}
static const int NU = 16;
static const char* UN[NU] = {"exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "sqr", "pow 2.5", "pow -2", "sqrt", "atan", "asin", "acos", "abs"};
static bool in_domain(int f, double x) {
    switch (f) {
        case 0: case 5: case 6: case 7: return fabs(x) < 4;
        case 1: case 9: case 11: return x > 0.05;
        case 4: return fabs(std::cos(x)) > 0.1;
        case 10: case 15: return fabs(x) > 0.1;
        case 13: case 14: return fabs(x) < 0.95;
        default: return true;
    }
}
template <class T> T un(int f, const T& a) {
    switch (f) { case 0: return exp(a); case 1: return log(a); case 2: return sin(a); case 3: return cos(a); case 4: return tan(a); case 5: return sinh(a); case 6: return cosh(a); case 7: return tanh(a); case 8: return sqr(a);
        case 9: return pow(a, 2.5); case 10: return pow(a, -2.0); case 11: return sqrt(a); case 12: return atan(a); case 13: return asin(a); case 14: return acos(a); default: return abs(a); }
}
static Jet unj(int f, Jet a) {
    using namespace ref;
    switch (f) { case 0: return exp(a); case 1: return log(a); case 2: return sin(a); case 3: return cos(a); case 4: return tan(a); case 5: return sinh(a); case 6: return cosh(a); case 7: return tanh(a); case 8: return ::sqr(a);
        case 9: return pow(a, 2.5); case 10: return pow(a, -2.0); case 11: return sqrt(a); case 12: return atan(a); case 13: return asin(a); case 14: return acos(a); default: return a.x < 0 ? -a : a; }
}
static const Jet START[] = {Jet(0.4, 1, 0), Jet(-0.7, 0.5, -1.2), Jet(2, -1.5, 0.6), Jet(0.9, 0, 2), Jet(-1.6, 2, 0), Jet(0.1, -3, 5)};
static const double SC[] = {2, -0.5, 1, 3.7};
// all sequences of compound assignments, assignments from binary operators and functions on two variables
template <class T> void run(int quick, int deep) {
    Jet a = mc::pick(START, "a"), b = mc::pick(START, "b"); T A = B<T>::mk(a), C = B<T>::mk(b); same(A, a, "constructor");
    int depth = mc::tiered(quick, deep); double err = 1;   // growth of rounding errors
    for (int n = 0; n < depth; n++) {
        int op = mc::choose(21 + NU, "operation"); double s = SC[n % 4]; const char* nm = ""; mc::step();
        { double q = std::max(std::max(fabs(a.d), fabs(b.d)), std::sqrt(std::max(fabs(a.e), fabs(b.e)))), lo = std::min(1.0, std::min(fabs(a.x), fabs(b.x))); if (lo > 0) q /= lo; err = std::max(err, (1 + std::min(q, 1e4)) * (1 + std::min(q, 1e4))); }
        if (((op == 3 || op == 20) && fabs(b.x) < 0.05) || ((op == 7 || op == 17) && fabs(a.x) < 0.05)) return;
        switch (op) {
            case 0: A += C; a = a + b; nm = "plus-assign"; break;
            case 1: A -= C; a = a - b; nm = "minus-assign"; break;
            case 2: A *= C; a = a * b; nm = "times-assign"; break;
            case 3: A /= C; a = a / b; nm = "divide-assign"; break;
            case 4: A += A; a = a + a; nm = "plus-assign itself"; break;
            case 5: A -= A; a = a - a; nm = "minus-assign itself"; break;
            case 6: A *= A; a = a * a; nm = "times-assign itself"; break;
            case 7: A /= A; a = a / a; nm = "divide-assign itself"; break;
            case 8: A += s; a = a + Jet(s); nm = "plus-assign scalar"; break;
            case 9: A -= s; a = a - Jet(s); nm = "minus-assign scalar"; break;
            case 10: A *= s; a = a * Jet(s); nm = "times-assign scalar"; break;
            case 11: A /= s; a = a * Jet(1 / s); nm = "divide-assign scalar"; break;
            case 12: A = C * A; a = b * a; nm = "product"; break;
            case 13: A = A + C; a = a + b; nm = "sum"; break;
            case 14: A = s - A; a = Jet(s) - a; nm = "scalar minus"; break;
            case 15: A = -A; a = -a; nm = "negation"; break;
            case 16: std::swap(A, C); std::swap(a, b); nm = "exchange"; break;
            case 17: A = s / A; a = Jet(s) / a; nm = "scalar by"; break;
            case 18: if (hyp(b, a).x < 0.05) return; A = hypot(C, A); a = hyp(b, a); nm = "hypot"; break;
            case 19: if (hyp(b, a).x < 0.05) return; A = atan2(C, A); a = atan2j(b, a); nm = "atan2"; break;
            case 20: A = A / C; a = a / b; nm = "quotient"; break;
            default: if (!in_domain(op - 21, a.x)) return; A = un(op - 21, A); a = unj(op - 21, a); nm = UN[op - 21];
        }
        if (!(fabs(a.x) < 1e4 && fabs(a.d) < 1e5 && fabs(a.e) < 1e7)) return;
        if (!same(A, a, std::string("after ") + nm, err)) return;
        
        same(C, b, std::string("other variable after ") + nm, err);
        double x[6]; mc::state(x, B<T>::get(A, x));
    }
}
SCENARIO_SPLIT(first_order, 3) { run<One>(3, 4); }
SCENARIO_SPLIT(second_order, 3) { run<Two>(3, 4); }
SCENARIO_SPLIT(nested, 3) { run<Nest>(2, 3); }
SCENARIO_SPLIT(mixed_nesting, 3) { run<Mixed>(2, 3); }
// every binary operator with every mixture of operands agrees with the compound form
template <class T> void ops() {
    Jet a = mc::pick(START, "a"), b = mc::pick(START, "b"); double s = mc::pick(SC, "s"); T A = B<T>::mk(a), C = B<T>::mk(b); mc::step(20);
    same(A + C, a + b, "sum"); same(A - C, a - b, "difference"); same(A * C, a * b, "product"); same(A / C, a / b, "quotient"); same(-A, -a, "negated");
    same(A + s, a + Jet(s), "plus scalar"); same(s + A, a + Jet(s), "scalar plus"); same(A - s, a - Jet(s), "minus scalar"); same(s - A, Jet(s) - a, "scalar minus");
    same(A * s, a * Jet(s), "times scalar"); same(s * A, a * Jet(s), "scalar times"); same(A / s, a * Jet(1 / s), "by scalar"); same(s / A, Jet(s) / a, "scalar by");
    T z = A; z = s; same(z, Jet(s), "assigned scalar"); z = C; same(z, b, "assigned"); z = z; same(z, b, "self assigned");
    same(T::Zero(), Jet(), "Zero"); same(T::Identity(), Jet(1), "Identity"); z = A; SetToZero(z); same(z, Jet(), "SetToZero"); z = A; SetToIdentity(z); same(z, Jet(1), "SetToIdentity"); same(T(), Jet(), "default");
    mc::near(Norm(A), fabs(a.x), 0, "Norm"); mc::check(Equal(A, A, 1e-9), "Equal to itself", "not equal"); mc::check((A == A) && !(A != A), "operator equal to itself", "not equal");
    T A0 = A; T d = A; d += C; T e = A + C; mc::check(Equal(d, e, 1e-9), "compound sum agrees with operator", "+"); (void)A0;
    double x[6]; mc::state(x, B<T>::get(A / C, x));
}
SCENARIO_SPLIT(operators_first, 1) { ops<One>(); }
SCENARIO_SPLIT(operators_second, 1) { ops<Two>(); }
SCENARIO_SPLIT(operators_nested, 1) { ops<Nest>(); }
SCENARIO_SPLIT(operators_mixed, 1) { ops<Mixed>(); }
// linear combinations
template <class T> void lin() {
    Jet a = mc::pick(START, "a"), b = mc::pick(START, "b"); double s = mc::pick(SC, "s"), t = mc::pick(SC, "t"); T A = B<T>::mk(a), C = B<T>::mk(b), r; mc::step(2);
    Jet w = Jet(s) * a + Jet(t) * b; same(LinComb(s, A, t, C), w, "LinComb"); LinCombR(s, A, t, C, r); same(r, w, "LinCombR"); double x[6]; mc::state(x, B<T>::get(r, x));
}
SCENARIO_SPLIT(linear_first, 1) { lin<One>(); }
SCENARIO_SPLIT(linear_second, 1) { lin<Two>(); }
// single components: equality sees each
template <class T> void eqs() {
    Jet a = mc::pick(START, "a"); int c = mc::choose(3, "component"); static const double df[] = {0.5e-3, -0.5e-3, 2e-3, -2e-3, 50}; double d = mc::pick(df, "change"); Jet b = a; mc::step();
    if (c == 2 && sizeof(T) == sizeof(One)) return;
    (c == 0 ? b.x : c == 1 ? b.d : b.e) += d; bool s = fabs(d) < 1e-3; T A = B<T>::mk(a), C = B<T>::mk(b);
    mc::check(Equal(A, C, 1e-3) == s && Equal(C, A, 1e-3) == s, "Equal sees each component", "component %d changed by %g", c, d); mc::check(!(A == C) && A != C, "operator equal sees each component", "component %d changed by %g", c, d); mc::state(mc::fmt("%d %g", c, d));
}
SCENARIO_SPLIT(equality_first, 1) { eqs<One>(); }
SCENARIO_SPLIT(equality_second, 1) { eqs<Two>(); }
SCENARIO_SPLIT(equality_nested, 1) { eqs<Nest>(); }
