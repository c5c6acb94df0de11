#include "annot.hpp"
using namespace kin;
#include <utility>
using KDL::Equal;
struct Restore { double e; Restore() : e(KDL::epsilon) {} ~Restore() { KDL::epsilon = e; } };
// components of each type
typedef std::vector<double*> P;
static void c(KDL::Vector& a, P& o) { for (int i = 0; i < 3; i++) o.push_back(&a.data[i]); }
static void c(KDL::Rotation& a, P& o) { for (int i = 0; i < 9; i++) o.push_back(&a.data[i]); }
static void c(KDL::Frame& a, P& o) { c(a.M, o); c(a.p, o); }
static void c(KDL::Twist& a, P& o) { c(a.vel, o); c(a.rot, o); }
static void c(KDL::Wrench& a, P& o) { c(a.force, o); c(a.torque, o); }
static void c(KDL::Vector2& a, P& o) { for (int i = 0; i < 2; i++) o.push_back(&a(i)); }
static void c(KDL::doubleVel& a, P& o) { o.push_back(&a.t); o.push_back(&a.grad); }
static void c(KDL::VectorVel& a, P& o) { c(a.p, o); c(a.v, o); }
static void c(KDL::RotationVel& a, P& o) { c(a.R, o); c(a.w, o); }
static void c(KDL::FrameVel& a, P& o) { c(a.M, o); c(a.p, o); }
static void c(KDL::TwistVel& a, P& o) { c(a.vel, o); c(a.rot, o); }
static void c(KDL::doubleAcc& a, P& o) { o.push_back(&a.t); o.push_back(&a.d); o.push_back(&a.dd); }
static void c(KDL::VectorAcc& a, P& o) { c(a.p, o); c(a.v, o); c(a.dv, o); }
static void c(KDL::RotationAcc& a, P& o) { c(a.R, o); c(a.w, o); c(a.dw, o); }
static void c(KDL::FrameAcc& a, P& o) { c(a.M, o); c(a.p, o); }
static void c(KDL::TwistAcc& a, P& o) { c(a.vel, o); c(a.rot, o); }
template <class T> P comps(T& a) { P o; c(a, o); return o; }
template <class T, class = void> struct has_eq { static const bool v = false; };
template <class T> struct has_eq<T, std::void_t<decltype(std::declval<const T&>() == std::declval<const T&>())>> { static const bool v = true; };
template <class T, class = void> struct has_hash { static const bool v = false; };
template <class T> struct has_hash<T, std::void_t<decltype(std::hash<T>()(std::declval<const T&>()))>> { static const bool v = true; };
static const double EPS[] = {1e-3, 0.5, 1e-9, 1e-6, 10};
static const double FACT[] = {0, 0.4, 0.99, 1.01, 3, 1e6};
template <class T> T object(int v) {
    T a; int i = 0;
    for (double* x : comps(a)) { i++; *x = v == 0 ? 0 : v == 1 ? 0.3 * i - 1.1 : v == 2 ? (i % 2 ? -7.5 : 100.25) : std::sin(2.0 * i); }
    return a;
}
template <class T> T valid(int v) { return object<T>(v); }
static KDL::Rotation rot(int v) { return v == 0 ? KDL::Rotation() : k(ref::rodrigues(V(0.48, 0.6, 0.64), v == 1 ? 0.9 : v == 2 ? M_PI : -2.3)); }
template <> KDL::Rotation valid<KDL::Rotation>(int v) { return rot(v); }
template <> KDL::Frame valid<KDL::Frame>(int v) { return KDL::Frame(rot(v), object<KDL::Vector>(v)); }
template <> KDL::RotationVel valid<KDL::RotationVel>(int v) { return KDL::RotationVel(rot(v), object<KDL::Vector>(v)); }
template <> KDL::FrameVel valid<KDL::FrameVel>(int v) { return KDL::FrameVel(valid<KDL::RotationVel>(v), object<KDL::VectorVel>(v)); }
template <> KDL::RotationAcc valid<KDL::RotationAcc>(int v) { return KDL::RotationAcc(rot(v), object<KDL::Vector>(v), object<KDL::Vector>(3 - v)); }
template <> KDL::FrameAcc valid<KDL::FrameAcc>(int v) { return KDL::FrameAcc(valid<KDL::RotationAcc>(v), object<KDL::VectorAcc>(v)); }
template <class T> void compare(const T& a, const T& b, bool want, double eps, const char* how) {
    mc::check(Equal(a, b, eps) == want && Equal(b, a, eps) == want, "equality with a tolerance", "%s: Equal gives %d/%d, expected %d", how, (int)Equal(a, b, eps), (int)Equal(b, a, eps), (int)want);
    mc::check(Equal(a, a, eps) && Equal(b, b, eps), "equality is reflexive", "%s", how);
}
template <class T> void type() {
    T a = object<T>(mc::choose(4, "object")), b = a; P q = comps(b), p = comps(a); int n = (int)q.size();
    int i = mc::choose(n, "component"); double eps = mc::pick(EPS, "eps"), d = mc::pick(FACT, "difference") * eps * (mc::flag("negative") ? -1 : 1); mc::step(3);
    *q[i] += d; double diff = fabs(*q[i] - *p[i]); if (fabs(diff - eps) < 0.003 * eps) return;
    std::string how = mc::fmt("component %d of %d differs by %g at tolerance %g", i, n, d, eps); bool want = diff < eps;
    compare(a, b, want, eps, how.c_str());
    if constexpr (has_eq<T>::v) {
        Restore r; bool we = diff < KDL::epsilon;
        if (fabs(diff - KDL::epsilon) > 0.003 * KDL::epsilon) { mc::check((a == b) == we && (b == a) == we, "equality operator uses the default tolerance", "%s", how.c_str()); mc::check((a != b) == !we && (b != a) == !we, "inequality operator is the negation", "%s", how.c_str()); mc::check(Equal(a, b) == we, "default tolerance", "%s", how.c_str()); }
        KDL::epsilon = eps;   // the default tolerance is a variable the user may set
        mc::check((a == b) == want && (a != b) == !want && Equal(a, b) == want, "operators follow the default tolerance", "%s", how.c_str());
        mc::check(a == a && !(a != a), "operator is reflexive", "%s", how.c_str());
    }
    mc::state(mc::fmt("%d %g %g", i, d, eps));
}
// every component differs by a little, one of them by more
template <class T> void many() {
    T a = object<T>(mc::choose(4, "object")), b = a; P q = comps(b); int n = (int)q.size(); int i = mc::choose(n + 1, "component"); double eps = mc::pick(EPS, "eps"); mc::step();
    if (eps == 1e-9) return;
    for (int j = 0; j < n; j++) *q[j] += (j % 2 ? 0.9 : -0.9) * eps;
    if (i < n) *q[i] += (i % 2 ? 0.4 : -0.4) * eps;
    compare(a, b, i == n, eps, mc::fmt("component %d of %d above the tolerance, others below", i, n).c_str()); mc::state(mc::fmt("%d", i));
}
template <class T> void hashes() {
    int v = mc::choose(4, "object"); T a = valid<T>(v), b = a; mc::step(2);
    if constexpr (has_hash<T>::v) {
        std::hash<T> h; mc::check(h(a) == h(b), "copies hash alike", "object %d", v);
        T d; P x = comps(d), y = comps(a); for (size_t i = 0; i < x.size(); i++) *x[i] = *y[i];
        mc::check(h(a) == h(d) && h(a) == h(a), "identical components hash alike", "object %d", v);
        mc::state(mc::fmt("%zu", (size_t)h(a)));
    }
}
#define T1(T) SCENARIO_SPLIT(eq_##T, 3) { type<KDL::T>(); } SCENARIO_SPLIT(many_##T, 2) { many<KDL::T>(); } SCENARIO_SPLIT(hash_##T, 1) { hashes<KDL::T>(); }
T1(Vector) T1(Rotation) T1(Frame) T1(Twist) T1(Wrench) T1(Vector2) T1(doubleVel) T1(VectorVel) T1(RotationVel) T1(FrameVel) T1(TwistVel) T1(doubleAcc) T1(VectorAcc) T1(RotationAcc) T1(FrameAcc) T1(TwistAcc)
// planar rotations hold cosine and sine of one angle
SCENARIO_SPLIT(planar, 2) {
    static const double an[] = {0, 0.4, M_PI / 2, 3, -2.2}; static const double da[] = {0, 1e-9, 1e-7, 1e-4, 0.02, 0.6, M_PI, -M_PI / 2, -1e-4, -1e-7};
    double x = mc::pick(an, "angle"), d = mc::pick(da, "difference"), eps = mc::pick(EPS, "eps"), y = x + d; mc::step(4);
    KDL::Rotation2 a(x), b(y); double m = std::max(fabs(std::cos(x) - std::cos(y)), fabs(std::sin(x) - std::sin(y))); if (fabs(m - eps) < 0.01 * eps) return;
    bool w = m < eps; mc::check(Equal(a, b, eps) == w && Equal(b, a, eps) == w && Equal(a, a, eps), "planar rotation equality", "angles %g %g eps %g", x, y, eps);

    KDL::Vector2 p(1, -2), q(1, -2 + (mc::flag("origin differs too") ? 3 * eps : 0)); bool o = fabs(q(1) - p(1)) < eps; KDL::Frame2 F(a, p), G(b, q);
    mc::check(Equal(F, G, eps) == (w && o) && Equal(G, F, eps) == (w && o), "planar frame equality", "angles %g %g eps %g", x, y, eps);

    KDL::Rotation2 c2 = a; std::hash<KDL::Rotation2> h; std::hash<KDL::Frame2> hf; KDL::Frame2 H = F; mc::check(h(a) == h(c2) && hf(F) == hf(H), "planar copies hash alike", "angle %g", x);
    mc::state(mc::fmt("%g %g %g", x, d, eps));
}
// a plain object equals an annotated one when the values agree and the annotated one does not move
template <class A, class B> void mixed(const char* nm) {
    B b0 = object<B>(mc::choose(4, "object")); P p0 = comps(b0); int n = (int)p0.size(); A a;
    { P q = comps(a); B t; (void)t; }
    // value part of b0 with zero derivatives
    B b(a); { P q = comps(a); int i = 0; for (double* x : q) { i++; *x = 0.3 * i - 1.1; } } b = B(a);
    P p = comps(b); n = (int)p.size(); int i = mc::choose(n, "component"); double eps = mc::pick(EPS, "eps"), d = mc::pick(FACT, "difference") * eps * (mc::flag("negative") ? -1 : 1); double old = *p[i]; mc::step(2);
    *p[i] += d; double diff = fabs(*p[i] - old); if (fabs(diff - eps) < 0.003 * eps) return; bool want = diff < eps;
    mc::check(Equal(a, b, eps) == want && Equal(b, a, eps) == want, std::string("mixed equality ") + nm, "component %d differs by %g at tolerance %g", i, d, eps);
    if (fabs(diff - KDL::epsilon) > 0.003 * KDL::epsilon) if constexpr (!std::is_same<B, KDL::VectorAcc>::value && !std::is_same<B, KDL::RotationAcc>::value && !std::is_same<B, KDL::FrameAcc>::value) { bool w = diff < KDL::epsilon; mc::check((a == b) == w && (b == a) == w && (a != b) == !w && (b != a) == !w, std::string("mixed operators ") + nm, "component %d differs by %g", i, d); }
    mc::state(mc::fmt("%d %g %g", i, d, eps));
}
SCENARIO_SPLIT(mixed_vector, 2) { mixed<KDL::Vector, KDL::VectorVel>("vector"); }
SCENARIO_SPLIT(mixed_rotation, 2) { mixed<KDL::Rotation, KDL::RotationVel>("rotation"); }
SCENARIO_SPLIT(mixed_frame, 2) { mixed<KDL::Frame, KDL::FrameVel>("frame"); }
SCENARIO_SPLIT(mixed_twist, 2) { mixed<KDL::Twist, KDL::TwistVel>("twist"); }
SCENARIO_SPLIT(mixed_vector_acc, 2) { mixed<KDL::Vector, KDL::VectorAcc>("vector with acceleration"); }
SCENARIO_SPLIT(mixed_rotation_acc, 2) { mixed<KDL::Rotation, KDL::RotationAcc>("rotation with acceleration"); }
SCENARIO_SPLIT(mixed_frame_acc, 2) { mixed<KDL::Frame, KDL::FrameAcc>("frame with acceleration"); }
