#include "kin.hpp"
using namespace kin;
using KDL::Frame; using KDL::Rotation; using KDL::Vector; using KDL::Twist; using KDL::Wrench;
using KDL::diff; using KDL::addDelta;
static std::vector<M> rots() {
    std::vector<M> r;
    static const V ax[] = {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(0.6, 0, -0.8), V(0.48, 0.6, 0.64), V(-0.36, 0.48, -0.8)};
    static const double an[] = {0.4, 1.9, M_PI / 2, M_PI};
    r.push_back(M());
    for (auto& a : ax) for (double t : an) { if (!mc::thorough() && t == 1.9 && a[0] > 0.5) continue; r.push_back(ref::rodrigues(a, t)); }
    return r;
}
static const double DT[] = {1, 0.01, 3.5};
static double angle(const M& e) { double co = (e[0][0] + e[1][1] + e[2][2] - 1) / 2; return std::atan2(ref::norm(ref::unskew(e)), co); }
static void pair(const M& A, const M& B, double dt) {
    mc::step(4);
    M D = B * ref::tr(A); double t = angle(D);
    double edge = std::min(t, M_PI - t);
    double tol = edge < 4e-6 ? 5e-6 : 1e-11 + 4e-15 / edge;
    std::string reg = t < 1e-5 ? "nearly equal" : t > M_PI - 1e-5 ? "half turn" : "regular";
    Vector d = diff(k(A), k(B), dt);
    nearM(addDelta(k(A), d, dt), B, tol, "addDelta(a, diff(a,b)) is b:" + reg);
    mc::near(d.Norm() * dt, t, std::max(tol, 1.1e-6), "diff has the angle as its length:" + reg);
    double n = ref::norm(v(d)) * dt;
    if (n > 3e-6) nearM(k(ref::rodrigues((dt / n) * v(d), n)), D, tol, "diff is the rotation vector in the base:" + reg);
    mc::check(n <= M_PI + 1e-9, "diff angle is at most pi", "angle %.17g", n);
    Vector d2 = diff(k(B), k(A), dt);
    if (reg != "half turn") nearV(d2, -v(d), tol / dt * (1 + n), "diff is antisymmetric:" + reg);
    mc::state(d.data, 3);
}
SCENARIO_SPLIT(rotations, 2) {
    auto R = rots(); M a = mc::pick(R, "a"), b = mc::pick(R, "b");
    pair(a, b, mc::pick(DT, "dt"));
}
SCENARIO_SPLIT(near_pairs, 2) {
    auto R = rots(); M a = mc::pick(R, "a");
    static const V ax[] = {V(1, 0, 0), V(0, -1, 0), V(0, 0, 1), V(0.6, 0, -0.8), V(0.48, 0.6, 0.64)};
    static const double e[] = {1e-9, 4e-8, 3e-7, 6e-7, 3e-6, 2e-5, 1e-4, 6e-4, 3e-3, 2e-2, 0.1, M_PI - 0.1, M_PI - 2e-2, M_PI - 3e-3, M_PI - 6e-4, M_PI - 1e-4, M_PI - 2e-5, M_PI - 3e-6, M_PI - 2e-7, M_PI - 4e-8};
    V x = mc::pick(ax, "axis"); double t = mc::pick(e, "angle");
    pair(a, ref::rodrigues(x, t) * a, mc::pick(DT, "dt"));
}
// adding any rotation vector turns the frame by it, in the base, also small ones
SCENARIO_SPLIT(add_rotation, 2) {
    auto R = rots(); M a = mc::pick(R, "a");
    static const V ax[] = {V(1, 0, 0), V(0, -1, 0), V(0, 0, 1), V(0.6, 0, -0.8), V(0.48, 0.6, 0.64), V(-0.8, 0.6, 0)};
    static const double e[] = {0, 1e-8, 1e-7, 4e-7, 9e-7, 2e-6, 3e-5, 2e-4, 1e-3, 7e-3, 5e-2, 0.7, 3, 3.1, M_PI, 3.2, 4.5, 6.2, 7, 20};
    V x = mc::pick(ax, "axis"); double t = mc::pick(e, "angle"), dt = mc::pick(DT, "dt"); mc::step();
    Rotation r = addDelta(k(a), k((t / dt) * x), dt);
    nearM(r, ref::rodrigues(x, t) * a, 3e-10, "addDelta rotates about the base axis", "addDelta(R, da)");
    nearM(KDL::Rot(k(t * x)), ref::rodrigues(x, t), 3e-10, "Rot of a rotation vector");
    mc::state(r.data, 9);
}
static const V P[] = {V(0, 0, 0), V(1, -2, 0.5), V(-30, 4, 700), V(0, 0, 1e-7)};
SCENARIO_SPLIT(linear_types, 3) {
    V a = mc::pick(P, "a"), b = mc::pick(P, "b"), c = mc::pick(P, "c"), d = mc::pick(P, "d"); double dt = mc::pick(DT, "dt"); mc::step(8);
    Vector x = diff(k(a), k(b), dt); nearV(x, (1 / dt) * (b - a), 1e-13, "diff of vectors"); nearV(addDelta(k(a), x, dt), b, 1e-12, "addDelta of vectors");
    nearV(diff(k(b), k(a), dt), -v(x), 0, "vector diff is antisymmetric");
    Twist t1(k(a), k(c)), t2(k(b), k(d)); Twist t = diff(t1, t2, dt);
    nearT(t, (1 / dt) * (b - a), (1 / dt) * (d - c), 1e-13, "diff of twists"); nearT(addDelta(t1, t, dt), b, d, 1e-12, "addDelta of twists");
    Wrench w1(k(a), k(c)), w2(k(b), k(d)); Wrench w = diff(w1, w2, dt);
    nearW(w, (1 / dt) * (b - a), (1 / dt) * (d - c), 1e-13, "diff of wrenches"); nearW(addDelta(w1, w, dt), b, d, 1e-12, "addDelta of wrenches");
    mc::near(diff(a[0], b[1], dt), (b[1] - a[0]) / dt, 1e-13, "diff of doubles"); mc::near(addDelta(a[0], b[1], dt), a[0] + b[1] * dt, 1e-13, "addDelta of doubles");
    mc::state(t.vel.data, 3); mc::state(t.rot.data, 3, 1);
}
SCENARIO_SPLIT(default_step, 2) {
    auto R = rots(); M a = mc::pick(R, "a"), b = mc::pick(R, "b"); V p = P[mc::choose(3, "p")], q = P[mc::choose(3, "q")]; mc::step(4);
    Fr A, B; A.R = a; A.p = p; B.R = b; B.p = q;
    Frame FA = k(A), FB = k(B); double dt = mc::pick(DT, "dt");
    double t0 = angle(b * ref::tr(a)), ed = std::min(t0, M_PI - t0), tol = ed < 4e-6 ? 5e-6 : 1e-11 + 4e-15 / ed;
    Twist t = diff(FA, FB, dt); Vector rd = diff(FA.M, FB.M, dt);
    nearT(t, (1 / dt) * (q - p), v(rd), 1e-13, "diff of frames: origin and rotation");
    nearF(addDelta(FA, t, dt), B, tol, "addDelta(frame, diff) is the other frame");
    if (dt == 1) {
        Twist u = diff(FA, FB); nearT(u, v(t.vel), v(t.rot), 0, "default step of diff is 1"); nearF(addDelta(FA, u), f(addDelta(FA, u, 1.0)), 0, "default step of addDelta is 1");
        nearV(diff(FA.p, FB.p), q - p, 0, "default step"); nearM(addDelta(FA.M, u.rot), B.R, tol, "default step of rotations");
    }
    double s[6]; for (int i = 0; i < 6; i++) s[i] = t(i); mc::state(s, 6);
}
SCENARIO_SPLIT(integrate, 2) {
    auto R = rots(); Fr a; a.R = mc::pick(R, "orientation"); a.p = V(1, -2, 0.5);
    static const double hz[] = {1, 100, 0.5};
    static const V W[] = {V(0, 0, 0), V(0.4, 0, 0), V(0, 0, -1.2), V(0.3, -0.5, 0.9), V(0, 2e-5, 0), V(-3, 0, 0.1), V(0, 1e-4, -1e-4), V(6e-4, 0, 8e-4), V(0, -0.006, 0.004), V(0.03, 0, 0.01), V(4, -5, 2)};
    V w = mc::pick(W, "rot"), l = P[mc::choose(3, "vel")]; double h = mc::pick(hz, "frequency");
    Frame F = k(a); int n = mc::choose(3, "steps");
    Fr e = a, s; s.R = ref::expv((1 / h) * w); s.p = (1 / h) * l;
    for (int i = 0; i <= n; i++) { F.Integrate(Twist(k(l), k(w)), h); e = e * s; mc::step(); }
    double small = ref::norm(w) / h;
    nearM(F.M, e.R, small < 1.1e-6 ? 1e-6 * (n + 1) : 1e-12, "Integrate: orientation");
    nearV(F.p, e.p, small < 1.1e-6 ? 1e-6 * (n + 1) : 1e-12, "Integrate: origin");
    mc::state(F.M.data, 9);
}
