#include "kin.hpp"
#include <stiffness.hpp>
using namespace kin;
using KDL::Frame; using KDL::Rotation; using KDL::Vector; using KDL::Twist; using KDL::Wrench; using KDL::Vector2; using KDL::Rotation2;
static const double T = 1e-12;
struct TW { V a, b; };   // linear / angular part
static std::vector<Fr> frames() {
    std::vector<Fr> r;
    r.push_back(Fr());
    r.push_back(frame(0.3, -0.8, 1.2, 0.5, -1.5, 2.5));
    r.push_back(frame(M_PI / 2, 0, 0, 1, 0, 0));
    r.push_back(frame(0, 0, M_PI, 0, -3, 0.25));
    r.push_back(frame(-2.1, 1.4, 0.2, -0.7, 0.1, 100));
    r.push_back(frame(0, -M_PI / 2, 2.2, 0, 0, -1));
    if (mc::thorough()) { r.push_back(frame(0.1, 0.2, 0.3, 1e-5, 0, -1e4)); r.push_back(frame(0, 0, -1e-4, 0, 0, 0)); }
    return r;
}
static const V PT[] = {V(0, 0, 0), V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(1.5, -2, 0.5), V(-300, 20, 1e-3)};
static std::vector<TW> screws() {
    std::vector<TW> r;
    for (int i = 0; i < 6; i++) { TW t; (i < 3 ? t.a : t.b)[i % 3] = 1; r.push_back(t); }
    TW t; t.a = V(0.5, -1.5, 2); t.b = V(-0.7, 0.3, 1.1); r.push_back(t);
    t.a = V(); t.b = V(); r.push_back(t);
    t.a = V(-10, 200, 3); t.b = V(0.01, -5, 40); r.push_back(t);
    return r;
}
static Frame K(const Fr& f) { return kin::k(f); }
static Twist tw(const TW& t) { return Twist(k(t.a), k(t.b)); }
static Wrench wr(const TW& t) { return Wrench(k(t.a), k(t.b)); }
// all sequences of composing / inverting frame variables
SCENARIO_SPLIT(frame_programs, 3) {
    auto FS = frames();
    Fr a = mc::pick(FS, "F"), b = mc::pick(FS, "G");
    Frame A = K(a), B = K(b);
    int depth = mc::tiered(3, 4);
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(7, "op");
        switch (op) {
            case 0: A = A * B; a = a * b; break;
            case 1: B = A * B; b = a * b; break;
            case 2: A = A.Inverse(); a = ref::inv(a); break;
            case 3: A = A * A; a = a * a; break;
            case 4: { Frame t(B); B = A; A = t; Fr u = b; b = a; a = u; break; }
            case 5: A = B.Inverse() * A; a = ref::inv(b) * a; break;
            case 6: A = A; B = Frame(A.M, A.p) * Frame(B.M) * Frame(B.M.Inverse(B.p)); b = a * b; break;
        }
        mc::step();
        double big = 1 + ref::norm(a.p) + ref::norm(b.p);
        nearM(A.M, a.R, T, "frame composition: rotation"); nearM(B.M, b.R, T, "frame composition: rotation");
        nearV(A.p, a.p, 1e-12 * big, "frame composition: origin"); nearV(B.p, b.p, 1e-12 * big, "frame composition: origin");
        double s[24]; memcpy(s, A.M.data, 72); memcpy(s + 9, A.p.data, 24); memcpy(s + 12, B.M.data, 72); memcpy(s + 21, B.p.data, 24);
        mc::state(s, 24);
    }
}
SCENARIO(frame_on_points) {
    auto FS = frames();
    Fr f = mc::pick(FS, "F"); V p = mc::pick(PT, "p");
    Frame A = K(f); mc::step(6);
    nearV(A * k(p), f * p, T, "frame times point");
    nearV(A.Inverse(k(p)), ref::inv(f) * p, T, "frame inverse of point");
    nearV(A.Inverse() * k(p), ref::inv(f) * p, T, "inverse frame times point");
    nearV(A.Inverse(A * k(p)), p, T, "point there and back");
    nearV(A.M.Inverse(k(p)), ref::tr(f.R) * p, T, "rotation inverse of point");
    double d[16]; for (double& x : d) x = 777; A.Make4x4(d);
    double e[16] = {f.R[0][0], f.R[0][1], f.R[0][2], f.p[0], f.R[1][0], f.R[1][1], f.R[1][2], f.p[1], f.R[2][0], f.R[2][1], f.R[2][2], f.p[2], 0, 0, 0, 1};
    mc::nearv(d, e, 16, 0, "Make4x4");
    const Frame& cA = A;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { mc::near(A(i, j), e[4 * i + j], 0, "frame element"); mc::near(cA(i, j), e[4 * i + j], 0, "const frame element"); }
    nearF(Frame::Identity(), Fr(), 0, "identity frame"); nearF(Frame(), Fr(), 0, "default frame");
    Fr g; g.p = p; nearF(Frame(k(p)), g, 0, "frame from vector");
    g = Fr(); g.R = f.R; nearF(Frame(A.M), g, 0, "frame from rotation");
    nearF(Frame(A), f, 0, "frame copy");
    mc::state(A.p.data, 3); mc::state((A * k(p)).data, 3, 1);
}
SCENARIO_SPLIT(frame_on_screws, 2) {
    auto FS = frames(); auto SC = screws();
    Fr f = mc::pick(FS, "F"); TW x = mc::pick(SC, "twist"), y = mc::pick(SC, "wrench");
    V d = mc::pick(PT, "ref point");
    Frame A = K(f); Twist t = tw(x); Wrench w = wr(y); mc::step(14);
    double tol = T * (1 + ref::norm(f.p) + ref::norm(d));
    V ft = f.R * x.b, fv = f.R * x.a + ref::cross(f.p, ft);
    nearT(A * t, fv, ft, tol, "frame times twist");
    V wf = f.R * y.a, wt = f.R * y.b + ref::cross(f.p, wf);
    nearW(A * w, wf, wt, tol, "frame times wrench");
    double big = 1 + ref::norm(f.p) * 300;
    nearT(A.Inverse(A * t), x.a, x.b, T * big, "twist there and back");
    nearW(A.Inverse(A * w), y.a, y.b, T * big, "wrench there and back");
    Twist t1 = A.Inverse(t), t2 = A.Inverse() * t;
    nearT(t1, v(t2.vel), v(t2.rot), tol, "inverse of twist equals inverse frame times twist");
    Wrench w1 = A.Inverse(w), w2 = A.Inverse() * w;
    nearW(w1, v(w2.force), v(w2.torque), tol, "inverse of wrench equals inverse frame times wrench");
    nearT(A.M * t, f.R * x.a, f.R * x.b, T, "rotation times twist");
    nearW(A.M * w, f.R * y.a, f.R * y.b, T, "rotation times wrench");
    nearT(A.M.Inverse(t), ref::tr(f.R) * x.a, ref::tr(f.R) * x.b, T, "rotation inverse of twist");
    nearW(A.M.Inverse(w), ref::tr(f.R) * y.a, ref::tr(f.R) * y.b, T, "rotation inverse of wrench");
    nearT(t.RefPoint(k(d)), x.a + ref::cross(x.b, d), x.b, tol, "twist reference point");
    nearW(w.RefPoint(k(d)), y.a, y.b - ref::cross(d, y.a), tol, "wrench reference point");
    double p0 = ref::dot(x.a, y.a) + ref::dot(x.b, y.b);
    double s = 1e-12 * (1 + ref::norm(x.a) + ref::norm(x.b)) * (1 + ref::norm(y.a) + ref::norm(y.b)) * (1 + ref::norm(f.p) + ref::norm(d));
    mc::near(dot(t, w), p0, T, "power"); mc::near(dot(w, t), p0, T, "power, wrench first");
    mc::near(dot(A * t, A * w), p0, s, "power is invariant under a frame change");
    mc::near(dot(t.RefPoint(k(d)), w.RefPoint(k(d))), p0, s, "power is invariant under a reference point change");
    // spatial cross products
    Twist z = tw(y);
    nearT(t * z, ref::cross(x.b, y.a) + ref::cross(x.a, y.b), ref::cross(x.b, y.b), T * big, "twist cross twist");
    nearW(t * w, ref::cross(x.b, y.a), ref::cross(x.b, y.b) + ref::cross(x.a, y.a), T * big, "twist cross wrench");
    double st[6]; for (int i = 0; i < 6; i++) st[i] = (A * t)(i); mc::state(st, 6);
}
static const double SCAL[] = {0, 1, -1, 2.5, -0.125};
SCENARIO_SPLIT(vector_space, 2) {
    V a = mc::pick(PT, "a"), b = mc::pick(PT, "b"); double s = mc::pick(SCAL, "scalar");
    Vector A = k(a), B = k(b); mc::step(20);
    nearV(A + B, a + b, T, "vector sum"); nearV(A - B, a - b, T, "vector difference"); nearV(-A, -a, 0, "vector negation");
    nearV(A * s, s * a, T, "vector times scalar"); nearV(s * A, s * a, T, "scalar times vector");
    if (s) nearV(A / s, (1 / s) * a, T, "vector divided by scalar");
    nearV(A * B, ref::cross(a, b), 1e-11, "cross product"); mc::near(dot(A, B), ref::dot(a, b), T, "dot product");
    Vector c = A; c += B; nearV(c, a + b, T, "vector +="); c = A; c -= B; nearV(c, a - b, T, "vector -=");
    c = A; c += c; nearV(c, 2.0 * a, T, "vector += itself"); c = A; c -= c; nearV(c, V(), 0, "vector -= itself");
    c = A; c = c * c; nearV(c, V(), 0, "cross product with itself"); c = A; c.ReverseSign(); nearV(c, -a, 0, "ReverseSign");
    c = A; SetToZero(c); nearV(c, V(), 0, "SetToZero"); nearV(Vector::Zero(), V(), 0, "Zero"); nearV(Vector(), V(), 0, "default vector");
    const Vector& cA = A;
    mc::check(A.x() == a[0] && A.y() == a[1] && A.z() == a[2], "x y z", "elements");
    for (int i = 0; i < 3; i++) mc::check(cA(i) == a[i] && cA[i] == a[i] && A(i) == a[i] && A[i] == a[i], "vector index", "index %d", i);
    c.x(b[0]); c.y(b[1]); c.z(b[2]); nearV(c, b, 0, "set x y z");
    for (int i = 0; i < 3; i++) { Vector u = A; u(i) = 7; V e = a; e[i] = 7; nearV(u, e, 0, "vector index write"); u = A; u[i] = 7; nearV(u, e, 0, "vector [] write"); }
    mc::near(A.Norm(), ref::norm(a), 1e-14, "norm");
    mc::state(A.data, 3); mc::state(B.data, 3, 1); mc::state(&s, 1, 2);
}
SCENARIO_SPLIT(norms, 2) {
    static const double c[] = {0, 1, -1, 3e-3, -2e4, 1e160, -3e-160, 1e-5, 1e-7};
    V a(mc::pick(c, "x"), mc::pick(c, "y"), mc::pick(c, "z"));
    long double n = sqrtl((long double)a[0] * a[0] + (long double)a[1] * a[1] + (long double)a[2] * a[2]);
    mc::step(3); mc::state(a.v, 3);
    if (n > 2e-6) {
        mc::check(std::fabs(k(a).Norm() / (double)n - 1) < 1e-14, "norm without overflow", "norm of (%g %g %g) is %.17g, expected %.17Lg", a[0], a[1], a[2], k(a).Norm(), n);
        Vector u = k(a); double r = u.Normalize();
        mc::check(std::fabs(r / (double)n - 1) < 1e-14, "Normalize returns the norm", "%g", r);
        V e(a[0] / n, a[1] / n, a[2] / n); nearV(u, e, 1e-14, "normalised vector");
    } else {
        Vector u = k(a); double r = u.Normalize();
        mc::check(r == 0, "Normalize of a tiny vector returns 0", "returned %g", r);
        nearV(u, V(1, 0, 0), 0, "Normalize of a tiny vector gives the x axis");
    }
    // an explicit threshold is honoured whatever direction the vector has
    static const double E[] = {1e-9, 1e-3, 10};
    double eps = mc::pick(E, "eps");
    if (n > 0 && std::fabs((double)(n / eps) - 1) < 0.5) return;
    Vector u = k(a); double r = u.Normalize(eps);
    if (n > eps) {
        mc::check(std::fabs(r / (double)n - 1) < 1e-14, "Normalize(eps) returns the norm", "norm %g of (%g %g %g), eps %g", r, a[0], a[1], a[2], eps);
        V e(a[0] / n, a[1] / n, a[2] / n); nearV(u, e, 1e-14, "vector normalised with eps");
    } else { mc::check(r == 0, "Normalize(eps) below eps returns 0", "returned %g", r); nearV(u, V(1, 0, 0), 0, "Normalize(eps) below eps"); }
}
template <class S> static void screw_space(const TW& x, const TW& y, double s, S (*mk)(const TW&), const char* n) {
    S A = mk(x), B = mk(y); mc::step(16);
    auto nr = [&](const S& g, V a, V b, double tol, const char* key) {
        double p[6], q[6] = {a[0], a[1], a[2], b[0], b[1], b[2]}; for (int i = 0; i < 6; i++) p[i] = g(i);
        mc::nearv(p, q, 6, tol, std::string(n) + " " + key);
    };
    nr(A, x.a, x.b, 0, "elements");
    nr(A + B, x.a + y.a, x.b + y.b, T, "sum"); nr(A - B, x.a - y.a, x.b - y.b, T, "difference"); nr(-A, -x.a, -x.b, 0, "negation");
    nr(A * s, s * x.a, s * x.b, T, "times scalar"); nr(s * A, s * x.a, s * x.b, T, "scalar times");
    if (s) nr(A / s, (1 / s) * x.a, (1 / s) * x.b, T, "divided by scalar");
    S c = A; c += B; nr(c, x.a + y.a, x.b + y.b, T, "+="); c = A; c -= B; nr(c, x.a - y.a, x.b - y.b, T, "-=");
    c = A; c += c; nr(c, 2.0 * x.a, 2.0 * x.b, T, "+= itself"); c = A; c -= c; nr(c, V(), V(), 0, "-= itself");
    c = A; c.ReverseSign(); nr(c, -x.a, -x.b, 0, "ReverseSign"); c = A; SetToZero(c); nr(c, V(), V(), 0, "SetToZero");
    nr(S::Zero(), V(), V(), 0, "Zero"); nr(S(), V(), V(), 0, "default");
    const S& cA = A;
    for (int i = 0; i < 6; i++) {
        double e = i < 3 ? x.a[i] : x.b[i - 3];
        mc::check(A(i) == e && A[i] == e && cA(i) == e && cA[i] == e, std::string(n) + " index", "index %d", i);
        c = A; c(i) = 9; V a = x.a, b = x.b; (i < 3 ? a : b)[i % 3] = 9; nr(c, a, b, 0, "index write"); c = A; c[i] = 9; nr(c, a, b, 0, "[] write");
    }
}
SCENARIO_SPLIT(screw_spaces, 2) {
    auto SC = screws(); TW x = mc::pick(SC, "x"), y = mc::pick(SC, "y"); double s = mc::pick(SCAL, "scalar");
    screw_space<Twist>(x, y, s, tw, "twist"); screw_space<Wrench>(x, y, s, wr, "wrench");
    double st[3] = {x.a[0] + 3 * x.b[1], y.a[1] - 2 * y.b[0], s}; mc::state(st, 3);
}
SCENARIO_SPLIT(denavit_hartenberg, 2) {
    static const double L[] = {0, 0.5, -2}, A[] = {0, M_PI / 2, -M_PI / 2, M_PI, 0.7, -2.1};
    double a = mc::pick(L, "a"), al = mc::pick(A, "alpha"), d = mc::pick(L, "d"), th = mc::pick(A, "theta");
    mc::step(2);
    Fr e = frame(0, 0, th, 0, 0, d) * frame(al, 0, 0, a, 0, 0);
    nearF(Frame::DH(a, al, d, th), e, T, "DH is Rz Tz Tx Rx");
    e = frame(al, 0, 0, a, 0, 0) * frame(0, 0, th, 0, 0, d);
    nearF(Frame::DH_Craig1989(a, al, d, th), e, T, "DH_Craig1989 is Rx Tx Rz Tz");
    mc::state(&e.R[0][0], 9); mc::state(e.p.v, 3, 1);
}
SCENARIO(planes) {
    auto FS = frames(); Fr f = mc::pick(FS, "F");
    static const double L[] = {0, 1, -2.5};
    double x = mc::pick(L, "x"), y = mc::pick(L, "y");
    Vector2 u(x, y); Vector r(9, 9, 9); mc::step(4);
    r.Set2DXY(u); nearV(r, V(x, y, 0), 0, "Set2DXY"); r = Vector(9, 9, 9);
    r.Set2DYZ(u); nearV(r, V(0, x, y), 0, "Set2DYZ"); r = Vector(9, 9, 9);
    r.Set2DZX(u); nearV(r, V(y, 0, x), 0, "Set2DZX"); r = Vector(9, 9, 9);
    r.Set2DPlane(K(f), u); nearV(r, f * V(x, y, 0), T, "Set2DPlane");
    mc::state(r.data, 3);
}
// a diagonal stiffness: twists to wrenches and back, component by component; springs side by side add
SCENARIO_SPLIT(stiffness, 2) {
    static const double C[] = {0, 1, -2.5, 300, 1e-3}; double d[6]; KDL::Twist t; KDL::Wrench w; KDL::Stiffness a, b; int made = mc::choose(3, "made");
    for (int i = 0; i < 6; i++) mc::check(a[i] == 0, "stiffness: nothing at first", "%d", i);
    int p = mc::choose(mc::tiered(6, 6), "part"); for (int i = 0; i < 6; i++) d[i] = C[1 + (i + p) % 4] + i; d[p] = C[mc::choose(5, "coefficient")]; if (made == 0) a = KDL::Stiffness(d); else if (made == 1) a = KDL::Stiffness(d[0], d[1], d[2], d[3], d[4], d[5]); else for (int i = 0; i < 6; i++) a[i] = d[i];
    for (int i = 0; i < 6; i++) { t(i) = C[(i * 2 + p) % 5] - i; w(i) = C[(i + p) % 5] + 2 * i - 3; b[i] = C[(i + 2 * p) % 5]; } t(mc::choose(6, "moved")) = C[mc::choose(5, "amount")]; mc::step(3);
    const KDL::Stiffness& c = a; for (int i = 0; i < 6; i++) mc::check(c[i] == d[i], "stiffness: coefficients are read back", "%d: %g instead of %g", i, c[i], d[i]);
    KDL::Wrench r = a * t; for (int i = 0; i < 6; i++) mc::check(std::fabs(r(i) - d[i] * t(i)) <= 1e-12 * (1 + std::fabs(d[i] * t(i))), "stiffness: wrench of a twist", "component %d: %g", i, r(i));
    bool all = true; for (double x : d) all = all && x != 0;
    if (all) { KDL::Twist u = a.Inverse(w), v = a.Inverse(a * t); for (int i = 0; i < 6; i++) { mc::check(std::fabs(u(i) - w(i) / d[i]) <= 1e-12 * (1 + std::fabs(w(i) / d[i])), "stiffness: twist of a wrench", "component %d: %g", i, u(i)); mc::check(std::fabs(v(i) - t(i)) <= 1e-12 * (1 + std::fabs(t(i))), "stiffness: there and back", "component %d: %g", i, v(i)); } }
    KDL::Stiffness s = a + b; for (int i = 0; i < 6; i++) mc::check(std::fabs(s[i] - (d[i] + b[i])) <= 1e-12 * (1 + std::fabs(d[i])) && a[i] == d[i], "stiffness: sums", "component %d: %g", i, s[i]);
    mc::state(d, 6, made);
}
