#include "kin.hpp"
using namespace kin;
using KDL::Frame2; using KDL::Rotation2; using KDL::Vector2; using KDL::Vector; using KDL::Frame;
static const double T = 1e-13;
struct F2 { double t, x, y; };   // angle and origin: the reference value of a Frame2
static const double AN[] = {0, 2e-2, -1e-3, 8e-5, 0.3, M_PI / 2, -M_PI / 2, M_PI, -2.5, 3.0, -1e-7};
static const double L[] = {0, 1, -2.5, 1e3, 3e-4, -2e-5};
static void near2(const Vector2& a, double x, double y, double tol, const char* key) { double p[2] = {a(0), a(1)}, q[2] = {x, y}; mc::nearv(p, q, 2, tol, key); }
static void rot2(const Rotation2& r, double t, const std::string& key) {
    double p[4] = {r(0, 0), r(0, 1), r(1, 0), r(1, 1)}, q[4] = {cos(t), -sin(t), sin(t), cos(t)};
    mc::nearv(p, q, 4, T, key + ": matrix elements");
    Vector2 a = r * Vector2(1, 0), b = r * Vector2(0, 1);
    double c[4] = {a(0), b(0), a(1), b(1)};
    mc::nearv(c, q, 4, T, key + ": images of the axes");
    double d = r.GetRot() - t; mc::near(d - 2 * M_PI * std::round(d / (2 * M_PI)), 0, T * 10, key + ": angle");
}
SCENARIO_SPLIT(vectors, 3) {
    double x = mc::pick(L, "x"), y = mc::pick(L, "y"), u = mc::pick(L, "u"), w = mc::pick(L, "w");
    static const double S[] = {0, 1, -0.5, 4};
    double s = mc::pick(S, "s"); mc::step(20);
    Vector2 a(x, y), b(u, w); const Vector2& ca = a;
    near2(a + b, x + u, y + w, T, "sum"); near2(a - b, x - u, y - w, T, "difference"); near2(-a, -x, -y, 0, "negation");
    near2(a * s, x * s, y * s, T, "times scalar"); near2(s * a, x * s, y * s, T, "scalar times"); if (s) near2(a / s, x / s, y / s, T, "divided");
    Vector2 c(a); c += b; near2(c, x + u, y + w, T, "+="); c = a; c -= b; near2(c, x - u, y - w, T, "-="); c = a; c += c; near2(c, 2 * x, 2 * y, T, "+= itself"); c = a; c -= c; near2(c, 0, 0, 0, "-= itself");
    c = a; c.ReverseSign(); near2(c, -x, -y, 0, "ReverseSign"); SetToZero(c); near2(c, 0, 0, 0, "SetToZero"); near2(Vector2::Zero(), 0, 0, 0, "Zero"); near2(Vector2(), 0, 0, 0, "default");
    mc::check(a.x() == x && a.y() == y && ca[0] == x && ca[1] == y && a[0] == x && a(1) == y, "access", "elements");
    c.x(u); c.y(w); near2(c, u, w, 0, "set x y"); c[0] = x; c[1] = y; near2(c, x, y, 0, "set []"); c(0) = u; near2(c, u, y, 0, "set ()");
    double n = hypot(x, y);
    mc::near(a.Norm(), n, T, "norm"); c = a; double r = c.Normalize();
    if (n > 0) { mc::near(r, n, T, "Normalize returns the norm"); near2(c, x / n, y / n, T, "Normalize"); } else { mc::check(r == 0, "Normalize of zero", "%g", r); near2(c, 1, 0, 0, "Normalize of zero"); }
    double st[5] = {x, y, u, w, s}; mc::state(st, 5);
}
SCENARIO_SPLIT(tiny_vectors, 2) {
    static const double c[] = {0, 1e-9, -3e-8, 1e-4, 5};
    static const double E[] = {1e-12, 1e-6, 1e-2};
    double x = mc::pick(c, "x"), y = mc::pick(c, "y"), eps = mc::pick(E, "eps"), n = hypot(x, y); mc::step(2);
    Vector2 a(x, y); double r = a.Normalize(eps);
    if (n > eps) { mc::check(std::fabs(r / n - 1) < T, "Normalize(eps) returns the norm", "norm %g of (%g %g), eps %g", r, x, y, eps); near2(a, x / n, y / n, T, "Normalize(eps)"); }
    else { mc::check(r == 0, "Normalize(eps) below eps", "%g", r); near2(a, 1, 0, 0, "Normalize(eps) below eps"); }
    double st[3] = {x, y, eps}; mc::state(st, 3);
}
SCENARIO_SPLIT(programs, 3) {
    F2 a{mc::pick(AN, "a angle"), 0.5, -2}, b{mc::pick(AN, "b angle"), -1, 3};
    a.x = L[mc::choose(3, "a.x")];
    Frame2 A(Rotation2(a.t), Vector2(a.x, a.y)), B(Rotation2::Rot(b.t), Vector2(b.x, b.y));
    auto mul = [](F2 p, F2 q) { return F2{p.t + q.t, cos(p.t) * q.x - sin(p.t) * q.y + p.x, sin(p.t) * q.x + cos(p.t) * q.y + p.y}; };
    auto inv = [](F2 p) { return F2{-p.t, -(cos(p.t) * p.x + sin(p.t) * p.y), -(-sin(p.t) * p.x + cos(p.t) * p.y)}; };
    for (int d = mc::tiered(2, 4); d > 0; d--) {
        switch (mc::choose(8, "op")) {
            case 0: A = A * B; a = mul(a, b); break;
            case 1: A = B * A; a = mul(b, a); break;
            case 2: A.SetInverse(); a = inv(a); break;
            case 3: A = A.Inverse(); a = inv(a); break;
            case 4: A = A * A; a = mul(a, a); break;
            case 5: A = Frame2(A.M) * Frame2(A.M.Inverse(A.p)); break;
            case 6: { Frame2 t(A); A = B; B = t; F2 u = a; a = b; b = u; break; }
            case 7: A.M.SetInverse(); a.t = -a.t; break;
        }
        mc::step();
        rot2(A.M, a.t, "frame rotation"); near2(A.p, a.x, a.y, 1e-11, "frame origin");
        double e[9] = {cos(a.t), -sin(a.t), a.x, sin(a.t), cos(a.t), a.y, 0, 0, 1}, g[9], h[9]; const Frame2& cA = A;
        for (int i = 0; i < 9; i++) { g[i] = A(i / 3, i % 3); h[i] = cA(i / 3, i % 3); }
        mc::nearv(g, e, 9, 1e-11, "3x3 view"); mc::nearv(h, e, 9, 1e-11, "const 3x3 view");
        for (double x : L) for (double y : L) {
            near2(A * Vector2(x, y), e[0] * x + e[1] * y + e[2], e[3] * x + e[4] * y + e[5], 1e-11, "frame times point");
            F2 i = inv(a); near2(A.Inverse(Vector2(x, y)), cos(i.t) * x - sin(i.t) * y + i.x, sin(i.t) * x + cos(i.t) * y + i.y, 1e-11, "frame inverse of point");
            near2(A.M.Inverse(Vector2(x, y)), e[0] * x + e[3] * y, e[1] * x + e[4] * y, 1e-11, "rotation inverse of point");
        }
        mc::state(g, 9);
    }
}
SCENARIO(rotations) {
    double a = mc::pick(AN, "a"), b = mc::pick(AN, "b"); mc::step(10);
    Rotation2 A(a), B(cos(b), sin(b)), C;
    rot2(A, a, "from angle"); rot2(B, b, "from cosine and sine"); rot2(C, 0, "default"); rot2(Rotation2::Identity(), 0, "Identity");
    rot2(A * B, a + b, "product"); rot2(A.Inverse(), -a, "inverse"); C = A; rot2(C, a, "assignment"); C.SetInverse(); rot2(C, -a, "SetInverse"); C.SetRot(b); rot2(C, b, "SetRot"); C.SetIdentity(); rot2(C, 0, "SetIdentity");
    rot2(Rotation2::Rot(a), a, "Rot"); C = A; C = C * C; rot2(C, 2 * a, "square"); mc::check(A.GetRot() <= M_PI && A.GetRot() >= -M_PI, "angle range", "%g", A.GetRot());
    Frame2 f; rot2(f.M, 0, "default frame"); near2(f.p, 0, 0, 0, "default frame origin"); f = Frame2(A); rot2(f.M, a, "frame from rotation"); near2(f.p, 0, 0, 0, "frame from rotation: origin");
    f = Frame2(Vector2(1, b)); rot2(f.M, 0, "frame from vector"); near2(f.p, 1, b, 0, "frame from vector: origin"); f = Frame2::Identity(); rot2(f.M, 0, "identity frame"); near2(f.p, 0, 0, 0, "identity frame origin");
    f = Frame2(A, Vector2(2, 3)); f.SetIdentity(); rot2(f.M, 0, "SetIdentity frame"); near2(f.p, 0, 0, 0, "SetIdentity frame origin");
    double st[2] = {a, b}; mc::state(st, 2);
    // equality by tolerance, on each component
    static const double E[] = {1e-6, 1e-2};
    for (double e : E) for (int s = -1; s <= 1; s += 2) {
        mc::check(Equal(A, Rotation2(cos(a) + 0.5 * s * e, sin(a)), e) && Equal(A, Rotation2(cos(a), sin(a) + 0.5 * s * e), e), "Equal of rotations within", "eps %g", e);
        mc::check(!Equal(A, Rotation2(cos(a) + 2 * s * e, sin(a)), e) && !Equal(A, Rotation2(cos(a), sin(a) + 2 * s * e), e), "Equal of rotations beyond", "eps %g", e);
        Frame2 g(A, Vector2(1, b));
        mc::check(Equal(g, Frame2(A, Vector2(1 + 0.5 * s * e, b - 0.5 * s * e)), e), "Equal of frames within", "eps %g", e);
        mc::check(!Equal(g, Frame2(A, Vector2(1 + 2 * s * e, b)), e) && !Equal(g, Frame2(A, Vector2(1, b - 2 * s * e)), e) && !Equal(g, Frame2(Rotation2(cos(a) + 2 * s * e, sin(a)), g.p), e) && !Equal(g, Frame2(Rotation2(cos(a), sin(a) + 2 * s * e), g.p), e), "Equal of frames beyond", "eps %g", e);
        Vector2 v(b, 1);
        mc::check(Equal(v, Vector2(b + 0.5 * s * e, 1), e) && Equal(v, Vector2(b, 1 - 0.5 * s * e), e) && !Equal(v, Vector2(b + 2 * s * e, 1), e) && !Equal(v, Vector2(b, 1 - 2 * s * e), e), "Equal of vectors", "eps %g", e);
    }
}
SCENARIO(projections) {
    static const double P[] = {0, 1.5, -2};
    V p(mc::pick(P, "x"), mc::pick(P, "y"), mc::pick(P, "z"));
    double rx = mc::pick(AN, "rx"), ry = mc::pick(AN, "ry"); mc::step(4);
    Fr fr = frame(rx, ry, 0.4, 1, -2, 3);
    Vector2 u(9, 9);
    u.Set3DXY(k(p)); near2(u, p[0], p[1], 0, "Set3DXY"); u.Set3DYZ(k(p)); near2(u, p[1], p[2], 0, "Set3DYZ"); u.Set3DZX(k(p)); near2(u, p[2], p[0], 0, "Set3DZX");
    u.Set3DPlane(kin::k(fr), k(p)); V e = ref::inv(fr) * p; near2(u, e[0], e[1], 1e-12, "Set3DPlane");
    // lifting and projecting again restores the planar vector
    Vector l; l.Set2DPlane(kin::k(fr), Vector2(p[0], p[1])); u.Set3DPlane(kin::k(fr), l); near2(u, p[0], p[1], 1e-12, "plane there and back");
    l.Set2DXY(Vector2(p[0], p[1])); u.Set3DXY(l); near2(u, p[0], p[1], 0, "XY there and back"); l.Set2DYZ(Vector2(p[0], p[1])); u.Set3DYZ(l); near2(u, p[0], p[1], 0, "YZ there and back"); l.Set2DZX(Vector2(p[0], p[1])); u.Set3DZX(l); near2(u, p[0], p[1], 0, "ZX there and back");
    mc::state(e.v, 3);
}
