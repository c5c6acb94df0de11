#include "kin.hpp"
using namespace kin;
using KDL::Rotation; using KDL::Vector;
// the ladder down from 0.1 meets every threshold on the angle that could matter at double precision
static const double ANG[] = {0, 1e-12, 1e-9, -1e-8, -1e-7, 1e-6, -6e-6, 3e-5, -1e-4, 3e-4, -8e-4, 1e-3, -4e-3, 2e-2, -0.1, M_PI - 1e-3, 1e-4 - M_PI, M_PI - 1e-5, M_PI_2 - 1e-6, M_PI_2 + 1e-4, 0.3, -0.7, M_PI / 4, M_PI / 2, -M_PI / 2, 1.9, -2.6, 3.0, M_PI - 1e-8, M_PI, -M_PI, 4.5, 3 * M_PI / 2, 2 * M_PI, -7.7, 100.25};
static void proper(const Rotation& r, double tol, const std::string& key) {
    M a = m(r), p = a * ref::tr(a), I;
    mc::nearv(&p.m[0][0], &I.m[0][0], 9, tol, key, "R*R^T");
    mc::near(ref::det(a), 1, tol, key, "determinant");
}
static V dirs(int i) {
    int n = 0;
    for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) if (n++ == i) return V(x, y, z);
    static const double g[4][3] = {{0.3, -0.5, 0.8}, {-1.2, 0.01, 0.4}, {2, 3, 6}, {1, 1e-7, 0}};
    return V(g[i - 26][0], g[i - 26][1], g[i - 26][2]);
}
// basic rotations, axis-angle, three-angle and quaternion constructors
SCENARIO_SPLIT(elementary, 2) {
    double a = mc::pick(ANG, "angle");
    int w = mc::choose(3, "axis"); mc::step();
    Rotation r = w == 0 ? Rotation::RotX(a) : w == 1 ? Rotation::RotY(a) : Rotation::RotZ(a);
    M e = w == 0 ? ref::rotx(a) : w == 1 ? ref::roty(a) : ref::rotz(a);
    nearM(r, e, 1e-13, "RotXYZ"); proper(r, 1e-13, "RotXYZ:orthonormal");
    mc::state(r.data, 9);
}
SCENARIO_SPLIT(axis_angle, 3) {
    V d = dirs(mc::choose(30, "direction"));
    double a = mc::pick(ANG, "angle");
    static const double sc[] = {1, 1e-4, 2e-3, 0.05, 3.7, 40, 1e5, 1e9};
    double s = mc::pick(sc, "axis length"); mc::step(2);
    double n = ref::norm(d); V u = (1 / n) * d;
    Rotation r = Rotation::Rot(k(s * d), a);
    nearM(r, ref::rodrigues(u, a), 1e-12, "Rot"); proper(r, 1e-12, "Rot:orthonormal");
    Rotation r2 = Rotation::Rot2(k(u), a);
    nearM(r2, ref::rodrigues(u, a), 1e-12, "Rot2"); proper(r2, 1e-12, "Rot2:orthonormal");
    mc::state(r.data, 9);
}
SCENARIO(zero_axis) {
    double a = mc::pick(ANG, "angle"); mc::step();
    Rotation r = Rotation::Rot(Vector::Zero(), a);
    nearM(r, M(), 1e-15, "Rot:zero axis is the identity");
}
SCENARIO_SPLIT(three_angles, 2) {
    double a = mc::pick(ANG, "a"), b = mc::pick(ANG, "b"), c = mc::pick(ANG, "c"); mc::step(3);
    Rotation r = Rotation::RPY(a, b, c);
    nearM(r, ref::rotz(c) * ref::roty(b) * ref::rotx(a), 1e-12, "RPY"); proper(r, 1e-12, "RPY:orthonormal");
    mc::state(r.data, 9);
    r = Rotation::EulerZYZ(a, b, c);
    nearM(r, ref::rotz(a) * ref::roty(b) * ref::rotz(c), 1e-12, "EulerZYZ"); proper(r, 1e-12, "EulerZYZ:orthonormal");
    mc::state(r.data, 9);
    r = Rotation::EulerZYX(a, b, c);
    nearM(r, ref::rotz(a) * ref::roty(b) * ref::rotx(c), 1e-12, "EulerZYX"); proper(r, 1e-12, "EulerZYX:orthonormal");
}
SCENARIO_SPLIT(quaternion, 4) {
    static const double qv[] = {0, 1, -1, 0.3, -2.5, 1e-7};
    double q[4], n = 0;
    for (double& x : q) { x = mc::pick(qv, "q"); n += x * x; }
    if (n == 0) return;
    n = sqrt(n); for (double& x : q) x /= n;
    mc::step();
    V u(q[0], q[1], q[2]); double w = q[3];
    M K = ref::skew(u), e = M() + (2 * w) * K + 2.0 * (K * K);
    Rotation r = Rotation::Quaternion(q[0], q[1], q[2], q[3]);
    nearM(r, e, 1e-13, "Quaternion"); proper(r, 1e-13, "Quaternion:orthonormal");
    mc::state(r.data, 9);
}
// explicit element and column constructors, access
SCENARIO(elements) {
    double a = mc::pick(ANG, "a"), b = mc::pick(ANG, "b"); mc::step(6);
    M e = ref::rotz(a) * ref::rotx(b) * ref::roty(0.4);
    Rotation r(e[0][0], e[0][1], e[0][2], e[1][0], e[1][1], e[1][2], e[2][0], e[2][1], e[2][2]);
    const Rotation rc = r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) {
        mc::near(rc(i, j), e[i][j], 0, "element read");
        mc::near(r(i, j), e[i][j], 0, "element read");
        Rotation w; w(i, j) = 7.5;
        for (int x = 0; x < 3; x++) for (int y = 0; y < 3; y++) mc::near(w(x, y), x == i && y == j ? 7.5 : (x == y), 0, "element write");
    }
    V c[3]; for (int j = 0; j < 3; j++) c[j] = V(e[0][j], e[1][j], e[2][j]);
    Rotation q(k(c[0]), k(c[1]), k(c[2]));
    nearM(q, e, 0, "column constructor");
    nearV(q.UnitX(), c[0], 0, "UnitX"); nearV(q.UnitY(), c[1], 0, "UnitY"); nearV(q.UnitZ(), c[2], 0, "UnitZ");
    Rotation s; s.UnitX(k(c[0])); s.UnitY(k(c[1])); s.UnitZ(k(c[2]));
    nearM(s, e, 0, "set unit vectors");
    Rotation id; nearM(id, M(), 0, "default is identity"); nearM(Rotation::Identity(), M(), 0, "Identity");
    s = q; s = s; nearM(s, e, 0, "assignment");
}
// products, inverses and application on all pairs of a rotation alphabet
static const std::vector<M>& alphabet() {
    static std::vector<M> s;
    if (!s.empty()) return s;
    // the 24 rotations of the cube, then generic and nearly singular ones
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int c = 0; c < 4; c++) {
        M x = ref::rotz(a * M_PI / 2) * ref::roty(b * M_PI / 2) * ref::rotx(c * M_PI / 2);
        for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) x[i][j] = std::round(x[i][j]);
        bool dup = false;
        for (auto& y : s) { double d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d += std::fabs(x[i][j] - y[i][j]); dup |= d < 0.5; }
        if (!dup) s.push_back(x);
    }
    static const double g[][4] = {{0.3, -0.5, 0.8, 0.7}, {1, 2, 3, 2.9}, {-1, 0.2, 0.1, 1e-6}, {0, 1, 1, M_PI}, {1, 1, 1, 2.0943951023931953}, {0.2, 0.9, -0.4, -1.3}, {0, 0, 1, 1e-3}, {2, -1, 0.5, 3.1415926}};
    for (auto& r : g) { V d(r[0], r[1], r[2]); s.push_back(ref::rodrigues((1 / ref::norm(d)) * d, r[3])); }
    return s;
}
static const double VEC[][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {0.3, -2, 5}, {-1e3, 1e-3, 7}};
SCENARIO_SPLIT(pairs, 2) {
    auto& A = alphabet();
    M a = A[mc::choose((int)A.size(), "A")], b = A[mc::choose((int)A.size(), "B")];
    Rotation ra = k(a), rb = k(b); mc::step(12);
    Rotation p = ra * rb;
    nearM(p, a * b, 1e-14, "product"); mc::state(p.data, 9);
    nearM(ra.Inverse(), ref::tr(a), 1e-14, "Inverse");
    Rotation s = ra; s.SetInverse(); nearM(s, ref::tr(a), 1e-14, "SetInverse");
    s = ra; s = s * s; nearM(s, a * a, 1e-14, "s=s*s");
    s = ra; s = s * rb; nearM(s, a * b, 1e-14, "s=s*b");
    s = rb; s = ra * s; nearM(s, a * b, 1e-14, "s=a*s");
    s = ra; s = s.Inverse(); nearM(s, ref::tr(a), 1e-14, "s=s.Inverse()");
    for (auto& w : VEC) {
        V x(w[0], w[1], w[2]); Vector vx = k(x);
        nearV(ra * vx, a * x, 1e-14, "R*v"); nearV(ra.Inverse(vx), ref::tr(a) * x, 1e-14, "R.Inverse(v)");
        vx = ra * vx; nearV(vx, a * x, 1e-14, "v=R*v"); vx = ra.Inverse(vx); nearV(vx, x, 1e-13, "v=R.Inverse(v)");
        V y = b * x + V(1, 2, 3);
        KDL::Twist t(k(x), k(y)); KDL::Wrench f(k(x), k(y));
        nearT(ra * t, a * x, a * y, 1e-14, "R*twist"); nearT(ra.Inverse(t), ref::tr(a) * x, ref::tr(a) * y, 1e-14, "R.Inverse(twist)");
        nearW(ra * f, a * x, a * y, 1e-14, "R*wrench"); nearW(ra.Inverse(f), ref::tr(a) * x, ref::tr(a) * y, 1e-14, "R.Inverse(wrench)");
        t = ra * t; nearT(t, a * x, a * y, 1e-14, "t=R*t"); f = ra.Inverse(f); nearW(f, ref::tr(a) * x, ref::tr(a) * y, 1e-14, "f=R.Inverse(f)");
    }
}
// every sequence of operations on two rotation variables, up to a depth; the model is a pair of matrices
SCENARIO_SPLIT(words, 3) {
    int depth = mc::tiered(4, 6);
    Rotation r = Rotation::RPY(0.1, 0.2, 0.3), o = Rotation::RotX(M_PI / 2);
    M e = m(r), eo = m(o);
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(12, "op"); mc::step();
        switch (op) {
            case 0: r.DoRotX(0.9); e = e * ref::rotx(0.9); break;
            case 1: r.DoRotY(-1.2); e = e * ref::roty(-1.2); break;
            case 2: r.DoRotZ(M_PI / 2); e = e * ref::rotz(M_PI / 2); break;
            case 3: r = r * o; e = e * eo; break;
            case 4: r = o * r; e = eo * e; break;
            case 5: r.SetInverse(); e = ref::tr(e); break;
            case 6: std::swap(r, o); std::swap(e, eo); break;
            case 7: o = r.Inverse() * o; eo = ref::tr(e) * eo; break;
            case 8: r = Rotation::Rot(r.UnitX(), 0.5) * r; e = ref::rodrigues(V(e[0][0], e[1][0], e[2][0]), 0.5) * e; break;
            case 9: r = r * r; e = e * e; break;
            case 10: r.DoRotX(M_PI); e = e * ref::rotx(M_PI); break;
            case 11: o = r; eo = e; break;
        }
        nearM(r, e, 1e-12, "word: value"); nearM(o, eo, 1e-12, "word: other value");
        proper(r, 1e-12, "word: orthonormal");
        double st[18]; memcpy(st, r.data, 72); memcpy(st + 9, o.data, 72); mc::state(st, 18);
    }
}
// in-place rotation by every angle
SCENARIO_SPLIT(inplace, 3) {
    double a = mc::pick(ANG, "a"); int w = mc::choose(3, "axis");
    M b = mc::pick(alphabet(), "B"); mc::step();
    Rotation r = k(b);
    if (w == 0) { r.DoRotX(a); b = b * ref::rotx(a); } else if (w == 1) { r.DoRotY(a); b = b * ref::roty(a); } else { r.DoRotZ(a); b = b * ref::rotz(a); }
    nearM(r, b, 1e-13, "DoRot"); mc::state(r.data, 9);
}
