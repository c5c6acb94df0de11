#include "kin.hpp"
using namespace kin;
using KDL::Rotation; using KDL::Vector;
// angle offsets around the multiples of a quarter turn, including just outside the singular windows
static std::vector<double> angles(bool full) {
    std::vector<double> r;
    static const double d[] = {0, 1e-13, -1e-13, 1e-6, -1e-6, 1e-4, -1e-4, 0.02, 0.4, -0.5};
    for (int q = -2; q <= 2; q++) for (double x : d) { if (!full && (std::fabs(x) == 1e-13 || std::fabs(x) == 1e-4)) continue; r.push_back(q * M_PI / 2 + x); }
    return r;
}
static std::string where(double m) { return m < 1e-9 ? "singular" : m < 1e-3 ? "near-singular" : "regular"; }
static void all(const Rotation& r0) {
    M e = m(r0);
    mc::step(6); mc::state(r0.data, 9);
    // roll pitch yaw
    double c = std::sqrt(e[0][0] * e[0][0] + e[1][0] * e[1][0]);
    double tol = c < 1e-11 ? 1e-10 : 1e-12 + 3e-15 / c;
    if (c > 1.02e-12 && c < 1e-11) tol = 5e-3;
    const Rotation r = r0;
    double a, b, g;
    r.GetRPY(a, b, g);
    nearM(Rotation::RPY(a, b, g), e, tol, "RPY round trip:" + where(c));
    mc::check(std::fabs(a) <= M_PI + 1e-15 && std::fabs(g) <= M_PI + 1e-15 && std::fabs(b) <= M_PI / 2 + 1e-15, "RPY range", "roll %g pitch %g yaw %g", a, b, g);
    if (c < 1e-14) mc::near(a, 0, 0, "RPY: roll is zero at gimbal lock");
    double ya, yb, yc;
    r.GetEulerZYX(ya, yb, yc);
    mc::check(std::fabs(ya - g) < 1e-12 && std::fabs(yb - b) < 1e-12 && std::fabs(yc - a) < 1e-12, "EulerZYX is RPY reversed", "(%g %g %g) against (%g %g %g)", ya, yb, yc, g, b, a);
    nearM(Rotation::EulerZYX(ya, yb, yc), e, tol, "EulerZYX round trip:" + where(c));
    // Euler ZYZ
    c = std::sqrt(e[0][2] * e[0][2] + e[1][2] * e[1][2]);
    tol = c < 3e-6 ? 3e-6 : 1e-12 + 3e-15 / c;
    r.GetEulerZYZ(a, b, g);
    nearM(Rotation::EulerZYZ(a, b, g), e, tol, "EulerZYZ round trip:" + where(c));
    mc::check(a > -M_PI - 1e-15 && a <= M_PI + 1e-15 && g > -M_PI - 1e-15 && g <= M_PI + 1e-15 && b >= 0 && b <= M_PI + 1e-15, "EulerZYZ range", "%g %g %g", a, b, g);
    if (c < 1e-9) mc::near(g, 0, 0, "EulerZYZ: gamma is zero when beta is 0 or pi");
    // quaternion
    double x, y, z, w;
    r.GetQuaternion(x, y, z, w);
    mc::near(x * x + y * y + z * z + w * w, 1, 1e-12, "quaternion norm");
    nearM(Rotation::Quaternion(x, y, z, w), e, 1e-11, "quaternion round trip");
    // axis and angle
    double co = (e[0][0] + e[1][1] + e[2][2] - 1) / 2;
    V s = ref::unskew(e);
    double ang = std::atan2(ref::norm(s), co);
    double slack = std::min(ang, M_PI - ang) < 3e-6 ? 3e-6 : 1e-12 + 4e-15 / std::min(ang, M_PI - ang);
    Vector ax;
    double q = r.GetRotAngle(ax);
    std::string reg = ang < 1e-5 ? "small angle" : ang > M_PI - 1e-5 ? "half turn" : "regular";
    mc::check(q >= 0 && q <= M_PI + 1e-15, "rotation angle range", "angle %.17g", q);
    mc::near(q, ang, slack, "rotation angle:" + reg);
    mc::near(ref::norm(v(ax)), 1, std::max(1e-11, slack), "rotation axis is a unit vector:" + reg);
    nearM(Rotation::Rot2(ax, q), e, slack, "axis-angle round trip:" + reg);
    Vector rv = r.GetRot();
    nearM(k(ref::expv(v(rv))), e, slack, "rotation vector round trip:" + reg);
    Vector ax2; double q2 = r.GetRotAngle(ax2, 1e-9);
    double sl2 = std::min(ang, M_PI - ang) < 3e-9 ? 3e-9 : slack < 3e-6 ? slack : 1e-12 + 4e-15 / std::min(ang, M_PI - ang);
    mc::near(q2, ang, std::max(sl2, 3e-6), "rotation angle with eps 1e-9:" + reg);
}
SCENARIO_SPLIT(rpy, 2) {
    std::vector<double> A = angles(mc::thorough());
    double a = mc::pick(A, "roll"), b = mc::pick(A, "pitch"), c = mc::pick(A, "yaw");
    all(Rotation::RPY(a, b, c));
}
SCENARIO_SPLIT(zyz, 2) {
    std::vector<double> A = angles(mc::thorough());
    double a = mc::pick(A, "alpha"), b = mc::pick(A, "beta"), c = mc::pick(A, "gamma");
    all(Rotation::EulerZYZ(a, b, c));
}
// a ladder of distances from the singular positions of each read-out, every decade, against a few other angles
static std::vector<double> ladder() {
    std::vector<double> r;
    for (int q = -2; q <= 2; q++) for (int e = 0; e < 15; e++) for (double mn : {1.0, -4.0}) r.push_back(q * M_PI / 2 + mn * std::pow(10.0, -1 - e));
    return r;
}
SCENARIO_SPLIT(near_singular, 2) {
    std::vector<double> L = ladder();
    static const double o[] = {0, 0.7, -2.1, M_PI, 1e-5, M_PI / 2, 3.1};
    double b = mc::pick(L, "middle angle"), a = mc::pick(o, "first"), c = mc::pick(o, "last");
    int w = mc::choose(4, "kind");
    all(w == 0 ? Rotation::RPY(a, b, c) : w == 1 ? Rotation::EulerZYZ(a, b, c) : w == 2 ? Rotation::RPY(b, a, c) : Rotation::RPY(a, c, b));
}
SCENARIO_SPLIT(axis_angle, 3) {
    static const double comp[] = {0, 1, -1, 1e-3, -0.6, 0.6000001, 1e-8};
    V d(mc::pick(comp, "x"), mc::pick(comp, "y"), mc::pick(comp, "z"));
    double n = ref::norm(d);
    if (n == 0) return;
    std::vector<double> A = {0, 1, M_PI / 2, 2.0943951023931953, 2.5, M_PI, 4e-7, M_PI - 4e-6, M_PI - 4e-7};
    for (int i = 1; i < 13; i++) { A.push_back(2 * std::pow(10.0, -i)); A.push_back(7 * std::pow(10.0, -i)); A.push_back(M_PI - 2 * std::pow(10.0, -i)); A.push_back(M_PI - 7 * std::pow(10.0, -i)); }
    double a = mc::pick(A, "angle");
    all(k(ref::rodrigues((1 / n) * d, a)));
}
// the exact rotations of the cube: rounded elements, so that every branch condition sits exactly on its border
SCENARIO_SPLIT(cube, 3) {
    int a = mc::choose(4), b = mc::choose(4), c = mc::choose(4);
    M x = ref::rotz(a * M_PI / 2) * ref::roty(b * M_PI / 2) * ref::rotx(c * M_PI / 2);
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { x[i][j] = std::round(x[i][j]); if (x[i][j] == 0) x[i][j] = 0; }
    all(k(x));
    // negative zeros as they come out of products
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) if (x[i][j] == 0) x[i][j] = -0.0;
    all(k(x));
}
SCENARIO_SPLIT(quaternions, 4) {
    static const double qv[] = {0, 1, -1, 0.5, -0.3, 1e-4, 1e-7};
    double q[4], n = 0;
    for (double& x : q) { x = mc::pick(qv, "q"); n += x * x; }
    if (n == 0) return;
    n = sqrt(n); for (double& x : q) x /= n;
    Rotation r = Rotation::Quaternion(q[0], q[1], q[2], q[3]);
    all(r);
    double x, y, z, w; r.GetQuaternion(x, y, z, w); mc::step();
    double d1 = 0, d2 = 0, g[4] = {x, y, z, w};
    for (int i = 0; i < 4; i++) { d1 = std::max(d1, std::fabs(g[i] - q[i])); d2 = std::max(d2, std::fabs(g[i] + q[i])); }
    mc::check(std::min(d1, d2) < 1e-10, "quaternion read back up to sign", "(%g %g %g %g) read as (%g %g %g %g)", q[0], q[1], q[2], q[3], x, y, z, w);
}
