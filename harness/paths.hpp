// Reference model of paths: pieces (straight, arc, point) with rotation about one axis, and builders that make the
// library's path and the reference side by side. Counts of live allocations.
#pragma once
#include "kin.hpp"
#include <path.hpp>
#include <path_circle.hpp>
#include <path_composite.hpp>
#include <path_cyclic_closed.hpp>
#include <path_line.hpp>
#include <path_point.hpp>
#include <path_roundedcomposite.hpp>
#include <rotational_interpolation_sa.hpp>
#include <utilities/error.h>
#include <utilities/error_stack.h>
#include <memory>
#include <sstream>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace live {   // live allocations, to see that everything is released, once
inline long& count() { static long c = 0; return c; }
inline void up(const volatile void*, size_t) { count()++; }
inline void down(const volatile void* p) { if (p) count()--; }
inline void install() { static bool done = false; if (!done) { done = true; __sanitizer_install_malloc_and_free_hooks(up, down); } }
// allocations that are left after f, run a second time (the first run fills caches)
template <class F> long left(F f) { install(); f(); long a = count(); f(); return count() - a; }
}
namespace pth {
using namespace kin;
typedef std::unique_ptr<KDL::Path> PP;
inline V log(const M& R, bool* half = nullptr) {
    V w = unskew(R); double s = norm(w), c = (R[0][0] + R[1][1] + R[2][2] - 1) / 2, a = std::atan2(s, c);
    if (half) *half = a > M_PI - 1e-4;
    if (s > 1e-9) return (a / s) * w;
    if (c > 0) return w;
    int k = 0; for (int i = 1; i < 3; i++) if (R[i][i] > R[k][k]) k = i;   // half a turn: (R + 1) / 2 = u u^T
    V u; double d = std::sqrt((R[k][k] + 1) / 2); for (int i = 0; i < 3; i++) u[i] = (R[i][k] + (i == k)) / 2 / d;
    return M_PI * u;
}
struct At { Fr f; V v, w, a, b; bool still = false; };   // pose, speed and acceleration (linear, angular); a piece without length has no speed but zero
struct Piece {
    int kind = 0; Fr from; V lin, rot; bool half = false; double L = 0; V c, x, z; double r = 0, alpha = 0;   // kind 0 straight, 1 arc
    double dist() const { return kind ? r * alpha : norm(lin); }
    void length(double eq) { L = std::max(dist(), norm(rot) * eq); }
    At at(double s, double sd, double sdd) const {
        At o; o.still = !(L > 0); double f = L > 0 ? s / L : 0, k = L > 0 ? 1 / L : 0; o.f.R = from.R * expv(f * rot); V ax = from.R * rot; o.w = (k * sd) * ax; o.b = (k * sdd) * ax;
        if (kind == 0) { o.f.p = from.p + f * lin; o.v = (k * sd) * lin; o.a = (k * sdd) * lin; }
        else { double q = f * alpha, d = alpha * k * sd, e = alpha * k * sdd; V y = cross(z, x), ra = std::cos(q) * x + std::sin(q) * y, ta = cross(z, ra); o.f.p = c + r * ra; o.v = (r * d) * ta; o.a = (r * e) * ta - (r * d * d) * ra; }
        return o;
    }
    Fr end() const { return at(L, 0, 0).f; }
};
struct RPath {
    std::vector<Piece> part; int times = 1; bool closed = false;
    double once() const { double l = 0; for (auto& p : part) l += p.L; return l; }
    double L() const { return once() * times; }
    Fr start() const { return part.front().from; }
    Fr end() const { return part.back().end(); }
    void add(const RPath& o) { for (int i = 0; i < o.times; i++) for (auto& p : o.part) part.push_back(p); }
    bool half() const { for (auto& p : part) if (p.half) return true; return false; }
    // all admissible answers at s: at a joint either neighbour
    std::vector<At> at(double s, double sd, double sdd) const {
        std::vector<At> o; double l = once(), e = 1e-9 * (1 + L()), base = 0;
        for (int t = 0; t < times; t++) for (size_t i = 0; i < part.size(); i++) { double q = s - base; if (q >= -e && q <= part[i].L + e) o.push_back(part[i].at(std::min(std::max(q, 0.0), part[i].L), sd, sdd)); base += part[i].L; }
        (void)l; if (closed) { if (s >= L() - e) o.push_back(part.front().at(0, sd, sdd)); if (s <= e) o.push_back(part.back().at(part.back().L, sd, sdd)); } return o;
    }
};
inline double dev(const KDL::Frame& a, const Fr& b) { double m = 0; Fr x = kin::f(a); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) m = std::max(m, std::fabs(x.R[i][j] - b.R[i][j])); m = std::max(m, std::fabs(x.p[i] - b.p[i])); } return m == m ? m : 1e300; }
inline double dev(const KDL::Twist& a, const V& l, const V& r) { double m = 0; for (int i = 0; i < 3; i++) { double x = std::fabs(a.vel(i) - l[i]), y = std::fabs(a.rot(i) - r[i]); if (!(x <= 1e300) || !(y <= 1e300)) return 1e300; m = std::max(m, std::max(x, y)); } return m; }
inline void point(KDL::Path& p, const RPath& r, double s, double sd, double sdd, double tol, const char* at) {
    mc::step(); auto opts = r.at(s, sd, sdd); double d0 = 1e300, d1 = 1e300, d2 = 1e300; KDL::Frame F = p.Pos(s); KDL::Twist T = p.Vel(s, sd), A = p.Acc(s, sd, sdd);
    for (auto& o : opts) { d0 = std::min(d0, dev(F, o.f)); if (o.still && sd != 0 && p.getIdentifier() != KDL::Path::ID_POINT) d1 = d2 = 0; else { d1 = std::min(d1, dev(T, o.v, o.w)); d2 = std::min(d2, dev(A, o.a, o.b)); } }
    mc::check(d0 <= tol, "pose along the path", "%s: off by %g at %.9g of %.9g", at, d0, s, r.L());
    mc::check(d1 <= tol * 10, "velocity along the path", "%s: off by %g at %.9g of %.9g", at, d1, s, r.L());
    mc::check(d2 <= tol * 10, "acceleration along the path", "%s: off by %g at %.9g of %.9g", at, d2, s, r.L());
}
// s values: the ends of all pieces and points inside each
inline std::vector<double> grid(const RPath& r, int inside = 5) {
    std::vector<double> g; double b = 0; g.push_back(0);
    for (int t = 0; t < r.times; t++) for (auto& p : r.part) { for (int i = 1; i <= inside; i++) g.push_back(b + p.L * (i - 0.37) / (inside + 0.2)); b += p.L; g.push_back(std::min(b, r.L())); }
    g.back() = r.L(); return g;
}
inline double scale(const RPath& r) { double m = 1; for (auto& p : r.part) for (int i = 0; i < 3; i++) m = std::max(m, std::max(std::fabs(p.from.p[i]), std::max(std::fabs(p.lin[i]), p.L))); return m; }
inline double tolerance(const RPath& r) { return (r.half() ? 1e-5 : 1e-7) * scale(r); }
inline void same(KDL::Path& p, const RPath& r, const std::string& at, int inside = 5) {
    const char* A = at.c_str(); double L = p.PathLength(); double t = tolerance(r);
    if (!mc::check(std::fabs(L - r.L()) <= t, "path length", "%s: %.9g instead of %.9g", A, L, r.L())) return;
    for (double s : grid(r, inside)) { s = std::min(s, L); point(p, r, s, 1, 0, t, A); point(p, r, s, -0.7, 0.4, t, A); point(p, r, s, 0, 0, t, A); }
    double d = dev(p.Pos(0), r.start()); mc::check(d <= t, "starts at the start", "%s: off by %g", A, d);
    Fr e = r.times > 0 ? r.end() : r.start(); d = dev(p.Pos(L), e); mc::check(d <= t, "ends at the end", "%s: off by %g", A, d);
}
inline KDL::RotationalInterpolation* orient() { return new KDL::RotationalInterpolation_SingleAxis(); }
inline const std::vector<Fr>& frames() {
    static std::vector<Fr> f;
    if (f.empty()) f = {kin::frame(0, 0, 0, 0, 0, 0), kin::frame(0, 0, 0, 1, 0.5, -0.3), kin::frame(0.3, -0.4, 0.8, 0, 0, 0), kin::frame(0.3, -0.4, 0.8, -2, 0.1, 0.7), kin::frame(1.2, 0.5, -2, 0.02, 0, 0.01), kin::frame(M_PI, 0, 0, 0.4, 0, 0), kin::frame(0, 0, M_PI / 2, 100, -30, 7)};
    return f;
}
inline Piece straight(const Fr& a, const Fr& b, double eq) { Piece p; p.from = a; p.lin = b.p - a.p; p.rot = log(tr(a.R) * b.R, &p.half); p.length(eq); return p; }
inline Piece arc(const Fr& a, const V& c, const V& through, const M& endR, double alpha, double eq) {
    Piece p; p.kind = 1; p.from = a; p.c = c; V x = a.p - c; p.r = norm(x); p.x = (1 / p.r) * x; V z = cross(p.x, through - c); p.z = (1 / norm(z)) * z; p.alpha = alpha; p.rot = log(tr(a.R) * endR, &p.half); p.length(eq); return p;
}
// kinds of pieces that continue from a pose
enum { LINE, TURN, ARC, POINT, NEST, LINETURN, PIECES };
static const char* const PIECENAME[] = {"line", "turn", "arc", "point", "composite", "line with turn"};
inline PP piece(int kind, const Fr& from, double eq, RPath& r) {
    r = RPath();
    switch (kind) {
    case LINE: { Fr e = from * kin::frame(0, 0, 0, 0.6, 0, 0.2); r.part.push_back(straight(from, e, eq)); return PP(new KDL::Path_Line(k(from), k(e), orient(), eq)); }
    case TURN: { Fr e = from * kin::frame(0.4, 0.2, -0.9, 0, 0, 0); r.part.push_back(straight(from, e, eq)); return PP(new KDL::Path_Line(k(from), k(e), orient(), eq)); }
    case LINETURN: { Fr e = from * kin::frame(-0.2, 1.1, 0.3, -0.2, 0.1, 0.3); r.part.push_back(straight(from, e, eq)); return PP(new KDL::Path_Line(k(from), k(e), orient(), eq)); }
    case ARC: { V c = from * V(0.3, 0.5, 0), t = from * V(1, 0.2, 0.4); M R = from.R * kin::frame(0.1, -0.2, 0.5, 0, 0, 0).R; r.part.push_back(arc(from, c, t, R, 1.9, eq)); return PP(new KDL::Path_Circle(k(from), k(c), k(t), k(R), 1.9, orient(), eq)); }
    case POINT: { Piece p; p.from = from; r.part.push_back(p); return PP(new KDL::Path_Point(k(from))); }
    default: { auto c = new KDL::Path_Composite(); PP o(c); Fr at = from; for (int i : {LINETURN, ARC}) { RPath q; c->Add(piece(i, at, eq, q).release()); r.add(q); at = r.end(); } return o; }
    }
}
// ---- way points with rounded corners
struct Rounded {
    double radius, eq; int n = 0; Fr start, via; RPath r;
    // what adding a point does: 0, or the admissible error numbers
    std::vector<int> add(const Fr& p) {
        if (n == 0) { start = via = p; n++; return {}; } if (n == 1) { via = p; n++; return {}; }
        V ab = via.p - start.p, bc = p.p - via.p; double A = norm(ab), B = norm(bc); std::vector<int> e; if (A < 1e-7) e.push_back(3102); if (B < 1e-7) e.push_back(3103); if (!e.empty()) return e;
        V u = (1 / A) * ab, w = (1 / B) * bc; V cr = cross(u, w); double al = std::atan2(norm(cr), dot(u, w)); if (M_PI - al < 1e-7) return {3104};
        if (al < 1e-7) { r.part.push_back(straight(start, via, eq)); start = via; via = p; n++; return {}; }
        double d = radius * std::tan(al / 2); if (d >= A) e.push_back(3105); if (d >= B) e.push_back(3106); if (!e.empty()) return e;
        Fr cs, ce; cs.p = via.p - d * u; cs.R = start.R * expv(((A - d) / A) * log(tr(start.R) * via.R)); ce.p = via.p + d * w; ce.R = via.R * expv((d / B) * log(tr(via.R) * p.R));
        V nn = w - dot(w, u) * u; nn = (1 / norm(nn)) * nn; V c = cs.p + radius * nn;
        r.part.push_back(straight(start, cs, eq)); r.part.push_back(arc(cs, c, ce.p, ce.R, al, eq)); start = ce; via = p; n++; return {};
    }
    void finish() { if (n) r.part.push_back(straight(start, via, eq)); }
};
inline const std::vector<Fr>& waypoints() {
    static std::vector<Fr> w; if (w.empty()) { double x[][6] = {{0, 0, 0, 0, 0, 0}, {0, 0, 0.5, 1, 0, 0}, {0.3, 0, 0, 1, 1.1, 0}, {0, -0.4, 0, 2.1, 0, 0}, {0, 0.9, 0, 1, 0.05, 0}, {0.2, 0.2, 0.2, 0.4, 0.6, 0.9}, {0, 0, 0, -1.3, 0, 0}}; for (auto& a : x) w.push_back(kin::frame(a[0], a[1], a[2], a[3], a[4], a[5])); }
    return w;
}
// ---- closed curves run through several times
inline PP closed(int kind, RPath& r) {
    Fr a = frames()[3]; r = RPath();
    if (kind == 0) { V c = a.p + V(0.5, 0.2, 0), t = c + V(0, 1, 0.3); r.part.push_back(arc(a, c, t, a.R, 2 * M_PI, 0.5)); return PP(new KDL::Path_Circle(k(a), k(c), k(t), k(a.R), 2 * M_PI, orient(), 0.5)); }
    auto c = new KDL::Path_Composite(); PP p(c); Fr pts[3] = {a, a * kin::frame(0.5, 0, 0.3, 1, 0, 0), a * kin::frame(0, -0.9, 0, 0.3, 0.7, 0)};
    for (int i = 0; i < 3; i++) { const Fr &x = pts[i], &y = pts[(i + 1) % 3]; r.part.push_back(straight(x, y, 0.5)); c->Add(new KDL::Path_Line(k(x), k(y), orient(), 0.5)); if (kind == 2 && i == 1) { Piece q; q.from = y; r.part.push_back(q); c->Add(new KDL::Path_Point(k(y))); } }
    return p;
}
// ---- every kind of path
inline PP any(int kind, RPath& r) {
    Fr a = frames()[3];
    switch (kind) {
    case 0: case 1: case 2: case 3: case 4: case 5: return piece(kind, a, 0.5, r);
    case 6: { auto c = new KDL::Path_RoundedComposite(0.1, 0.5, orient()); PP p(c); Rounded q{0.1, 0.5}; for (int i : {0, 1, 2, 5}) { c->Add(k(waypoints()[i])); q.add(waypoints()[i]); } c->Finish(); q.finish(); r = q.r; return p; }
    case 7: case 8: { RPath q; PP g = closed(kind - 7, q); r = q; r.times = 2; r.closed = true; return PP(new KDL::Path_Cyclic_Closed(g.release(), 2)); }
    case 9: { V c = a.p + V(2, 0.2, 0), t = c + V(0, 0.1, 3); M R = a.R * kin::frame(0.3, 0.3, 0, 0, 0, 0).R; r = RPath(); r.part.push_back(arc(a, c, t, R, 0.3, 5)); return PP(new KDL::Path_Circle(k(a), k(c), k(t), k(R), 0.3, orient(), 5)); }
    default: { auto c = new KDL::Path_Composite(); PP p(c); r = RPath(); for (int i : {TURN, NEST, POINT}) { RPath q; c->Add(piece(i, r.part.empty() ? a : r.end(), 0.5, q).release()); r.add(q); } return p; }
    }
}
const int ANY = 11;
}  // namespace pth
