// C30: velocity profiles keep their motion laws.
#include "mc.hpp"
#include <utilities/error.h>
#include <velocityprofile_dirac.hpp>
#include <velocityprofile_rect.hpp>
#include <velocityprofile_spline.hpp>
#include <velocityprofile_trap.hpp>
#include <velocityprofile_traphalf.hpp>
#include <memory>
#include <sstream>
using namespace KDL;
enum { TRAP, HALF_START, HALF_END, RECT, DIRAC, KINDS };
static const char* NAME[] = {"trapezoidal", "half trapezoidal starting", "half trapezoidal ending", "rectangular", "dirac"};
typedef std::unique_ptr<VelocityProfile> P;
static P make(int k, double v, double a) {
    switch (k) {
    case TRAP: return P(new VelocityProfile_Trap(v, a)); case HALF_START: return P(new VelocityProfile_TrapHalf(v, a, true)); case HALF_END: return P(new VelocityProfile_TrapHalf(v, a, false));
    case RECT: return P(new VelocityProfile_Rectangular(v)); default: return P(new VelocityProfile_Dirac());
    }
}
static void setmax(int k, VelocityProfile& p, double v, double a) {
    if (k == TRAP) static_cast<VelocityProfile_Trap&>(p).SetMax(v, a); else if (k == HALF_START || k == HALF_END) static_cast<VelocityProfile_TrapHalf&>(p).SetMax(v, a, k == HALF_START); else if (k == RECT) static_cast<VelocityProfile_Rectangular&>(p).SetMax(v);
}
// what is expected of a profile that has been set
struct Want { int k; double p1, p2, vmax, amax, T, peak, tol; };
static double shortest(int k, double L, double v, double a) {
    L = std::fabs(L); if (L == 0) return 0;
    switch (k) {
    case TRAP: return L * a >= v * v ? L / v + v / a : 2 * std::sqrt(L / a);
    case HALF_START: case HALF_END: return 2 * L * a >= v * v ? L / v + v / a / 2 : std::sqrt(2 * L / a);
    case RECT: return L / v;
    }
    return 0;
}
static double reach(int k, double L, double v, double a) { L = std::fabs(L); return k == TRAP ? std::min(v, std::sqrt(L * a)) : std::min(v, std::sqrt(2 * L * a)); }
static Want plain(int k, double p1, double p2, double v, double a) { return {k, p1, p2, v, a, shortest(k, p2 - p1, v, a), reach(k, p2 - p1, v, a), 0}; }
static bool throws_incompatible(std::function<void()> f) { try { f(); } catch (Error_MotionPlanning_Incompatible&) { return true; } return false; }
// the law, on a grid of times inside and outside the motion
static void law(VelocityProfile& p, const Want& w, const std::string& at, int grid = 24) {
    const char* A = at.c_str(); double T = p.Duration(), L = std::fabs(w.p2 - w.p1), sc = std::fabs(w.p1) + std::fabs(w.p2) + 1e-300, eps = 1e-11 * sc; double s = w.p2 < w.p1 ? -1 : 1;
    mc::step();
    if (!mc::check(std::isfinite(T) && T >= 0, "duration", "%s: %g", A, T)) return;
    if (!mc::check(std::fabs(T - w.T) <= 1e-9 * w.T + 1e-13, "duration", "%s: %.12g instead of %.12g", A, T, w.T)) return;
    if (w.k <= HALF_END) eps += 8e-15 * w.amax * shortest(w.k, L, w.vmax, w.amax) * shortest(w.k, L, w.vmax, w.amax) + 4e-16 * std::max(0.0, reach(w.k, L, w.vmax, w.amax)) * w.T + 4e-16 * w.amax * w.T * w.T;   // rounding of the polynomials
    if (T > 0) mc::check(std::fabs(p.Pos(T) - w.p2) <= eps && std::fabs(p.Pos(0) - w.p1) <= eps, "ends at the requested positions", "%s: %.15g .. %.15g", A, p.Pos(0), p.Pos(T));
    if (T == 0) { double x = p.Pos(0); mc::check(std::fabs(x - w.p1) <= eps || std::fabs(x - w.p2) <= eps, "ends at the requested positions", "%s: %.15g", A, x); }
    bool has_acc = w.k == TRAP || w.k == HALF_START || w.k == HALF_END, has_vel = w.k != DIRAC || T > 0;
    for (double d : {1e-6, 0.5, 1e3}) {
        double b = -d, e = T + d * (1 + T);
        mc::check(std::fabs(p.Pos(b) - w.p1) <= eps && std::fabs(p.Pos(e) - w.p2) <= eps, "holds before and after", "%s: %.15g, %.15g", A, p.Pos(b), p.Pos(e));
        if (has_vel) mc::check(p.Vel(b) == 0 && p.Vel(e) == 0, "holds before and after", "%s: speeds %g %g", A, p.Vel(b), p.Vel(e));
        if (has_acc) mc::check(p.Acc(b) == 0 && p.Acc(e) == 0, "holds before and after", "%s: accelerations %g %g", A, p.Acc(b), p.Acc(e));
    }
    if (!has_vel) mc::check(throws_incompatible([&] { p.Vel(0.0); }), "no speed: refused", "%s", A);
    if (!has_acc) mc::check(throws_incompatible([&] { p.Acc(0.0); }), "no acceleration: refused", "%s", A);
    if (T == 0) return;
    double h = 1e-5 * T, prev = w.p1, top = 0, Amax = has_acc ? w.amax : 0; double noise = (4e-16 * sc + eps * 1e-1) / h, vn = w.vmax * 1e-9 + noise;
    if (w.k == DIRAC) vn = L / T * 1e-9 + noise;
    for (int i = 0; i <= grid; i++) {
        double t = T * (i == 0 ? 0.002 : i == grid ? 0.998 : (double)i / grid + 0.00037);
        double x = p.Pos(t), v = p.Vel(t); top = std::max(top, std::fabs(v));
        mc::check(s * (x - prev) >= -eps && s * (w.p2 - x) >= -eps, "moves straight on", "%s: %.15g after %.15g at %g", A, x, prev, t); prev = x;
        mc::check(s * v >= -vn, "moves straight on", "%s: speed %g", A, v);
        if (w.k != DIRAC) mc::check(std::fabs(v) <= w.vmax * (1 + 1e-9), "within the speed limit", "%s: %.12g > %.12g", A, std::fabs(v), w.vmax);
        double dv = (p.Pos(t + h) - p.Pos(t - h)) / (2 * h);
        mc::check(std::fabs(dv - v) <= vn + 1.1 * Amax * h, "speed is the derivative of position", "%s: %.12g, difference %.12g at %g of %g", A, v, dv, t, T);
        if (has_acc) {
            double a = p.Acc(t); mc::check(std::fabs(a) <= w.amax * (1 + 1e-7), "within the acceleration limit", "%s: %.12g > %.12g", A, std::fabs(a), w.amax);
            if (p.Acc(t - h) == a && p.Acc(t + h) == a) { double da = (p.Vel(t + h) - p.Vel(t - h)) / (2 * h); mc::check(std::fabs(da - a) <= 1e-7 * w.amax + 4e-16 * w.vmax / h, "acceleration is the derivative of speed", "%s: %.12g, difference %.12g at %g", A, a, da, t); }
            // no jumps of the speed inside the motion
            mc::check(std::fabs(p.Vel(t + h) - p.Vel(t - h)) <= 2.2 * w.amax * h + 1e-12 * w.vmax, "speed without jumps", "%s: %.12g to %.12g at %g", A, p.Vel(t - h), p.Vel(t + h), t);
        }
    }
    if (w.peak >= 0 && L > 0) {
        double e = 1e-9 * w.vmax + (has_acc ? w.amax * T * 0 : 0);
        if (w.k == TRAP) { mc::check(std::fabs(p.Vel(0)) <= e && std::fabs(p.Vel(T)) <= e + 1e-9 * w.amax * T, "starts and ends at rest", "%s: %g %g", A, p.Vel(0), p.Vel(T)); mc::check(std::fabs(std::fabs(p.Vel(T / 2)) - w.peak) <= 1e-8 * w.vmax, "uses the allowed speed", "%s: %.12g instead of %.12g", A, p.Vel(T / 2), w.peak); }
        if (w.k == HALF_START) mc::check(std::fabs(p.Vel(0)) <= e && std::fabs(s * p.Vel(T) - w.peak) <= 1e-8 * w.vmax, "starts at rest and ends at speed", "%s: %g, %.12g instead of %.12g", A, p.Vel(0), p.Vel(T), w.peak);
        if (w.k == HALF_END) mc::check(std::fabs(s * p.Vel(0) - w.peak) <= 1e-8 * w.vmax && std::fabs(p.Vel(T)) <= e + 1e-9 * w.amax * T, "starts at speed and ends at rest", "%s: %.12g, %g instead of %.12g", A, p.Vel(0), p.Vel(T), w.peak);
        if (w.k == RECT) mc::check(std::fabs(s * p.Vel(T / 2) - L / T) <= 1e-9 * w.vmax, "constant speed", "%s: %g", A, p.Vel(T / 2));
    }
}
static const std::vector<double>& moves() { static std::vector<double> q = {0, 1, -0.3, 2.5, -2, 1e-7, 40}, t = {0, 1, -0.3, 2.5, -2, 1e-7, 40, 0.5, -1e3, 1e-12, 3.999}; return mc::thorough() ? t : q; }
static const double VM[] = {1, 0.2, 10, 3}, AM[] = {1, 0.5, 100, 0.01};
static const double DUR[] = {-1, 0, 0.5, 0.999999, 1, 1.0000001, 1.3, 2, 10, 1000};
static std::string tell(int k, const char* f, double a, double b, double x, double v, double ac) { return mc::fmt("%s %s(%g, %g, %g) within %g, %g", NAME[k], f, a, b, x, v, ac); }
SCENARIO(fastest) {
    int k = mc::choose(KINDS, "profile"); auto& M = moves(); double a = M[mc::choose((int)M.size(), "from")], b = M[mc::choose((int)M.size(), "to")], v = VM[mc::choose(4, "speed")], ac = k == RECT || k == DIRAC ? 1 : AM[mc::choose(4, "acceleration")];
    P p = make(k, v, ac); p->SetProfile(a, b); Want w = plain(k, a, b, v, ac); law(*p, w, tell(k, "SetProfile", a, b, 0, v, ac)); double st[3] = {w.T, a, b}; mc::state(st, 3);
}
SCENARIO(duration) {
    int k = mc::choose(KINDS, "profile"); auto& M = moves(); double a = M[mc::choose((int)M.size(), "from")], b = M[mc::choose((int)M.size(), "to")], v = VM[mc::choose(4, "speed")], ac = k == RECT || k == DIRAC ? 1 : AM[mc::choose(4, "acceleration")];
    double T = shortest(k, b - a, v, ac), D = mc::choose(2, "kind of duration") ? DUR[mc::choose(10, "duration")] * (T > 0 ? T : 1) : std::vector<double>{0.1, 7.5, 300, 1e-9}[mc::choose(4, "duration")];
    P p = make(k, v, ac); p->SetProfileDuration(a, b, D); Want w = plain(k, a, b, v, ac); bool longer = D > T; if (longer) w.T = D;
    if (k == TRAP) w.peak *= T > 0 ? T / w.T : 0;
    law(*p, w, tell(k, "SetProfileDuration", a, b, D, v, ac)); double st[3] = {w.T, a, b}; mc::state(st, 3);
}
SCENARIO(fraction) {
    auto& M = moves(); double a = M[mc::choose((int)M.size(), "from")], b = M[mc::choose((int)M.size(), "to")], v = VM[mc::choose(4, "speed")], ac = AM[mc::choose(4, "acceleration")]; static const double F[] = {1, 0.5, 0.01, 2, 0, -1, 0.999999}; double f = F[mc::choose(7, "fraction")];
    VelocityProfile_Trap p(v, ac); p.SetProfileVelocity(a, b, f); Want w = plain(TRAP, a, b, v, ac); double g = f > 1 ? 1 : f < KDL::epsilon ? KDL::epsilon : f; w.T /= g; w.peak *= g;
    if (f >= 0.01) law(p, w, tell(TRAP, "SetProfileVelocity", a, b, f, v, ac)); else { mc::step(); mc::check(std::fabs(p.Duration() - w.T) <= 1e-9 * w.T && std::fabs(p.Pos(p.Duration()) - b) <= 1e-5 * (std::fabs(a) + std::fabs(b)) && p.Pos(0) == a, "smallest fraction", "%g: %g instead of %g", f, p.Duration(), w.T); }
    double st[3] = {w.T, a, b}; mc::state(st, 3);
}
// ---- polynomials
SCENARIO(splines) {
    static const double X[] = {0, 1, -2.5}, V[] = {0, 0.5, -3}, TT[] = {1, 0.25, 10, 3.7};
    int kind = mc::choose(3, "given"); double p1 = X[mc::choose(3, "from")], p2 = X[mc::choose(3, "to")], T = TT[mc::choose(4, "duration")], v1 = 0, v2 = 0, a1 = 0, a2 = 0;
    if (kind) { v1 = V[mc::choose(3, "speed")]; v2 = V[mc::choose(3, "speed")]; } if (kind == 2) { a1 = V[mc::choose(3, "acceleration")]; a2 = V[mc::choose(3, "acceleration")]; }
    VelocityProfile_Spline p; if (mc::choose(2, "used before")) p.SetProfileDuration(5, -1, 2, 3, 4, -1, 2.0);
    mc::step(); if (kind == 0) p.SetProfileDuration(p1, p2, T); else if (kind == 1) p.SetProfileDuration(p1, v1, p2, v2, T); else p.SetProfileDuration(p1, v1, a1, p2, v2, a2, T);
    double sc = std::fabs(p1) + std::fabs(p2) + T * (std::fabs(v1) + std::fabs(v2)) + T * T * (std::fabs(a1) + std::fabs(a2)) + 1, e = 1e-10 * sc;
    mc::check(p.Duration() == T, "duration", "%g", p.Duration());
    mc::check(std::fabs(p.Pos(0) - p1) <= e && std::fabs(p.Pos(T) - p2) <= e, "ends at the requested positions", "%d: %g %g", kind, p.Pos(0), p.Pos(T));
    if (kind) mc::check(std::fabs(p.Vel(0) - v1) <= e / T && std::fabs(p.Vel(T) - v2) <= e / T, "ends with the requested speeds", "%d: %g %g", kind, p.Vel(0), p.Vel(T));
    if (kind == 2) mc::check(std::fabs(p.Acc(0) - a1) <= 10 * e / T / T && std::fabs(p.Acc(T) - a2) <= 10 * e / T / T, "ends with the requested accelerations", "%g %g", p.Acc(0), p.Acc(T));
    std::unique_ptr<VelocityProfile> c(p.Clone());
    for (int i = 0; i <= 20; i++) {
        double t = T * i / 20, h = 1e-4 * T; double dv = (p.Pos(t + h) - p.Pos(t - h)) / (2 * h), da = (p.Vel(t + h) - p.Vel(t - h)) / (2 * h);
        mc::check(std::fabs(dv - p.Vel(t)) <= 2e-6 * sc / T, "speed is the derivative of position", "%d: %g, difference %g", kind, p.Vel(t), dv);
        mc::check(std::fabs(da - p.Acc(t)) <= 2e-5 * sc / T / T, "acceleration is the derivative of speed", "%d: %g, difference %g", kind, p.Acc(t), da);
        mc::check(c->Pos(t) == p.Pos(t) && c->Vel(t) == p.Vel(t) && c->Acc(t) == p.Acc(t) && c->Duration() == T, "a copy is the same motion", " ");
    }
    double q = p.Pos(0.3 * T); p.SetProfileDuration(9, 9, 9); mc::check(std::fabs(c->Pos(0.3 * T) - q) <= e, "a copy does not change with the original", " ");
    double st[7] = {p1, p2, v1, v2, a1, a2, T}; mc::state(st, 7);
}
// no time at all: still a motion, of no duration, at one of the two ends; and nothing of it is left when it is set anew
SCENARIO(no_time) {
    static const double X[] = {0, 1, -2.5}, V[] = {0, 0.5, -3}, TT[] = {0, 1e-17, -1}; int kind = mc::choose(3, "given"), again = mc::choose(2, "set again"); double p1 = X[mc::choose(3, "from")], p2 = X[mc::choose(3, "to")], T = TT[mc::choose(2, "duration")], v = V[mc::choose(3, "speed")], a = V[mc::choose(3, "acceleration")];
    VelocityProfile_Spline p; if (mc::choose(2, "used before")) p.SetProfileDuration(5, -1, 2, 3, 4, -1, 2.0);
    mc::step(); if (kind == 0) p.SetProfileDuration(p1, p2, T); else if (kind == 1) p.SetProfileDuration(p1, v, p2, v, T); else p.SetProfileDuration(p1, v, a, p2, v, a, T);
    mc::check(p.Duration() == T, "duration", "%g", p.Duration()); double x = p.Pos(0); mc::check(std::fabs(x - p1) < 1e-12 || std::fabs(x - p2) < 1e-12, "a motion without duration is at one of its ends", "%d: %g", kind, x);
    mc::check(std::isfinite(p.Vel(0)) && std::isfinite(p.Acc(0)), "a motion without duration is finite", "%d", kind); if (kind) mc::check(p.Vel(0) == v, "ends with the requested speeds", "%g", p.Vel(0)); if (kind == 2) mc::check(p.Acc(0) == a, "ends with the requested accelerations", "%g", p.Acc(0));
    if (again) { p.SetProfileDuration(p1, p2, 2.0); mc::check(std::fabs(p.Pos(2) - p2) < 1e-12 && std::fabs(p.Pos(1) - (p1 + p2) / 2) < 1e-12 && std::fabs(p.Vel(1.5) - (p2 - p1) / 2) < 1e-12 && p.Acc(1) == 0, "a motion set anew forgets the one before", "%g", p.Pos(2)); }
    double st[4] = {p1, p2, v, a}; mc::state(st, 4);
}
// ---- every sequence of settings, new limits and copies
struct Kept { P p; Want w; };
SCENARIO_SPLIT(histories, 3) {
    int k = mc::choose(KINDS, "profile"); static const double L[][2] = {{1, 1}, {0.2, 3}, {4, 0.5}}; int lim = 0; P p = make(k, L[0][0], L[0][1]); bool set = false; Want w = {}; std::vector<Kept> kept; std::string h = NAME[k];
    static const double M[][2] = {{0, 2}, {1, -3}, {0.5, 0.5}, {0, 0.01}};
    for (int d = 0; d < mc::tiered(4, 5); d++) {
        int op = mc::choose(k == TRAP ? 13 : 11, "operation"); double v = L[lim][0], a = L[lim][1];
        if (op < 4) { p->SetProfile(M[op][0], M[op][1]); w = plain(k, M[op][0], M[op][1], v, a); set = true; h += mc::fmt(" set%d", op); }
        else if (op < 8) { int i = op - 4; double T = shortest(k, M[i][1] - M[i][0], v, a), D = i == 1 ? T / 2 : i == 2 ? 4 : 2 * T; p->SetProfileDuration(M[i][0], M[i][1], D); w = plain(k, M[i][0], M[i][1], v, a); if (D > T) { w.T = D; if (k == TRAP) w.peak *= T > 0 ? T / D : 0; } set = true; h += mc::fmt(" setduration%d", i); }
        else if (op == 8) { lim = (lim + 1) % 3; setmax(k, *p, L[lim][0], L[lim][1]); h += " newlimits"; }
        else if (op == 9) { if (!set) return; kept.push_back({P(p->Clone()), w}); h += " clone"; }
        else if (op > 10) { int i = op - 11; double g = i ? 0.25 : 0.5; static_cast<VelocityProfile_Trap&>(*p).SetProfileVelocity(M[i][0], M[i][1], g); w = plain(k, M[i][0], M[i][1], v, a); w.T /= g; w.peak *= g; set = true; h += mc::fmt(" setvelocity%d", i); }
        else { if (!set) return; P c(p->Clone()); kept.push_back({std::move(p), w}); p = std::move(c); h += " goonwithclone"; }
        mc::step(); if (set) law(*p, w, h, 8);
    }
    for (auto& x : kept) law(*x.p, x.w, h + " (copy)", 8);
    // a copy plans with the limits of the original
    if (set) { P c(p->Clone()); c->SetProfile(3, 1); law(*c, plain(k, 3, 1, L[lim][0], L[lim][1]), h + " (copy set anew)", 8); law(*p, w, h + " (original)", 8); }
    mc::state(h);
}
// ---- written out and read back
SCENARIO(text) {
    int k = mc::choose(KINDS, "profile"); double v = VM[mc::choose(4, "speed")], a = k == RECT || k == DIRAC ? 1 : AM[mc::choose(4, "acceleration")]; P p = make(k, v, a); if (mc::choose(2, "set")) p->SetProfile(1, 4);
    std::ostringstream o; p->Write(o); std::string s = o.str(); mc::step();
    { std::istringstream i(s); P r(VelocityProfile::Read(i)); r->SetProfile(0.5, -2); law(*r, plain(k, 0.5, -2, v, a), std::string(NAME[k]) + " read back", 8); }
    // cut short anywhere: an error, or a profile
    for (size_t n = 0; n < s.size(); n++) for (int c = 0; c < 2; c++) { std::istringstream i(s.substr(0, n) + (c ? "?" : "")); try { P r(VelocityProfile::Read(i)); mc::check(false, "cut short text is refused", "%s", i.str().c_str()); } catch (Error&) { mc::check(true, "cut short text is refused", " "); } mc::step(); }
    mc::state(s);
}
