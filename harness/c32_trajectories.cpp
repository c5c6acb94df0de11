// C32: trajectories compose path and timing faithfully.
#include "paths.hpp"
#include <trajectory_composite.hpp>
#include <trajectory_segment.hpp>
#include <trajectory_stationary.hpp>
#include <velocityprofile_dirac.hpp>
#include <velocityprofile_rect.hpp>
#include <velocityprofile_spline.hpp>
#include <velocityprofile_trap.hpp>
#include <velocityprofile_traphalf.hpp>
using namespace pth;
typedef std::unique_ptr<KDL::Trajectory> TP;
typedef std::unique_ptr<KDL::VelocityProfile> VP;
enum { TRAP, HALF_START, HALF_END, RECT, DIRAC, SPLINE, PROFILES };
static const char* const PROFILE[] = {"trapezoidal", "half trapezoidal (start)", "half trapezoidal (end)", "rectangular", "dirac", "spline"};
static VP profile(int k, double v = 0.8, double a = 1.7) {
    switch (k) {
    case TRAP: return VP(new KDL::VelocityProfile_Trap(v, a)); case HALF_START: return VP(new KDL::VelocityProfile_TrapHalf(v, a, true)); case HALF_END: return VP(new KDL::VelocityProfile_TrapHalf(v, a, false));
    case RECT: return VP(new KDL::VelocityProfile_Rectangular(v)); case DIRAC: return VP(new KDL::VelocityProfile_Dirac()); default: return VP(new KDL::VelocityProfile_Spline());
    }
}
// One part of a motion: a path run through with the timing of a profile (its own copy), or standing still.
struct Part {
    double T = 0; RPath r; std::shared_ptr<KDL::VelocityProfile> q; Fr at; bool has_vel = true, has_acc = true, outside = true; std::vector<Part> inner;
    // admissible poses, speeds and accelerations
    void add(double t, std::vector<At>& o, double eps) const {
        if (!inner.empty()) {
            double b = 0; bool any = false;
            for (size_t i = 0; i < inner.size(); i++) { double e = b + inner[i].T; if ((i == 0 && t < 0) || (t >= b - eps && t <= e + eps) || (i + 1 == inner.size() && t > e)) {
                // before and after all parts the ends are held
                double u = t < 0 ? 0 : t - b; if (i + 1 == inner.size() && t >= e) u = inner[i].T; inner[i].add(u, o, eps); any = true;
                if (u > inner[i].T - eps) { At h; h = At(); std::vector<At> z; inner[i].add(inner[i].T, z, 0); for (auto& x : z) { h.f = x.f; o.push_back(h); } for (auto& x : z) o.push_back(x); }
                if (u < eps) { std::vector<At> z; inner[i].add(0, z, 0); for (auto& x : z) o.push_back(x); } }
                b = e; }
            (void)any; return;
        }
        if (!q) { At h; h.f = at; o.push_back(h); return; }
        double s = q->Pos(t), sd = 0, sdd = 0; if (has_vel) sd = q->Vel(t); if (has_acc) sdd = q->Acc(t);
        for (auto& x : r.at(s, sd, sdd)) o.push_back(x);
        // at the two ends it may be seen as still, just started or already standing (rounding of the duration)
        if (eps > 0 && (std::fabs(t) <= eps || std::fabs(t - T) <= eps)) { double u = std::fabs(t) <= eps ? 0 : T; for (double y : {u, u == 0 ? std::min(eps, T) : std::max(T - eps, 0.0)}) for (auto& x : r.at(q->Pos(y), has_vel ? q->Vel(y) : 0, has_acc ? q->Acc(y) : 0)) o.push_back(x); for (auto& x : r.at(q->Pos(u), 0, 0)) o.push_back(x); }
    }
    bool vel() const { for (auto& p : inner) if (!p.vel()) return false; return has_vel; }
    bool acc() const { for (auto& p : inner) if (!p.acc()) return false; return has_acc; }
    double tol() const { double m = q ? tolerance(r) : 1e-9; for (auto& p : inner) m = std::max(m, p.tol()); return m; }
    Fr end() const { if (!inner.empty()) return inner.back().end(); if (!q) return at; auto v = r.at(q->Pos(T), 0, 0); return v.empty() ? r.end() : v.back().f; }
    void knots(double b, std::vector<double>& k) const { if (inner.empty()) { for (int i = 0; i <= 12; i++) k.push_back(b + T * (i == 0 ? 0 : i == 12 ? 1 : (i + 0.23) / 12.4)); } for (auto& p : inner) { p.knots(b, k); b += p.T; } }
};
static bool refused(std::function<void()> f) { try { f(); } catch (KDL::Error_MotionPlanning_Incompatible&) { return true; } return false; }
static void pose_at(const KDL::Trajectory& t, const Part& w, double x, const char* A) {
    mc::step(); std::vector<At> o; w.add(x, o, 1e-9 * (1 + w.T)); double d0 = 1e300, d1 = 1e300, d2 = 1e300, tol = w.tol(); KDL::Frame F = t.Pos(x); for (auto& a : o) d0 = std::min(d0, dev(F, a.f));
    mc::check(d0 <= tol, "pose at a time", "%s: off by %g at %.9g of %.9g", A, d0, x, w.T);
    if (w.vel()) { KDL::Twist V = t.Vel(x); for (auto& a : o) d1 = std::min(d1, a.still ? 0.0 : dev(V, a.v, a.w)); mc::check(d1 <= 20 * tol, "velocity at a time", "%s: off by %g at %.9g of %.9g", A, d1, x, w.T); }
    if (w.vel() && w.acc()) { KDL::Twist C = t.Acc(x); for (auto& a : o) d2 = std::min(d2, a.still ? 0.0 : dev(C, a.a, a.b)); mc::check(d2 <= 100 * tol, "acceleration at a time", "%s: off by %g at %.9g of %.9g", A, d2, x, w.T); }
    else if (w.inner.empty()) mc::check(refused([&] { t.Acc(x); }), "what a profile cannot tell is refused", "%s", A);
}
static void motion(const KDL::Trajectory& t, const Part& w, const std::string& at) {
    const char* A = at.c_str(); if (!mc::check(std::fabs(t.Duration() - w.T) <= 1e-9 * (1 + w.T), "duration", "%s: %.12g instead of %.12g", A, t.Duration(), w.T)) return;
    std::vector<double> k; w.knots(0, k); for (double x : k) pose_at(t, w, std::min(x, w.T), A);
    if (w.outside) for (double d : {1e-3, 5.0}) { pose_at(t, w, -d, A); pose_at(t, w, w.T + d, A); }
}
static void copies(TP& t, const Part& w, const std::string& at) { TP c(t->Clone()); motion(*c, w, at + " (clone)"); motion(*t, w, at + " (cloned)"); t.reset(); TP d(c->Clone()); c.reset(); motion(*d, w, at + " (clone of a clone)"); t = std::move(d); }
static Part part(const RPath& r, const KDL::VelocityProfile& q, int kind) { Part p; p.r = r; p.q.reset(q.Clone()); p.T = q.Duration(); p.outside = kind != SPLINE; p.has_vel = kind != DIRAC || p.T > 0; p.has_acc = kind != DIRAC && kind != RECT; return p; }
static Part stand(double T, const Fr& f) { Part p; p.T = T; p.at = f; return p; }
// how a profile is set up for a length
enum { LIMITS, LONG, SHORT, FRACTION, BACK, SOME, BYDURATION, HOWS };
static const char* const HOW[] = {"at the limits", "slower", "not shorter than possible", "at a fraction", "backward", "along a part", "by duration"};
static bool set(KDL::VelocityProfile& q, int kind, int how, double L) {
    if (kind == SPLINE) { double a = how == BACK ? L : how == SOME ? 0.2 * L : 0, b = how == BACK ? 0 : how == SOME ? 0.7 * L : L; if (how == LIMITS || how == SHORT || how == FRACTION) return false; static_cast<KDL::VelocityProfile_Spline&>(q).SetProfileDuration(a, b, 3); return true; }
    switch (how) {
    case LIMITS: q.SetProfile(0, L); break; case LONG: q.SetProfileDuration(0, L, 3 + 7 * L); break; case SHORT: if (kind == DIRAC || kind == RECT) return false; q.SetProfileDuration(0, L, 1e-3 * L); break;
    case FRACTION: if (kind != TRAP) return false; static_cast<KDL::VelocityProfile_Trap&>(q).SetProfileVelocity(0, L, 0.4); break; case BACK: q.SetProfile(L, 0); break; case SOME: q.SetProfile(0.2 * L, 0.7 * L); break;
    }
    return true;
}
static PP path(int k, RPath& r) { if (k < ANY) return any(k, r); Fr a = frames()[3], b = a * kin::frame(0.3, 0, 0.2, 900, 200, 40); auto c = new KDL::Path_Composite(); PP p(c); r = RPath(); Fr m = a * kin::frame(0, 0.2, 0, 333.3, 100, 7); r.part.push_back(straight(a, m, 0.5)); r.part.push_back(straight(m, b, 0.5)); c->Add(new KDL::Path_Line(k < ANY + 2 ? pth::k(a) : pth::k(a), pth::k(m), orient(), 0.5)); c->Add(new KDL::Path_Line(pth::k(m), pth::k(b), orient(), 0.5)); return p; }
SCENARIO(segments) {
    int pk = mc::choose(ANY + 1, "path"), vk = mc::choose(PROFILES, "profile"), how = mc::choose(HOWS, "planned"), own = mc::choose(2, "owns"); RPath r; PP p = path(pk, r); double L = p->PathLength(); VP q = profile(vk);
    if (L == 0 && vk == SPLINE) return; if (how != BYDURATION && !set(*q, vk, how, L)) return; if (how == BYDURATION && vk == SPLINE && L == 0) return;
    KDL::Path* pp = p.get(); KDL::VelocityProfile* qp = q.get(); double T = 2.5 + 6 * L; std::string at = mc::fmt("path %d, %s %s", pk, PROFILE[vk], HOW[how]);
    TP t(how == BYDURATION ? new KDL::Trajectory_Segment(pp, qp, T, own != 0) : new KDL::Trajectory_Segment(pp, qp, own != 0)); auto& s = static_cast<KDL::Trajectory_Segment&>(*t); if (own) { p.release(); q.release(); }
    mc::check(s.GetPath() == pp && s.GetProfile() == qp, "its path and profile", "%s", at.c_str());
    Part w = part(r, *qp, vk);
    if (how == BYDURATION) { mc::check(std::fabs(w.T - T) < 1e-9 * T || vk == SPLINE, "duration", "%s: %g instead of %g", at.c_str(), w.T, T); mc::check(dev(t->Pos(0), r.start()) < tolerance(r) && dev(t->Pos(T), r.closed ? r.end() : r.end()) < 2 * tolerance(r), "runs along the whole path", "%s", at.c_str()); }
    motion(*t, w, at); if (own) copies(t, w, at); else { TP c(t->Clone()); t.reset(); motion(*c, w, at + " (clone)"); c.reset(); same(*p, r, at, 1); mc::check(q->Duration() == w.T, "parts of others are left alone", "%s", at.c_str()); }
    mc::state(at + mc::fmt("%d", own));
}
// long and short ways, gentle and rough limits: from the start to the end, never beyond
SCENARIO(ways) {
    static const double Z[] = {0.003, 1.7, 13.3, 107.7, 1003.3, 54321.9}, VM[] = {0.1, 1.3, 50}, AM[] = {0.03, 1.1, 100}; double z = Z[mc::choose(6, "length")], v = VM[mc::choose(3, "speed")], a = AM[mc::choose(3, "acceleration")]; int vk = mc::choose(DIRAC + 1, "profile"), how = mc::choose(5, "planned"); bool back = how == 3;
    Fr f = frames()[1], m = f, e = f; m.p = f.p + (z * 0.3) * V(0.6, 0, 0.8); e.p = m.p + (z * 0.7) * V(0, 1, 0); RPath r; auto c = new KDL::Path_Composite(); PP p(c); r.part.push_back(straight(f, m, 0.5)); r.part.push_back(straight(m, e, 0.5)); c->Add(new KDL::Path_Line(k(f), k(m), orient(), 0.5)); c->Add(new KDL::Path_Line(k(m), k(e), orient(), 0.5));
    double L = p->PathLength(); VP q = profile(vk, v, a); q->SetProfile(back ? L : 0, back ? 0 : L); double T = q->Duration(); if (how == 1 || how == 4) { if (vk == DIRAC) return; q->SetProfileDuration(0, L, how == 1 ? 1.37 * T : 7 * T + 200); T = q->Duration(); } if (how == 2) { if (vk != TRAP) return; static_cast<KDL::VelocityProfile_Trap&>(*q).SetProfileVelocity(0, L, 0.3); T = q->Duration(); }
    std::string at = mc::fmt("way of %g, %s, limits %g %g (%d)", z, PROFILE[vk], v, a, how); std::unique_ptr<KDL::VelocityProfile> mine(q->Clone()); KDL::Trajectory_Segment t(p.release(), q.release()); double tol = 1e-7 * (1 + z) + 1e-15 * a * T * T;
    V A = f.p, E = e.p; if (back) std::swap(A, E); mc::step();
    for (double x : {-1.0, 0.0}) if (vk != DIRAC || x) mc::check(norm(kin::v(t.Pos(x).p) - A) <= tol, "runs along the whole path", "%s: off by %g at the start", at.c_str(), norm(kin::v(t.Pos(x).p) - A));
    for (double x : {T, T + 1e-9, T + 1}) if (vk != DIRAC || x > T) mc::check(norm(kin::v(t.Pos(x).p) - E) <= tol, "runs along the whole path", "%s: off by %g at the end", at.c_str(), norm(kin::v(t.Pos(x).p) - E));
    for (int i = 1; i <= 60; i++) for (double x : {T * i / 61, T * (1 - std::pow(10, -i / 4.0)), T * std::pow(10, -i / 4.0)}) {
        double s = mine->Pos(x); mc::step(); mc::check(s >= -tol && s <= L + tol, "stays on the path", "%s: %.17g of %.17g at %.17g", at.c_str(), s, L, x); V w = s < 0.3 * z ? f.p + s * V(0.6, 0, 0.8) : m.p + (s - 0.3 * z) * V(0, 1, 0); V g = kin::v(t.Pos(x).p); mc::check(norm(g - w) <= tol, "pose at a time", "%s: off by %g at %.17g", at.c_str(), norm(g - w), x);
    }
    mc::state(at);
}
SCENARIO(stationary) {
    static const double D[] = {0, 1e-3, 2, 1e5}; double T = D[mc::choose(4, "duration")]; const Fr& f = frames()[mc::choose((int)frames().size(), "pose")]; TP t(new KDL::Trajectory_Stationary(T, k(f))); Part w = stand(T, f); std::string at = mc::fmt("standing still for %g", T); motion(*t, w, at);
    for (double x : {-1.0, 0.0, T / 3, T, T + 1}) mc::check(dev(t->Pos(x), f) == 0 && dev(t->Vel(x), V(), V()) == 0 && dev(t->Acc(x), V(), V()) == 0, "stands still", "%s", at.c_str()); copies(t, w, at); mc::state(at + mc::fmt("%g %g", f.p[0], f.R[0][1]));
}
// ---- sequences: adding, emptying, cloning in every order
enum { LINE_TRAP, ARC_RECT, TURN_HALF, STAND, INSTANT, COMPOSED, NESTED, ADDS };
static const char* const ADD[] = {"line", "arc", "turn", "stand", "instant", "composite path", "nested"};
static TP element(int k, const Fr& from, Part& w) {
    RPath r;
    switch (k) {
    case LINE_TRAP: { PP p = piece(LINE, from, 0.5, r); VP q = profile(TRAP); q->SetProfile(0, p->PathLength()); w = part(r, *q, TRAP); return TP(new KDL::Trajectory_Segment(p.release(), q.release())); }
    case ARC_RECT: { PP p = piece(ARC, from, 0.5, r); VP q = profile(TRAP, 3, 1); q->SetProfile(0, p->PathLength()); w = part(r, *q, TRAP); return TP(new KDL::Trajectory_Segment(p.release(), q.release())); }
    case TURN_HALF: { PP p = piece(TURN, from, 0.5, r); VP q = profile(HALF_START); KDL::VelocityProfile* v = q.get(); TP t(new KDL::Trajectory_Segment(p.release(), q.release(), 2.25)); w = part(r, *v, HALF_START); return t; }
    case STAND: w = stand(0.7, from); return TP(new KDL::Trajectory_Stationary(0.7, KDL::Frame(kin::k(from))));
    case INSTANT: w = stand(0, from); return TP(new KDL::Trajectory_Stationary(0, KDL::Frame(kin::k(from))));
    case COMPOSED: { PP p = piece(NEST, from, 0.5, r); VP q = profile(HALF_END); q->SetProfile(0, p->PathLength()); w = part(r, *q, HALF_END); return TP(new KDL::Trajectory_Segment(p.release(), q.release())); }
    default: { auto c = new KDL::Trajectory_Composite(); TP t(c); w = Part(); Fr at = from; for (int i : {STAND, LINE_TRAP, INSTANT, ARC_RECT}) { Part x; c->Add(element(i, at, x).release()); w.T += x.T; w.inner.push_back(x); at = x.end(); } return t; }
    }
}
SCENARIO_SPLIT(composites, 3) {
    int depth = mc::tiered(4, 6); auto c = new KDL::Trajectory_Composite(); TP t(c); Part w; TP kept; Part keptw; std::string at = "composite of"; Fr pos = frames()[3]; mc::check(c->Duration() == 0, "duration", "empty");
    for (int i = 0; i < depth; i++) {
        int op = mc::choose(ADDS + 2, "step"); mc::step();
        if (op < ADDS) { Part x; c->Add(element(op, pos, x).release()); w.inner.push_back(x); w.T += x.T; pos = x.end(); at += std::string(" ") + ADD[op]; }
        else if (op == ADDS) { c->Destroy(); w = Part(); pos = frames()[1]; at += " (emptied)"; mc::check(c->Duration() == 0, "duration", "%s: %g", at.c_str(), c->Duration()); }
        else { kept.reset(c->Clone()); keptw = w; at += " (cloned)"; }
        mc::check(std::fabs(c->Duration() - w.T) <= 1e-12 * (1 + w.T), "duration", "%s: %.12g instead of %.12g", at.c_str(), c->Duration(), w.T);
    }
    if (!w.inner.empty()) motion(*t, w, at); if (kept && !keptw.inner.empty()) { t.reset(); motion(*kept, keptw, at + " (clone)"); } mc::state(at);
}
// ---- as text
SCENARIO(written) {
    int pk = mc::choose(ANY, "path"), vk = mc::choose(DIRAC + 1, "profile"); RPath r; PP p = any(pk, r); VP q = profile(vk); q->SetProfile(0, p->PathLength()); Part w = part(r, *q, vk); KDL::Trajectory_Segment t(p.release(), q.release()); std::string at = mc::fmt("path %d, %s, read back", pk, PROFILE[vk]);
    std::ostringstream o; o.precision(17); t.Write(o); mc::step(); std::istringstream in(o.str() + " 42"); TP b; try { b.reset(KDL::Trajectory::Read(in)); } catch (KDL::Error& e) { mc::check(false, "read back", "%s: %s", at.c_str(), e.Description()); return; }
    int rest = 0; in >> rest; mc::check(rest == 42, "reads no more than its text", "%s", at.c_str()); motion(*b, w, at); std::ostringstream o2; o2.precision(17); b->Write(o2); std::istringstream in2(o2.str()); TP b2(KDL::Trajectory::Read(in2)); motion(*b2, w, at + " twice"); copies(b, w, at); mc::state(o.str());
}
SCENARIO(damaged) {
    int pk = mc::choose(ANY, "path"), vk = mc::choose(DIRAC + 1, "profile"), how = mc::choose(4, "damage"), chunk = mc::choose(4, "part of the text"); static const char X[] = "]x-"; RPath r; PP p = any(pk, r); VP q = profile(vk); q->SetProfile(0, p->PathLength()); KDL::Trajectory_Segment t(p.release(), q.release()); std::ostringstream o; o.precision(3); t.Write(o); std::string s0 = o.str(); while (!s0.empty() && isspace((unsigned char)s0.back())) s0.pop_back();
    for (size_t i = s0.size() * chunk / 4; i < s0.size() * (chunk + 1) / 4; i += mc::tiered(3, 1)) {
        std::string s = s0; if (how == 3) s.resize(i); else { if (s[i] == X[how]) continue; s[i] = X[how]; } int ok = 0; mc::step();
        long l = live::left([&] { std::istringstream in(s); try { TP b(KDL::Trajectory::Read(in)); ok = b != nullptr; } catch (KDL::Error&) { } std::ostringstream trace; KDL::IOTraceOutput(trace); });
        mc::check(how != 3 || !ok, "cut short text is refused", "%s", s.c_str()); mc::check(l == 0, "everything is released", "%ld allocations left after reading %s", l, s.c_str());
    }
    mc::state(mc::fmt("%d %d %d %d", pk, vk, how, chunk));
}
SCENARIO(released) {
    int what = mc::choose(6, "what"); mc::step(); long l = live::left([&] {
        RPath r; Part w; PP p = any(2, r); VP q = profile(TRAP); q->SetProfile(0, p->PathLength());
        switch (what) {
        case 0: { TP t(new KDL::Trajectory_Segment(p.release(), q.release())); TP c(t->Clone()); t.reset(); c->Pos(0.1); } break;
        case 1: { TP t(new KDL::Trajectory_Segment(p.get(), q.get(), false)); TP c(t->Clone()); t.reset(); c->Pos(0.1); } break;
        case 2: { TP t(new KDL::Trajectory_Segment(p.release(), q.release(), 4.0)); TP c(t->Clone()); t.reset(); c->Pos(0.1); } break;
        case 3: { TP t(new KDL::Trajectory_Segment(p.get(), q.get(), 4.0, false)); TP c(t->Clone()); t.reset(); c->Pos(0.1); } break;
        case 4: { auto m = new KDL::Trajectory_Composite(); TP t(m); for (int i = 0; i < ADDS; i++) m->Add(element(i, frames()[2], w).release()); TP c(t->Clone()); t.reset(); c->Pos(0.1); } break;
        case 5: { auto m = new KDL::Trajectory_Composite(); TP t(m); for (int i = 0; i < ADDS; i++) m->Add(element(i, frames()[2], w).release()); m->Destroy(); m->Destroy(); m->Add(element(0, frames()[2], w).release()); } break;
        }
    });
    mc::check(l == 0, "everything is released", "%ld allocations left (%d)", l, what); mc::state(mc::fmt("%d", what));
}
