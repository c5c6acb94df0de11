// C31: paths are continuous curves with the stated geometry.
#include "paths.hpp"
using namespace pth;
static std::string tell(const Fr& a) { return mc::fmt("(%.3g %.3g %.3g)", a.p[0], a.p[1], a.p[2]); }
// a clone is the same curve, and stays so when the original is gone
static void copies(PP& p, const RPath& r, const std::string& at, int inside = 3) {
    PP c(p->Clone()); mc::check(c->getIdentifier() == p->getIdentifier(), "a clone is of the same kind", "%s", at.c_str());
    same(*c, r, at + " (clone)", inside); same(*p, r, at + " (cloned)", inside); p.reset(); PP d(c->Clone()); c.reset(); same(*d, r, at + " (clone of a clone)", inside); p = std::move(d);
}
static void lengths(KDL::Path& p, const Piece& q, const std::string& at) {
    if (q.dist() < 1e-9) return;
    for (double f : {0.0, 0.3, 1.0}) { double s = p.LengthToS(f * q.dist()); mc::check(std::fabs(s - f * q.L) <= 1e-7 * (1 + q.L), "length conversion", "%s: %g of %g", at.c_str(), s, q.L); }
}
static const double EQ[] = {0.01, 0.5, 3};
SCENARIO(lines) {
    auto& F = frames(); int n = (int)F.size(); const Fr &a = F[mc::choose(n, "from")], &b = F[mc::choose(n, "to")]; double eq = EQ[mc::choose(3, "equivalent radius")]; bool own = mc::choose(2, "owns");
    RPath r; r.part.push_back(straight(a, b, eq)); std::unique_ptr<KDL::RotationalInterpolation> o(own ? nullptr : orient());
    PP p(new KDL::Path_Line(k(a), k(b), own ? orient() : o.get(), eq, own)); std::string at = "line " + tell(a) + " to " + tell(b);
    if (!r.half()) { same(*p, r, at, 9); lengths(*p, r.part[0], at); if (own) copies(p, r, at); else { same(*p, r, at); PP c(p->Clone()); same(*c, r, at + " (clone)"); same(*p, r, at + " (cloned)"); } }
    else {   // the axis of half a turn may point either way
        double L = p->PathLength(), h = 1e-4 * L; mc::check(std::fabs(L - r.L()) <= 1e-5 * (1 + L), "path length", "%s: %g instead of %g", at.c_str(), L, r.L());
        mc::check(dev(p->Pos(0), a) < 1e-5 && dev(p->Pos(L), b) < 1e-5 * (1 + scale(r)), "ends at the end", "%s: off by %g", at.c_str(), dev(p->Pos(L), b));
        for (double f : {0.1, 0.5, 0.8}) { double s = f * L; KDL::Twist t = diff(p->Pos(s - h), p->Pos(s + h)) / (2 * h), v = p->Vel(s, 1); mc::check(dev(t, kin::v(v.vel), kin::v(v.rot)) < 1e-4 * (1 + v.rot.Norm() + v.vel.Norm()), "velocity along the path", "%s", at.c_str()); mc::check(std::fabs(v.rot.Norm() - M_PI / L) < 1e-5 * (1 + 1 / L), "velocity along the path", "%s", at.c_str()); }
    }
    mc::state(at + mc::fmt("%g", eq));
}
// the interpolation on its own: from any start to any end about one axis, whatever was set before, also one that was copied or read
static void turns(KDL::RotationalInterpolation& o, const M& S, const M& E, const std::string& at) {
    bool half; V w = log(tr(S) * E, &half); double a = norm(w), t = half ? 1e-5 : 2e-6; const char* A = at.c_str(); if (half) return;
    mc::step(); mc::check(std::fabs(o.Angle() - a) <= t, "angle of the interpolation", "%s: %.9g instead of %.9g", A, o.Angle(), a);
    auto off = [&](const KDL::Rotation& R, const M& B) { double d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d = std::max(d, std::fabs(R(i, j) - B[i][j])); return d == d ? d : 1e300; };
    auto offv = [&](const KDL::Vector& x, const V& y) { double d = 0; for (int i = 0; i < 3; i++) d = std::max(d, std::fabs(x(i) - y[i])); return d == d ? d : 1e300; };
    for (double f : {0.0, 0.3, 1.0, 1.7}) { double d = off(o.Pos(f * o.Angle()), S * expv(f * w)); mc::check(d <= 4 * t, "pose of the interpolation", "%s: off by %g at %g", A, d, f); }
    if (a < 1e-5) return;
    V u = S * ((1 / a) * w);
    for (double f : {0.0, 0.4, 1.0}) for (double v : {1.0, -0.6, 0.0}) for (double c : {0.0, 0.8}) {
        double d = offv(o.Vel(f * a, v), v * u), e = offv(o.Acc(f * a, v, c), c * u), q = 1e-9 + 1e-12 / a;
        mc::check(d <= q, "speed of the interpolation", "%s: off by %g", A, d); mc::check(e <= q, "acceleration of the interpolation", "%s: off by %g", A, e);
    }
}
SCENARIO(interpolation) {
    static const M S[] = {kin::frame(0, 0, 0, 0, 0, 0).R, kin::frame(0.3, -0.4, 0.8, 0, 0, 0).R, kin::frame(M_PI, 0, 0, 0, 0, 0).R, kin::frame(-2, 1.2, 0.1, 0, 0, 0).R};
    static const V U[] = {V(1, 0, 0), V(0, -1, 0), V(0, 0, 1), V(0.48, -0.6, 0.64), V(-0.6, 0, 0.8)}; static const double AN[] = {0, 1e-5, 1e-4, 1e-3, 0.03, 0.5, 1.5707963267948966, 2.4, 3.1};
    const M &s = S[mc::choose(4, "start")]; V u = U[mc::choose(5, "axis")]; double a = AN[mc::choose(9, "angle")]; M e = s * expv(a * u); std::string at = mc::fmt("turn of %g about (%g %g %g)", a, u[0], u[1], u[2]);
    std::unique_ptr<KDL::RotationalInterpolation> o(orient()); int before = mc::choose(4, "before");
    auto set = [&](KDL::RotationalInterpolation& x, const M& p, const M& q) { KDL::Frame P = k(Fr{p, V()}), Q = k(Fr{q, V()}); x.SetStartEnd(P.M, Q.M); };
    if (before & 1) { set(*o, S[1], S[3]); turns(*o, S[1], S[3], "an earlier turn"); }
    if (before & 2) { std::ostringstream out; o->Write(out); std::istringstream in(out.str()); o.reset(); try { o.reset(KDL::RotationalInterpolation::Read(in)); } catch (KDL::Error&) {} if (!mc::check((bool)o, "an interpolation is read back", "%s", out.str().c_str())) return; }
    set(*o, s, e); turns(*o, s, e, at);
    std::unique_ptr<KDL::RotationalInterpolation> c(o->Clone()); set(*c, e, s); turns(*c, e, s, at + " (clone, backwards)"); turns(*o, s, e, at + " (cloned)"); o.reset(); turns(*c, e, s, at + " (original gone)");
    mc::state(at + mc::fmt("%g", s[0][0]));
}
SCENARIO(lines_by_twist) {
    auto& F = frames(); int n = (int)F.size(); const Fr& a = F[mc::choose(n, "from")]; double eq = EQ[mc::choose(3, "equivalent radius")];
    static const V L[] = {V(0, 0, 0), V(1, 0, 0), V(0.2, -0.5, 0.3)}, W[] = {V(0, 0, 0), V(0, 0, 1.2), V(0.5, -1, 0.7), V(0, 2.9, 0), V(0, -4, 0), V(4, 3, -4)}; V l = L[mc::choose(3, "speed")], w = W[mc::choose(6, "turn")];
    Fr b; b.p = a.p + l; b.R = expv(w) * a.R; RPath r; r.part.push_back(straight(a, b, eq)); std::string at = "line by a twist from " + tell(a);
    PP p(new KDL::Path_Line(k(a), KDL::Twist(k(l), k(w)), orient(), eq)); same(*p, r, at); lengths(*p, r.part[0], at); copies(p, r, at);
    mc::state(at + mc::fmt("%g %g %g", eq, norm(l), norm(w)));
}
SCENARIO(circles) {
    auto& F = frames(); int n = (int)F.size(); const Fr& a = F[mc::choose(n, "from")]; double eq = EQ[mc::choose(3, "equivalent radius")];
    static const V C[] = {V(0.5, 0, 0), V(-0.3, 1.2, 0.4), V(0, 0, 20)}, T[] = {V(0, 1, 0), V(0.3, 0.2, -2), V(-0.4, 0.1, 0.1), V(1, 1, 1)};
    V c = a.p + C[mc::choose(3, "centre")], t = c + T[mc::choose(4, "plane")]; static const double AL[] = {0, 0.4, 1.5707963267948966, 3.141592653589793, 6.283185307179586, 9}; double al = AL[mc::choose(6, "angle")];
    static const Fr E[] = {kin::frame(0, 0, 0, 0, 0, 0), kin::frame(0.2, -0.5, 0.9, 0, 0, 0), kin::frame(0, 0, -2.5, 0, 0, 0)}; M R = a.R * E[mc::choose(3, "end")].R;
    if (norm(cross(a.p - c, t - c)) < 1e-3) return;
    RPath r; r.part.push_back(arc(a, c, t, R, al, eq)); std::string at = mc::fmt("circle of %g from ", al) + tell(a);
    bool own = mc::choose(2, "owns"); std::unique_ptr<KDL::RotationalInterpolation> o(own ? nullptr : orient());
    PP p(new KDL::Path_Circle(k(a), k(c), k(t), k(R), al, own ? orient() : o.get(), eq, own)); same(*p, r, at); lengths(*p, r.part[0], at); copies(p, r, at); mc::state(at + mc::fmt("%g %g %g", eq, r.L(), norm(c)));
}
SCENARIO(impossible_circles) {
    auto& F = frames(); const Fr& a = F[mc::choose((int)F.size(), "from")]; static const double D[] = {0, 1e-9, 1e-7, 2e-6, 1}; double d = D[mc::choose(5, "radius")]; int side = mc::choose(4, "plane");
    V c = a.p + V(d, 0, 0), t = side == 0 ? c + V(0, 1, 0) : side == 1 ? c + V(2, 0, 0) : side == 2 ? a.p : c; if (side == 2) t = c + V(-3 * d, 0, 0);
    int got = 0, own = mc::choose(2, "owns"); mc::step(); auto o = orient();
    try { PP p(new KDL::Path_Circle(k(a), k(c), k(t), k(a.R), 1, o, 0.5, own)); } catch (KDL::Error& e) { got = e.GetType(); }
    if (!own) delete o;
    bool small = d < 1e-6, flat = side != 0;
    double cancel = norm(a.p) * 1e-15;   // far from the origin the centre itself is rounded
    if (small) mc::check(got == 3001 || (flat && got == 3002) || d > 1e-7 - cancel, "too small a circle is refused", "%d", got); else if (flat) mc::check(got == 3002 || side == 1 || side == 2, "a circle without a plane is refused", "%d", got); else mc::check(got == 0, "possible circles are made", "%d", got);
    if (!small && flat && norm(a.p) < 3) mc::check(got == 3002, "a circle without a plane is refused", "%d (%d)", got, side);
    mc::state(mc::fmt("%g %d %d %d", d, side, got, own));
}
SCENARIO(points) {
    auto& F = frames(); const Fr& a = F[mc::choose((int)F.size(), "at")]; PP p(new KDL::Path_Point(k(a))); RPath r; Piece q; q.from = a; r.part.push_back(q); same(*p, r, "point"); copies(p, r, "point");
    for (double s : {0.0, 0.7, 2.0}) mc::check(p->LengthToS(s) == s, "length conversion", "point: %g", p->LengthToS(s));
    for (double s : {-1.0, 0.5, 3.0}) { mc::check(dev(p->Pos(s), a) == 0 && dev(p->Vel(s, 1), V(), V()) == 0 && dev(p->Acc(s, 1, 1), V(), V()) == 0, "a point stands still", " "); }
    mc::state(tell(a));
}
// ---- composites: every sequence of pieces, asked in every order
static void located(KDL::Path_Composite& c, const std::vector<RPath>& parts, double s, const std::string& at) {
    int i = -1; double in = -1; mc::step(); c.GetCurrentSegmentLocation(s, i, in); double b = 0; bool ok = false, any = false; double e = 1e-7 * (1 + c.PathLength());
    for (size_t k = 0; k < parts.size(); k++) { double l = parts[k].L(); if (s >= b - e && s <= b + l + e) { any = true; if ((int)k == i && std::fabs(in - (s - b)) <= e) ok = true; } b += l; }
    mc::check(ok && any, "lookup finds the right part", "%s: part %d, %g inside, for %g", at.c_str(), i, in, s);
}
SCENARIO_SPLIT(composites, 3) {
    int n = mc::choose(3, "number of pieces") + 1; double eq = EQ[mc::choose(2, "equivalent radius")]; Fr from = frames()[3];
    auto c = new KDL::Path_Composite(); PP p(c); RPath r; std::vector<RPath> parts; std::string at = "composite of";
    mc::check(c->GetNrOfSegments() == 0 && c->PathLength() == 0, "number of segments", "empty");
    for (int i = 0; i < n; i++) { int kd = mc::choose(PIECES, "piece"); RPath q; PP x = piece(kd, i ? r.end() : from, eq, q); r.add(q); parts.push_back(q); KDL::Path* raw = x.get(); c->Add(x.release()); at += std::string(" ") + PIECENAME[kd];
        mc::check(c->GetNrOfSegments() == i + 1 && c->GetSegment(i) == raw && std::fabs(c->GetLengthToEndOfSegment(i) - r.L()) <= 1e-7 * (1 + r.L()), "segments and lengths", "%s", at.c_str()); }
    // queries in any order
    std::vector<double> g = {0}; double b = 0; for (auto& q : parts) { g.push_back(b + 0.4 * q.L()); b += q.L(); g.push_back(b); } double L = c->PathLength(), t = tolerance(r); for (double& s : g) s = std::min(s, L);
    for (int i = 0; i < mc::tiered(2, 3); i++) { double s = g[mc::choose((int)g.size(), "at")]; point(*p, r, s, 1, 0, t, at.c_str()); located(*c, parts, s, at); }
    same(*p, r, at, 2); copies(p, r, at, 2);
    int na = 0; try { p->LengthToS(1); } catch (KDL::Error_MotionPlanning_Not_Applicable&) { na = 1; } mc::check(na, "not applicable", "%s", at.c_str());
    mc::state(at);
}
SCENARIO_SPLIT(growing, 3) {
    double eq = EQ[1]; Fr from = frames()[1]; auto c = new KDL::Path_Composite(); PP p(c); RPath r; std::vector<RPath> parts; std::string at = "composite of"; PP kept; RPath keptr;
    for (int d = 0; d < mc::tiered(5, 6); d++) {
        int op = mc::choose(6, "operation");
        if (op < 3) { static const int K[] = {LINE, ARC, POINT}; RPath q; PP x = piece(K[op], r.part.empty() ? from : r.end(), eq, q); r.add(q); parts.push_back(q); c->Add(x.release()); at += std::string(" ") + PIECENAME[K[op]]; }
        else if (parts.empty()) return;
        else if (op == 3) { double s = 0.3 * c->PathLength(); point(*p, r, s, 1, 0.2, tolerance(r), at.c_str()); located(*c, parts, s, at); at += " (asked near the start)"; }
        else if (op == 4) { double s = c->PathLength(); point(*p, r, s, 1, 0.2, tolerance(r), at.c_str()); located(*c, parts, s, at); at += " (asked at the end)"; }
        else { kept.reset(p->Clone()); keptr = r; at += " (cloned)"; }
    }
    if (!parts.empty()) same(*p, r, at, 2); if (kept) same(*kept, keptr, at + " (clone)", 2); mc::state(at);
}
static bool sharp(const std::vector<int>& e, int got) { if (e.empty()) return got == 0; for (int x : e) if (x == got) return true; return false; }
SCENARIO_SPLIT(rounded, 3) {
    static const double R[] = {0.1, 0.37, 1.4}; double radius = R[mc::choose(3, "radius")], eq = EQ[mc::choose(mc::tiered(2, 3), "equivalent radius")]; int n = mc::choose(mc::tiered(4, 5), "points") + 1;
    auto c = new KDL::Path_RoundedComposite(radius, eq, orient()); PP p(c); Rounded ref_{radius, eq}; std::string at = mc::fmt("rounded %g:", radius); auto& W = waypoints();
    for (int i = 0; i < n; i++) {
        int w = mc::choose((int)W.size(), "point"); auto e = ref_.add(W[w]); int got = 0; mc::step(); try { c->Add(k(W[w])); } catch (KDL::Error_MotionPlanning_Not_Feasible& x) { got = x.GetType(); }
        at += mc::fmt(" %d", w); if (!mc::check(sharp(e, got), "feasible corners are made, others refused", "%s: %d", at.c_str(), got)) return; if (got) at += "!";
        if (!ref_.r.part.empty()) { mc::check(std::fabs(c->PathLength() - ref_.r.L()) <= 1e-7 * (1 + ref_.r.L()), "path length", "%s: %g instead of %g", at.c_str(), c->PathLength(), ref_.r.L()); }
    }
    c->Finish(); ref_.finish(); same(*p, ref_.r, at, 2); mc::check(c->GetNrOfSegments() == (int)ref_.r.part.size(), "number of segments", "%s: %d", at.c_str(), c->GetNrOfSegments());
    if (c->GetNrOfSegments() == (int)ref_.r.part.size()) { double b = 0; for (size_t i = 0; i < ref_.r.part.size(); i++) { b += ref_.r.part[i].L; mc::check(std::fabs(c->GetLengthToEndOfSegment((int)i) - b) <= 1e-7 * (1 + b), "segments and lengths", "%s", at.c_str()); int j; double in, s = std::min(b - 0.5 * ref_.r.part[i].L, c->PathLength()); if (ref_.r.part[i].L > 1e-6) { c->GetCurrentSegmentLocation(s, j, in); mc::check(j == (int)i && std::fabs(in - 0.5 * ref_.r.part[i].L) < 1e-7 * (1 + b), "lookup finds the right part", "%s", at.c_str()); } } }
    copies(p, ref_.r, at, 1); mc::state(at);
}
// the same way points at every size
SCENARIO_SPLIT(rounded_sizes, 3) {
    static const double Z[] = {1e-3, 1e-2, 0.1, 10, 1e3}; double z = Z[mc::choose(5, "size")], radius = z * (mc::choose(2, "radius") ? 0.37 : 0.1), eq = z * EQ[1]; int n = mc::choose(2, "points") + 3;
    auto c = new KDL::Path_RoundedComposite(radius, eq, orient()); PP p(c); Rounded ref_{radius, eq}; std::string at = mc::fmt("rounded %g:", radius); auto& W = waypoints();
    for (int i = 0; i < n; i++) {
        int w = mc::choose((int)W.size(), "point"); Fr f = W[w]; f.p = z * f.p; auto e = ref_.add(f); int got = 0; mc::step(); try { c->Add(k(f)); } catch (KDL::Error_MotionPlanning_Not_Feasible& x) { got = x.GetType(); }
        at += mc::fmt(" %d", w); if (!mc::check(sharp(e, got), "feasible corners are made, others refused", "%s: %d", at.c_str(), got)) return; if (got) at += "!";
    }
    c->Finish(); ref_.finish(); same(*p, ref_.r, at, 2); mc::state(at);
}
// corners from nothing to sharp: made whenever there is room, and close to the two lines
SCENARIO(rounded_flat) {
    int e = mc::choose(19, "angle"), side = mc::choose(4, "direction"), far = mc::choose(3, "size"); double al = std::pow(10, -9 + e * 0.5), z = far == 0 ? 1 : far == 1 ? 0.05 : 50, R = 0.1 * z; if (e == 18) al = 1.2;
    V w = side == 0 ? V(0, 1, 0) : side == 1 ? V(0, -1, 0) : side == 2 ? V(0, 0, 1) : V(0, 0.6, -0.8); Fr a = kin::frame(0, 0, 0, 0, 0, 0), b = a, c = a, d = a; b.p = V(z, 0, 0); c.p = b.p + (z * std::cos(al)) * V(1, 0, 0) + (z * std::sin(al)) * w; d.p = c.p + V(0, 0, 2 * z);
    PP p(new KDL::Path_RoundedComposite(R, 0.5, orient())); auto m = static_cast<KDL::Path_RoundedComposite*>(p.get()); std::string at = mc::fmt("corner of %g, size %g", al, z); bool four = mc::choose(2, "goes on"); mc::step();
    try { m->Add(k(a)); m->Add(k(b)); m->Add(k(c)); if (four) m->Add(k(d)); m->Finish(); } catch (KDL::Error& x) { mc::check(false, "feasible corners are made, others refused", "%s: %s", at.c_str(), x.Description()); return; }
    double L = p->PathLength(), cut = R * std::tan(al / 2), want = 2 * z - 2 * cut + R * al, tol = 1e-7 * (1 + z); V dir2 = std::cos(al) * V(1, 0, 0) + std::sin(al) * w; double ang2 = std::acos(dir2[2]), cut2 = R * std::tan(ang2 / 2); if (four) want += 2 * z - 2 * cut2 + R * ang2;
    mc::check(std::fabs(L - want) < 4e-6 * R * al + tol, "path length", "%s: %.9g instead of %.9g", at.c_str(), L, want);
    double corner = z; for (int i = 0; i <= 60; i++) { double s = i < 21 ? corner - cut + (i - 5) / 10.0 * R * al : (i - 21) / 39.0 * (2 * z - 2.5 * R); s = std::min(std::max(s, 0.0), L); if (four && s > 2 * z - cut2 - 2 * cut) continue;
        V x = kin::v(p->Pos(s).p), v = kin::v(p->Vel(s, 1).vel), want; double q = s - (z - cut); V u(1, 0, 0); if (q <= 0) want = s * u; else if (q >= R * al) want = b.p + (cut + q - R * al) * (std::cos(al) * u + std::sin(al) * w); else want = (z - cut + R * std::sin(q / R)) * u + (R * (1 - std::cos(q / R))) * w;
        mc::step(); mc::check(norm(x - want) < 4e-6 * R + tol, "pose along the path", "%s: off by %g at %g", at.c_str(), norm(x - want), s); double turn = q <= 0 ? 0 : q >= R * al ? al : q / R; V dir = std::cos(turn) * u + std::sin(turn) * w; mc::check(norm(v - dir) < 1e-5 + (al > 1e-4 ? 0 : al), "velocity along the path", "%s: off by %g at %g", at.c_str(), norm(v - dir), s); }
    mc::state(at);
}
// a corner that cannot be made leaves everything as it was
SCENARIO(rounded_unchanged) {
    static const double R[] = {0, 1e-9, 1e-7, -0.1, 5}; double radius = R[mc::choose(5, "radius")]; auto& W = waypoints(); static const int SEQ[][4] = {{0, 1, 2, 5}, {6, 0, 1, 2}, {6, 0, 3, 5}, {0, 4, 3, 1}}; int q = mc::choose(4, "points"), clone = mc::choose(2, "cloned"); auto c = new KDL::Path_RoundedComposite(radius, 0.5, orient()); PP p(c); std::string at = mc::fmt("rounded %g:", radius);
    for (int i = 0; i < 4; i++) {
        int before = c->GetNrOfSegments(); double L = c->PathLength(); bool got = false; mc::step(); try { c->Add(k(W[SEQ[q][i]])); } catch (KDL::Error&) { got = true; } at += mc::fmt(" %d%s", SEQ[q][i], got ? "!" : "");
        if (got) { mc::check(c->GetNrOfSegments() == before && c->PathLength() == L, "a refused corner changes nothing", "%s: %d parts instead of %d", at.c_str(), c->GetNrOfSegments(), before); if (clone) { p.reset(p->Clone()); c = static_cast<KDL::Path_RoundedComposite*>(p.get()); } }
    }
    c->Finish(); double L = p->PathLength(); V prev = kin::v(p->Pos(0).p); for (int i = 1; i <= 200; i++) { V x = kin::v(p->Pos(L * i / 200).p); mc::check(norm(x - prev) <= L / 200 * 1.000001 + 1e-9, "pose along the path", "%s: jumps by %g", at.c_str(), norm(x - prev)); prev = x; }
    mc::state(at);
}
SCENARIO_SPLIT(rounded_clones, 3) {   // a clone is extended like the original
    double radius = 0.1, eq = 0.5; auto& W = waypoints(); static const int SEQ[][4] = {{0, 1, 2, 5}, {6, 0, 1, 3}, {0, 2, 3, 5}}; int q = mc::choose(3, "points"), when = mc::choose(5, "cloned after"), who = mc::choose(3, "goes on"), fin = mc::choose(2, "finished before");
    PP p(new KDL::Path_RoundedComposite(radius, eq, orient())), c; Rounded r{radius, eq}, rc{radius, eq}; std::string at = mc::fmt("rounded, cloned after %d", when);
    for (int i = 0; i <= 4; i++) {
        if (i == when) { c.reset(p->Clone()); rc = r; if (who == 2) p.reset(); }
        if (i == 4) break;
        const Fr& w = W[SEQ[q][i]]; if (p && (who != 1 || i < when)) { static_cast<KDL::Path_RoundedComposite&>(*p).Add(k(w)); r.add(w); } if (c && who != 0) { static_cast<KDL::Path_RoundedComposite&>(*c).Add(k(w)); rc.add(w); }
        mc::step();
    }
    (void)fin;
    if (p) { static_cast<KDL::Path_RoundedComposite&>(*p).Finish(); r.finish(); if (!r.r.part.empty()) same(*p, r.r, at, 2); } if (c) { static_cast<KDL::Path_RoundedComposite&>(*c).Finish(); rc.finish(); if (!rc.r.part.empty()) same(*c, rc.r, at + " (clone)", 2); }
    mc::state(at + mc::fmt("%d %d", q, who));
}
SCENARIO(rounded_refused) {
    static const double E[] = {0, -1, -1e-9}; double eq = E[mc::choose(3, "equivalent radius")]; int got = 0; mc::step(); try { PP p(new KDL::Path_RoundedComposite(0.1, eq, orient())); } catch (KDL::Error_MotionPlanning_Not_Feasible& e) { got = e.GetType(); } mc::check(got == 3101, "feasible corners are made, others refused", "%d", got); mc::state(mc::fmt("%g", eq));
}
// ---- closed curves run through several times
SCENARIO(cyclic) {
    int kind = mc::choose(3, "curve"), times = mc::choose(4, "times") + 1; RPath r; PP g = closed(kind, r); r.times = times; r.closed = true; bool own = mc::choose(2, "owns"); KDL::Path* raw = g.get(); if (own) g.release();
    PP p(new KDL::Path_Cyclic_Closed(raw, times, own)); std::string at = mc::fmt("cyclic %d, %d times", kind, times); same(*p, r, at, 4); copies(p, r, at);
    int na = 0; try { p->LengthToS(1); } catch (KDL::Error_MotionPlanning_Not_Applicable&) { na = 1; } mc::check(na, "not applicable", "%s", at.c_str());
    mc::state(at);
}
// ---- as text, and released once
static std::string text(KDL::Path& p, int precision = 17) { std::ostringstream o; o.precision(precision); p.Write(o); return o.str(); }
SCENARIO(written) {
    int kind = mc::choose(ANY, "path"); RPath r; PP p = any(kind, r); std::string t = text(*p); std::string at = mc::fmt("path %d read back", kind);
    std::istringstream i(t); mc::step(); PP q; try { q.reset(KDL::Path::Read(i)); } catch (KDL::Error& e) { mc::check(false, "read back", "%s: %s", at.c_str(), e.Description()); return; }
    same(*q, r, at, 3); std::string u = text(*q); std::istringstream j(u); PP q2(KDL::Path::Read(j)); same(*q2, r, at + " twice", 3); copies(q, r, at); mc::state(t);
}
// way points as text: the same path as the points added one by one
static std::string rounded_text(double radius, double eq, const std::vector<Fr>& w, int style) {
    std::ostringstream o; o.precision(17); static const char* GAP[] = {" ", "\n", " // the next\n ", "  /* next */ "}; const char* g = GAP[style % 4];
    o << (style & 4 ? "roundedcomposite[" : "ROUNDEDCOMPOSITE[ ") << " " << radius << " " << eq << g << (style & 4 ? "SingleAxis[]" : "SINGLEAXIS[ ]") << " " << w.size() << g; for (auto& f : w) o << k(f) << g; o << "]"; return o.str();
}
SCENARIO_SPLIT(rounded_read, 3) {
    static const double R[] = {0.05, 0.2, 1.4}; double radius = R[mc::choose(3, "radius")], eq = EQ[mc::choose(2, "equivalent radius")]; int style = mc::choose(8, "style"), n = mc::choose(mc::tiered(4, 5), "points") + 1; Rounded r{radius, eq}; std::vector<Fr> w; bool bad = false; std::string at = mc::fmt("rounded %g read:", radius);
    for (int i = 0; i < n; i++) { int x = mc::choose(i < 4 ? 5 : 3, "point"); x = x < 3 ? x : x == 3 ? 5 : 6; w.push_back(waypoints()[x]); at += mc::fmt(" %d", x); bad = !r.add(w.back()).empty() || bad; }
    std::string t = rounded_text(radius, eq, w, style); std::istringstream in(t + " TAIL"); mc::step(); PP p; int got = 0;
    try { p.reset(KDL::Path::Read(in)); } catch (KDL::Error& e) { got = e.GetType(); std::ostringstream trace; KDL::IOTraceOutput(trace); }
    if (bad) { mc::check(!p && got > 3100 && got < 3200, "feasible corners are made, others refused", "%s: %d", at.c_str(), got); return; }
    if (!mc::check((bool)p, "a path of way points is read", "%s: %d", at.c_str(), got)) return;
    std::string rest; in >> rest; mc::check(rest == "TAIL", "stream is left behind the path", "%s: %s", at.c_str(), rest.c_str());
    r.finish(); same(*p, r.r, at, 2); if (style == 0) copies(p, r.r, at, 1);
    mc::state(at);
}
SCENARIO(rounded_parts) {   // the parts of a rounded path, and of its clone, one after another; lengths of the way points are not defined
    double radius = mc::choose(2, "radius") ? 0.1 : 0.03; static const int SEQ[][5] = {{0, 1, 2, 5, 6}, {6, 0, 1, 2, 5}, {0, 2, 5, 1, 6}}; int q = mc::choose(3, "points"), n = mc::choose(4, "number") + 2, clone = mc::choose(2, "clone"); auto c = new KDL::Path_RoundedComposite(radius, 0.5, orient()); PP p(c); Rounded r{radius, 0.5};
    for (int i = 0; i < n; i++) { auto e = r.add(waypoints()[SEQ[q][i]]); try { c->Add(k(waypoints()[SEQ[q][i]])); } catch (KDL::Error&) { mc::check(!e.empty(), "feasible corners are made, others refused", "%d %d", q, i); return; } } c->Finish(); r.finish();
    if (clone) { p.reset(p->Clone()); c = static_cast<KDL::Path_RoundedComposite*>(p.get()); } std::string at = mc::fmt("rounded %d of %d, radius %g", q, n, radius); if (!mc::check(c->GetNrOfSegments() == (int)r.r.part.size(), "number of segments", "%s: %d", at.c_str(), c->GetNrOfSegments())) return;
    for (int i = 0; i < c->GetNrOfSegments(); i++) { RPath one; one.part.push_back(r.r.part[i]); mc::step(); if (one.part[0].L > 1e-6) same(*c->GetSegment(i), one, at + mc::fmt(" part %d", i), 3); mc::check(c->GetSegment(i)->getIdentifier() == (r.r.part[i].kind ? KDL::Path::ID_CIRCLE : KDL::Path::ID_LINE), "kinds of the parts", "%s: part %d", at.c_str(), i); }
    int na = 0; try { p->LengthToS(0.5); } catch (KDL::Error_MotionPlanning_Not_Applicable&) { na = 1; } mc::check(na, "not applicable", "%s", at.c_str()); mc::state(at);
}
SCENARIO(damaged) {   // cut short anywhere, or with any one character replaced: refused or read, everything released
    int kind = mc::choose(ANY + 1, "path"); RPath r; PP p = kind < ANY ? any(kind, r) : nullptr; std::string t = p ? text(*p, 4) : rounded_text(0.1, 0.5, {waypoints()[0], waypoints()[1], waypoints()[2]}, 0); int how = mc::choose(8, "damage"); static const char X[] = "[]x-0 ,"; int chunk = mc::choose(16, "part of the text");
    while (!t.empty() && isspace((unsigned char)t.back())) t.pop_back();
    for (size_t i = t.size() * chunk / 16; i < t.size() * (chunk + 1) / 16; i++) {
        std::string s = t; if (how == 7) s.resize(i); else { if (s[i] == X[how]) continue; s[i] = X[how]; }
        int ok = 0; long l = live::left([&] { std::istringstream in(s); try { PP q(KDL::Path::Read(in)); ok = q != nullptr; } catch (KDL::Error&) { } std::ostringstream trace; KDL::IOTraceOutput(trace); });
        mc::step(); mc::check(how != 7 || !ok, "cut short text is refused", "%s", s.c_str()); mc::check(l == 0, "everything is released", "%ld allocations left after reading %s", l, s.c_str());
    }
    mc::state(mc::fmt("%d %d %d", kind, how, chunk));
}
SCENARIO(released) {
    int what = mc::choose(ANY + 8, "what"); mc::step(); long l = live::left([&] {
        RPath r;
        if (what < ANY) { PP p = any(what, r); PP c(p->Clone()); p.reset(); PP d(c->Clone()); return; }
        Fr a = frames()[0], b = frames()[3]; std::unique_ptr<KDL::RotationalInterpolation> o(orient());
        switch (what - ANY) {   // parts that stay with the caller
        case 0: { PP p(new KDL::Path_Line(k(a), k(b), o.get(), 1, false)); PP c(p->Clone()); p.reset(); c->Pos(0.1); } break;
        case 1: { PP p(new KDL::Path_Circle(k(a), KDL::Vector(1, 0, 0), KDL::Vector(0, 1, 0), k(b.R), 1, o.get(), 1, false)); PP c(p->Clone()); p.reset(); c->Pos(0.1); } break;
        case 2: { RPath q; PP part = piece(LINE, a, 1, q); auto m = new KDL::Path_Composite(); PP p(m); m->Add(part.get(), false); PP c(p->Clone()); p.reset(); c->Pos(0.1); } break;
        case 3: { RPath q; PP part = closed(0, q); PP p(new KDL::Path_Cyclic_Closed(part.get(), 2, false)); PP c(p->Clone()); p.reset(); c->Pos(0.1); } break;
        case 4: { auto m = new KDL::Path_RoundedComposite(0.1, 1, o.get(), false); PP p(m); m->Add(k(a)); m->Add(k(b)); m->Finish(); PP c(p->Clone()); p.reset(); c->Pos(0.1); } break;
        case 5: try { PP p(new KDL::Path_RoundedComposite(0.1, 0, orient())); } catch (KDL::Error&) {} break;
        case 6: try { PP p(new KDL::Path_Circle(k(a), k(a.p), KDL::Vector(0, 1, 0), k(b.R), 1, orient(), 1)); } catch (KDL::Error&) {} break;
        case 7: { auto m = new KDL::Path_RoundedComposite(0.5, 1, orient()); PP p(m); for (int i : {0, 1, 1, 4, 6, 0, 2}) try { m->Add(k(waypoints()[i])); } catch (KDL::Error&) {} m->Finish(); } break;
        }
    });
    mc::check(l == 0, "everything is released", "%ld allocations left (%d)", l, what); mc::state(mc::fmt("%d", what));
}
