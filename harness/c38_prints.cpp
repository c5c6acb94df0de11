// C38: what is printed names everything the object holds, in order, once.
#include "treeref.hpp"
#include <framevel.hpp>
#include <framevel_io.hpp>
#include <frameacc_io.hpp>
#include <kinfam_io.hpp>
#include <utilities/rall1d_io.h>
#include <utilities/rall2d_io.h>
#include <path_line.hpp>
#include <rotational_interpolation_sa.hpp>
#include <trajectory_composite.hpp>
#include <trajectory_segment.hpp>
#include <trajectory_stationary.hpp>
#include <velocityprofile_spline.hpp>
#include <velocityprofile_trap.hpp>
#include <sstream>
#include <iomanip>
using namespace kin;
typedef std::vector<double> D;
struct Token { std::string word; double num; };
// words and numbers of a text, whatever is between them
static std::vector<Token> tokens(const std::string& s) {
    std::vector<Token> r;
    for (size_t i = 0; i < s.size();) {
        auto digit = [&](size_t k) { return k < s.size() && isdigit((unsigned char)s[k]); };
        if (isalpha((unsigned char)s[i]) || s[i] == '_') { size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) i++; r.push_back({s.substr(b, i - b), 0}); continue; }
        size_t k = i; if (s[k] == '-' || s[k] == '+') k++; if (k < s.size() && s[k] == '.') k++;
        if (!digit(k)) { i++; continue; }
        char* e; double v = strtod(s.c_str() + i, &e); r.push_back({"", v}); i = e - s.c_str();
    }
    return r;
}
static D numbers(const std::string& s) { D r; for (auto& t : tokens(s)) if (t.word.empty()) r.push_back(t.num); return r; }
static std::vector<std::string> words(const std::string& s) { std::vector<std::string> r; for (auto& t : tokens(s)) if (!t.word.empty()) r.push_back(t.word); return r; }
template <class T> static std::string printed(const T& x, int precision = 17) {
    std::ostringstream o; o << std::setprecision(precision); auto flags = o.flags(); char fill = o.fill(); o << x;
    mc::check(o.good() && o.precision() == precision && o.flags() == flags && o.fill() == fill, "stream after printing", "%s", o.str().substr(0, 60).c_str());
    return o.str();
}
static void same(const std::string& text, const D& want, const char* at, double tol = 0) {
    D got = numbers(text); if (!mc::check(got.size() == want.size(), "numbers printed", "%s: %zu instead of %zu in %s", at, got.size(), want.size(), text.substr(0, 200).c_str())) return;
    for (size_t i = 0; i < got.size(); i++) mc::check(std::fabs(got[i] - want[i]) <= tol, "numbers printed in order", "%s: number %zu is %.17g instead of %.17g", at, i, got[i], want[i]);
}
static void put(D& a, const D& b) { a.insert(a.end(), b.begin(), b.end()); }
static D flat(const KDL::Vector& v) { return {v(0), v(1), v(2)}; }
static D flat(const KDL::Rotation& R) { return D(R.data, R.data + 9); }
static D flat(const KDL::Frame& F) { D r = flat(F.M); put(r, flat(F.p)); return r; }
static const char* LETTER[] = {"linkd", "linkb", "linke", "linka", "linkc", "linkf", "linkg"};
// names of mine that a text holds, in order
static std::vector<std::string> mine(const std::string& s, const std::set<std::string>& names) { std::vector<std::string> r; for (auto& w : words(s)) if (names.count(w)) r.push_back(w); return r; }
static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + " "; return s; }
static D joint_numbers(const KDL::Joint& j) { D r = flat(j.JointAxis()); put(r, flat(j.JointOrigin())); return r; }
static D segment_numbers(const KDL::Segment& s) { D r = joint_numbers(s.getJoint()); put(r, flat(s.getFrameToTip())); return r; }
SCENARIO(joints_and_segments) {
    Seg g = menu()[mc::choose((int)menu().size(), "segment kind")]; g.name = LETTER[mc::choose(7, "name")]; KDL::Segment s = g.make(); const KDL::Joint& j = s.getJoint(); mc::step();
    std::set<std::string> names = {g.name, g.name + "_j"}; const char* at = g.name.c_str();
    std::string t = printed(j); same(t, joint_numbers(j), "joint"); mc::check(join(mine(t, names)) == g.name + "_j ", "names printed", "joint %s: %s", at, t.c_str());
    auto w = words(t); mc::check(std::count(w.begin(), w.end(), j.getTypeName()) == 1, "type printed", "%s in %s", j.getTypeName().c_str(), t.c_str());
    t = printed(s); same(t, segment_numbers(s), "segment"); mc::check(join(mine(t, names)) == g.name + " " + g.name + "_j ", "names printed", "segment %s: %s", at, t.c_str());
    w = words(t); mc::check(std::count(w.begin(), w.end(), j.getTypeName()) == 1, "type printed", "%s in %s", j.getTypeName().c_str(), t.c_str());
    mc::state(t);
}
SCENARIO_SPLIT(chains, 2) {
    int n = mc::choose(mc::tiered(4, 5), "segments"); Spec sp = choose_spec(n, mc::thorough() ? std::vector<int>{0, 1, 3, 4, 7, 9, 10, 12} : std::vector<int>{0, 1, 3, 4, 7, 9});
    std::set<std::string> names; for (int i = 0; i < n; i++) { sp[i].name = LETTER[i]; names.insert(sp[i].name); names.insert(sp[i].name + "_j"); }
    KDL::Chain c = chain(sp); mc::step(); std::string t = printed(c), want; D num; std::vector<std::string> types;
    for (int i = 0; i < n; i++) { want += sp[i].name + " " + sp[i].name + "_j "; put(num, segment_numbers(c.getSegment(i))); types.push_back(c.getSegment(i).getJoint().getTypeName()); }
    same(t, num, "chain"); mc::check(join(mine(t, names)) == want, "names printed", "chain of %d: %s", n, join(mine(t, names)).c_str());
    std::set<std::string> all(types.begin(), types.end()); mc::check(mine(t, all) == types, "type printed", "chain of %d: %s", n, join(mine(t, all)).c_str());
    mc::state(t);
}
// depth first, children in the order the tree holds them
static void walk(const KDL::SegmentMap::const_iterator& it, int depth, std::vector<std::pair<KDL::SegmentMap::const_iterator, int>>& out) { out.push_back({it, depth}); for (auto& c : GetTreeElementChildren(it->second)) walk(c, depth + 1, out); }
static void numbered(const std::string& t, const std::vector<std::pair<KDL::SegmentMap::const_iterator, int>>& order, const std::set<std::string>& names, const char* at) {
    size_t k = 0; std::string last; auto tok = tokens(t);
    for (size_t i = 0; i < tok.size(); i++) if (names.count(tok[i].word)) {
        if (!mc::check(k < order.size() && order[k].first->first == tok[i].word, "segments printed", "%s: %s at place %zu in %s", at, tok[i].word.c_str(), k, t.substr(0, 200).c_str())) return;
        size_t n = i + 1; while (n < tok.size() && !tok[n].word.empty() && !names.count(tok[n].word)) n++;
        bool moves = order[k].first->first != "root" && GetTreeElementSegment(order[k].first->second).getJoint().getType() != KDL::Joint::Fixed;
        if (moves) mc::check(n < tok.size() && tok[n].word.empty() && tok[n].num == GetTreeElementQNr(order[k].first->second), "joint numbers printed", "%s: %s in %s", at, tok[i].word.c_str(), t.substr(0, 200).c_str());
        k++;
    }
    mc::check(k == order.size(), "segments printed", "%s: %zu of %zu in %s", at, k, order.size(), t.substr(0, 200).c_str());
}
SCENARIO_SPLIT(trees, 3) {
    int n = mc::choose(mc::tiered(6, 7), "segments"); TRef m; int off = mc::choose(3, "kind pattern"); static const int K[] = {0, 1, 3, 12, 4};
    for (int i = 0; i < n; i++) { int p = mc::choose(i + 1, "parent") - 1; Seg g = menu()[K[(i + off) % 5]]; g.name = LETTER[i]; m.add(g, p); }
    KDL::Tree t = m.make(); mc::step(); std::set<std::string> names = {"root"}; for (auto& x : m.n) names.insert(x.name);
    std::vector<std::pair<KDL::SegmentMap::const_iterator, int>> order; walk(t.getRootSegment(), 0, order);
    numbered(printed(t), order, names, "tree");
    static const char* SEP[] = {"  ", "--", "", "+ "}; static const char* PRE[] = {"", "# ", "\t"};
    for (int i = -1; i < n; i++) {
        auto it = t.getSegment(m.name(i)); std::vector<std::pair<KDL::SegmentMap::const_iterator, int>> sub; walk(it, 0, sub);
        numbered(printed(it), sub, names, "tree element");
        for (int a = 0; a < 4; a++) for (int b = 0; b < 3; b++) for (unsigned level = 0; level < 4; level += 3) {
            if (level && (a + b + i) % 2) continue; std::string text; unsigned base = level;
            if (i < 0 && !level) text = a || b ? tree2str(t, SEP[a], PRE[b]) : tree2str(t); else text = !level && !b ? (a ? tree2str(it, SEP[a]) : tree2str(it)) : !level ? tree2str(it, SEP[a], PRE[b]) : tree2str(it, SEP[a], PRE[b], level);
            numbered(text, sub, names, "tree as text"); std::istringstream lines(text); std::string line; size_t k = 0;
            while (std::getline(lines, line)) {
                if (line.empty()) continue; std::string want = PRE[b]; if (k >= sub.size()) { mc::fail("lines of a tree as text", "too many in %s", text.c_str()); break; }
                for (unsigned l = 0; l < base + sub[k].second; l++) want += SEP[a];
                mc::check(line.compare(0, want.size() + sub[k].first->first.size(), want + sub[k].first->first) == 0, "levels of a tree as text", "line %zu: %s", k, line.c_str()); k++;
            }
            mc::check(k == sub.size(), "lines of a tree as text", "%zu instead of %zu", k, sub.size());
        }
    }
    mc::state(printed(t));
}
// numbers with six digits or less, of every sign
static double val(int i, int p) { static const double B[] = {0.25, -1.5, 12.125, -0.0625, 3, -250.5, 0, 1e-3}; return B[(i * 3 + p) % 8] + (i + p) % 5; }
SCENARIO_SPLIT(arrays, 2) {
    int kind = mc::choose(3, "kind"), n = mc::choose(kind ? mc::tiered(10, 14) : mc::tiered(5, 6), "size"); mc::step(); D want; std::string t;
    if (kind == 0) { KDL::JntArray a(n); static const double B[] = {0.25, -1.5, 12.125, 0, -250.5, 1e-3}; for (int i = 0; i < n; i++) { a(i) = B[mc::choose(6, "coordinate")]; want.push_back(a(i)); } t = printed(a, 6); }
    else { int p = mc::choose(8, "pattern");
        if (kind == 1) { KDL::Jacobian J(n); for (int i = 0; i < 6; i++) for (int j = 0; j < n; j++) { J(i, j) = val(i * n + j, p); want.push_back(J(i, j)); } t = printed(J, 6); }
        else { KDL::JntSpaceInertiaMatrix H(n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { H(i, j) = val(i * n + j, p); want.push_back(H(i, j)); } t = printed(H, 6); } }
    same(t, want, kind == 0 ? "array" : kind == 1 ? "jacobian" : "inertia matrix", 0); mc::state(t);
}
static std::string tail(const std::string& s) { size_t i = s.rfind('('); return i == std::string::npos ? s : s.substr(i); }
SCENARIO_SPLIT(derivatives, 2) {
    using namespace KDL; int p = mc::choose(mc::tiered(12, 60), "numbers"), kind = mc::choose(10, "type"); mc::step(); int c = 0; auto x = [&]() { return std::sin(1.7 * p + 0.9 * c++) * std::pow(10., (p + c) % 5 - 2); };
    auto V = [&]() { double a = x(), b = x(), d = x(); return KDL::Vector(a, b, d); }; auto R = [&]() { double a = x(), b = x(), d = x(); return KDL::Rotation::RPY(a, b, d); };
    D want; std::string t; auto vv = [&](const VectorVel& a) { put(want, flat(a.p)); put(want, flat(a.v)); }; auto va = [&](const VectorAcc& a) { put(want, flat(a.p)); put(want, flat(a.v)); put(want, flat(a.dv)); };
    auto mv = [&](const RotationVel& a) { put(want, flat(a.R)); put(want, flat(a.w)); }; auto ma = [&](const RotationAcc& a) { put(want, flat(a.R)); put(want, flat(a.w)); put(want, flat(a.dw)); };
    auto VV = [&]() { KDL::Vector a = V(), b = V(); return VectorVel(a, b); }; auto VA = [&]() { KDL::Vector a = V(), b = V(), d = V(); return VectorAcc(a, b, d); };
    auto MV = [&]() { KDL::Rotation a = R(); KDL::Vector b = V(); return RotationVel(a, b); }; auto MA = [&]() { KDL::Rotation a = R(); KDL::Vector b = V(), d = V(); return RotationAcc(a, b, d); };
    switch (kind) {
    case 0: { auto a = VV(); vv(a); t = printed(a); break; }
    case 1: { auto a = MV(); mv(a); t = printed(a); break; }
    case 2: { auto m = MV(); auto v = VV(); FrameVel a(m, v); mv(m); vv(v); t = printed(a); break; }
    case 3: { auto u = VV(); auto v = VV(); TwistVel a(u, v); vv(u); vv(v); t = printed(a); break; }
    case 4: { auto a = VA(); va(a); t = printed(a); break; }
    case 5: { auto a = MA(); ma(a); t = printed(a); break; }
    case 6: { auto m = MA(); auto v = VA(); FrameAcc a(m, v); ma(m); va(v); t = printed(a); break; }
    case 7: { auto u = VA(); auto v = VA(); TwistAcc a(u, v); va(u); va(v); t = printed(a); break; }
    case 8: { double a = x(), b = x(); doubleVel d(a, b); want = {a, b}; t = tail(printed(d)); break; }
    case 9: { double a = x(), b = x(), e = x(); doubleAcc d(a, b, e); want = {a, b, e}; t = tail(printed(d)); break; }
    }
    same(t, want, "derivative type", 0); mc::state(t);
}
// trajectories and polynomial profiles: everything that makes the motion, part after part
static std::string written(const std::function<void(std::ostream&)>& f) { std::ostringstream o; o << std::setprecision(17); f(o); mc::check(o.good() && o.precision() == 17, "stream after printing", " "); return o.str(); }
SCENARIO(polynomials) {
    static const double X[] = {0, 1, -2.5}, V[] = {0, 0.5, -3}; int kind = mc::choose(3, "given"); double p1 = X[mc::choose(3, "from")], p2 = X[mc::choose(3, "to")], T = mc::choose(2, "duration") ? 3.7 : 0.5, v1 = V[mc::choose(3, "speed")], v2 = V[mc::choose(3, "speed")], a1 = V[mc::choose(3, "acceleration")], a2 = V[mc::choose(3, "acceleration")];
    KDL::VelocityProfile_Spline p; if (kind == 0) p.SetProfileDuration(p1, p2, T); else if (kind == 1) p.SetProfileDuration(p1, v1, p2, v2, T); else p.SetProfileDuration(p1, v1, a1, p2, v2, a2, T);
    mc::step(); std::string t = written([&](std::ostream& o) { p.Write(o); }); D c = numbers(t); if (!mc::check(c.size() == 6, "numbers printed", "%s", t.c_str())) return;
    for (double x : {0.0, 0.3 * T, 0.9 * T, T}) { double v = 0, m = 1; for (int i = 5; i >= 0; i--) { v = v * x + c[i]; m = m * std::max(x, 1.0) + std::fabs(c[i]); } mc::check(std::fabs(v - p.Pos(x)) <= 1e-12 * m, "the coefficients printed are those of the motion", "%g instead of %g in %s", v, p.Pos(x), t.c_str()); }
    mc::state(t);
}
struct Wrote { std::unique_ptr<KDL::Trajectory> t; D num; std::vector<std::string> words; };
static const std::set<std::string> PARTS = {"STATIONARY", "SEGMENT", "LINE", "TRAP", "COMPOSITE", "SINGLEAXIS"};
static Wrote motion(int kind, int i) {
    Wrote w; KDL::Frame a(KDL::Rotation::RPY(0.1 * i, 0.2, -0.3), KDL::Vector(i, 0.5, -1)), b(KDL::Rotation::RPY(0.3, -0.2 * i, 0.5), KDL::Vector(0.25, i + 1, 2));
    if (kind == 0) { double T = 1.5 + i; w.t.reset(new KDL::Trajectory_Stationary(T, a)); w.num = {T}; put(w.num, flat(a)); w.words = {"STATIONARY"}; }
    else { auto p = new KDL::Path_Line(a, b, new KDL::RotationalInterpolation_SingleAxis(), 0.5); auto v = new KDL::VelocityProfile_Trap(0.5 + i, 2); v->SetProfile(0, p->PathLength()); w.t.reset(new KDL::Trajectory_Segment(p, v)); put(w.num, flat(a)); put(w.num, flat(b)); w.num.push_back(0.5); w.num.push_back(0.5 + i); w.num.push_back(2); w.words = {"SEGMENT", "LINE", "SINGLEAXIS", "TRAP"}; }
    return w;
}
static std::vector<std::string> upper(const std::string& s) { std::vector<std::string> r; for (auto w : words(s)) { for (char& c : w) c = (char)toupper((unsigned char)c); for (auto& p : PARTS) if (w == p || (p == "TRAP" && w.find("TRAP") == 0)) r.push_back(p); } return r; }
// the numbers wanted, in order, with any others between them
static void holds(const std::string& text, const D& want, const char* at) { D got = numbers(text); size_t k = 0; for (double x : got) if (k < want.size() && std::fabs(x - want[k]) < 1e-12) k++; mc::check(k == want.size(), "numbers printed in order", "%s: number %zu, %.17g, of %s", at, k, k < want.size() ? want[k] : 0, text.substr(0, 300).c_str()); }
SCENARIO_SPLIT(trajectories, 3) {
    int n = mc::choose(mc::tiered(5, 7), "parts"), nest = mc::choose(3, "nested"); D num; std::vector<std::string> wd; auto* c = new KDL::Trajectory_Composite(); std::unique_ptr<KDL::Trajectory> own(c); wd.push_back("COMPOSITE"); num.push_back(n);
    for (int i = 0; i < n; i++) {
        Wrote w = motion(mc::choose(2, "part"), i);
        if (i == 0 || n == 1) { std::string t = written([&](std::ostream& o) { w.t->Write(o); }); holds(t, w.num, "part"); mc::check(join(upper(t)) == join(w.words), "parts printed", "%s", t.c_str()); }
        if (nest && i == nest) { auto* in = new KDL::Trajectory_Composite(); wd.push_back("COMPOSITE"); num.push_back(1); in->Add(w.t.release()); c->Add(in); } else c->Add(w.t.release());
        put(num, w.num); wd.insert(wd.end(), w.words.begin(), w.words.end());
    }
    mc::step(); std::string t = written([&](std::ostream& o) { c->Write(o); }); holds(t, num, "composite"); mc::check(join(upper(t)) == join(wd), "parts printed", "%d: %s", n, join(upper(t)).c_str());
    if (n) { std::unique_ptr<KDL::Trajectory> d(c->Clone()); std::string u = written([&](std::ostream& o) { d->Write(o); }); holds(u, num, "copy of a composite"); mc::check(join(upper(u)) == join(wd), "parts printed", "%s", u.c_str()); }
    mc::state(t);
}
