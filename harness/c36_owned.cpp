// C36: what is handed over is destroyed once, what is lent is left alone, nothing is left behind.
#include "paths.hpp"
#include "solvers.hpp"
#include "treeref.hpp"
#include <kinfam_io.hpp>
#include <trajectory_composite.hpp>
#include <trajectory_segment.hpp>
#include <trajectory_stationary.hpp>
#include <treefksolverpos_recursive.hpp>
#include <treeiksolverpos_nr_jl.hpp>
#include <treeiksolverpos_online.hpp>
#include <treeiksolvervel_wdls.hpp>
#include <treejnttojacsolver.hpp>
#include <velocityprofile_dirac.hpp>
#include <velocityprofile_rect.hpp>
#include <velocityprofile_spline.hpp>
#include <velocityprofile_trap.hpp>
#include <velocityprofile_traphalf.hpp>
#include <functional>
using namespace pth;
// ---- parts that know whether they live: number -> times destroyed
struct Parts { static const int MAX = 4096; int n = 0; signed char dead[MAX]; int twice = 0; int born() { if (n == MAX) mc::fail("too many parts", "harness"); dead[n] = 0; return n++; } void died(int i) { if (++dead[i] > 1) twice++; } };
static Parts reg;
struct Mark { int id; Mark() : id(reg.born()) {} Mark(const Mark&) : id(reg.born()) {} ~Mark() { reg.died(id); id = -1; } };
struct PRot : KDL::RotationalInterpolation_SingleAxis, Mark { KDL::RotationalInterpolation* Clone() const override { return new PRot; } };
struct PPath : KDL::Path, Mark {
    double L; PPath(double l = 2) : L(l) {}
    double LengthToS(double l) override { return l; } double PathLength() override { return L; } KDL::Frame Pos(double s) const override { return KDL::Frame(KDL::Vector(s, L, id >= 0)); }
    KDL::Twist Vel(double, double sd) const override { return KDL::Twist(KDL::Vector(sd, 0, 0), KDL::Vector::Zero()); } KDL::Twist Acc(double, double, double sdd) const override { return KDL::Twist(KDL::Vector(sdd, 0, 0), KDL::Vector::Zero()); }
    void Write(std::ostream& o) override { o << "PART"; } KDL::Path* Clone() override { return new PPath(L); } IdentifierType getIdentifier() const override { return ID_LINE; }
};
struct PVel : KDL::VelocityProfile_Trap, Mark {   // refuses a duration on request, as the profiles do that cannot have one
    bool refuse; PVel(bool r) : VelocityProfile_Trap(1, 2), refuse(r) { SetProfile(0, 2); }
    void SetProfileDuration(double a, double b, double d) override { if (refuse) throw KDL::Error_MotionPlanning_Incompatible(); VelocityProfile_Trap::SetProfileDuration(a, b, d); }
    KDL::VelocityProfile* Clone() const override { return new PVel(*this); }
};
struct PTraj : KDL::Trajectory, Mark {
    double T; PTraj(double t = 1.5) : T(t) {}
    double Duration() const override { return T; } KDL::Frame Pos(double t) const override { return KDL::Frame(KDL::Vector(t, T, id >= 0)); } KDL::Twist Vel(double) const override { return KDL::Twist(KDL::Vector(1, 0, 0), KDL::Vector::Zero()); } KDL::Twist Acc(double) const override { return KDL::Twist::Zero(); }
    KDL::Trajectory* Clone() const override { return new PTraj(T); } void Write(std::ostream& o) const override { o << "PART"; }
};
// ---- objects made of parts
typedef std::vector<double> D;
struct Slot {
    KDL::Path* p = nullptr; KDL::Trajectory* t = nullptr; std::vector<int> own; D print; std::string name; int kind = -1; std::vector<std::pair<int, bool>> borrow;   // lent parts it uses, and whether its clones use them too
   
    bool live() const { return p || t; }
};
static D fingerprint(const Slot& s) {
    D o; double e = s.p ? s.p->PathLength() : s.t->Duration(); o.push_back(e);
    for (double f : {0.0, 0.31, 0.77, 1.0}) { KDL::Frame F = s.p ? s.p->Pos(f * e) : s.t->Pos(f * e); KDL::Twist v = s.p ? s.p->Vel(f * e, 1) : s.t->Vel(f * e), a = s.p ? s.p->Acc(f * e, 1, 0.5) : s.t->Acc(f * e); for (int i = 0; i < 9; i++) o.push_back(F.M.data[i]); for (int i = 0; i < 3; i++) o.push_back(F.p(i)); for (int i = 0; i < 6; i++) o.push_back(v(i) + 0.37 * a(i)); }
    return o;
}
static bool alike(const D& a, const D& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (!(std::fabs(a[i] - b[i]) <= 1e-5 * (1 + std::fabs(a[i])))) return false; return true; }
enum { LINEK, LINETWIST, CIRCLE, CIRCLE_SMALL, CIRCLE_PLANE, ROUNDED, ROUNDED_BAD, COMPOSITE, CYCLIC, SEGMENT, SEGMENT_DUR, SEGMENT_REFUSED, TCOMPOSITE, STATIONARY, MAKES };
static const char* const NAME[] = {"line", "line by twist", "circle", "circle too small", "circle without plane", "rounded", "rounded, refused", "composite", "cyclic", "segment", "segment with duration", "segment refused", "composite trajectory", "stationary"};
struct World {
    std::function<int(int, const char*)> pick; Slot s[3]; std::vector<std::function<void()>> lent; std::vector<int> lentid; std::string at;
    template <class T> T* lend(T* x) { lent.push_back([x] { delete x; }); lentid.push_back(x->id); return x; }
    int before = 0; std::vector<signed char> was;
    void begin() { before = reg.n; was.assign(reg.dead, reg.dead + reg.n); mc::step(); }
    // after an action: exactly these older parts have died; newcomers that live belong to slot k
    void end(std::vector<int> die, int k, const char* what) {
        at += std::string(" ") + what; std::sort(die.begin(), die.end());
        for (int i = 0; i < before; i++) { bool d = reg.dead[i] > was[i], w = std::binary_search(die.begin(), die.end(), i); mc::check(d == w, d ? "lent or shared parts live on" : "owned parts are destroyed with their owner", "%s: part %d", at.c_str(), i); }
        mc::check(reg.twice == 0, "destroyed once", "%s", at.c_str());
        for (int i = before; i < reg.n; i++) if (!reg.dead[i] && std::find(lentid.begin(), lentid.end(), i) == lentid.end()) { if (k >= 0 && s[k].live()) s[k].own.push_back(i); else mc::check(false, "nothing is left behind", "%s: part %d", at.c_str(), i); }
    }
    bool whole(const Slot& x) const { for (auto& b : x.borrow) if (reg.dead[b.first]) return false; return x.live(); }
    void look() { for (auto& x : s) if (whole(x)) mc::check(alike(fingerprint(x), x.print), "objects that are alive keep their motion", "%s: %s", at.c_str(), x.name.c_str()); }
    bool make(int k, int kind, bool own) {
        size_t had = lentid.size();
        KDL::Frame a = KDL::Frame(KDL::Rotation::RotX(0.2), KDL::Vector(1, 0.5, 0)), b(KDL::Rotation::RotZ(0.9), KDL::Vector(0, 2, 0.3)); Slot n; n.name = NAME[kind]; n.kind = kind; begin(); int refused = 0, expect = 0; PRot* o = nullptr; PPath* g = nullptr; PVel* v = nullptr;
        if (kind <= ROUNDED_BAD) { o = new PRot; if (!own) lend(o); } if (kind == CYCLIC || (kind >= SEGMENT && kind <= SEGMENT_REFUSED)) { g = new PPath; if (!own) lend(g); } if (kind >= SEGMENT && kind <= SEGMENT_REFUSED) { v = new PVel(kind == SEGMENT_REFUSED); if (!own) lend(v); }
        try {
            switch (kind) {
            case LINEK: n.p = new KDL::Path_Line(a, b, o, 0.5, own); break;
            case LINETWIST: n.p = new KDL::Path_Line(a, KDL::Twist(KDL::Vector(1, 0, 0.4), KDL::Vector(0, 0.3, 0.2)), o, 0.5, own); break;
            case CIRCLE: n.p = new KDL::Path_Circle(a, KDL::Vector(0, 0.5, 0), KDL::Vector(0, 3, 1), b.M, 1.1, o, 0.5, own); break;
            case CIRCLE_SMALL: expect = 1; n.p = new KDL::Path_Circle(a, a.p, KDL::Vector(0, 3, 1), b.M, 1.1, o, 0.5, own); break;
            case CIRCLE_PLANE: expect = 1; n.p = new KDL::Path_Circle(a, KDL::Vector(0, 0.5, 0), KDL::Vector(5, 0.5, 0), b.M, 1.1, o, 0.5, own); break;
            case ROUNDED: { auto r = new KDL::Path_RoundedComposite(0.1, 0.5, o, own); n.p = r; r->Add(a); r->Add(b); r->Add(KDL::Frame(b.M, KDL::Vector(0, 2, 2))); r->Finish(); } break;
            case ROUNDED_BAD: expect = 1; n.p = new KDL::Path_RoundedComposite(0.1, -1, o, own); break;
            case COMPOSITE: { auto c = new KDL::Path_Composite; n.p = c; c->Add(new PPath(1), true); if (own) c->Add(new PPath(3)); else c->Add(lend(new PPath(3)), false); } break;
            case CYCLIC: n.p = new KDL::Path_Cyclic_Closed(g, 2, own); break;
            case SEGMENT: n.t = new KDL::Trajectory_Segment(g, v, own); break;
            case SEGMENT_DUR: n.t = new KDL::Trajectory_Segment(g, v, pick(2, "no duration") ? 0.0 : 7.0, own); break;
            case SEGMENT_REFUSED: expect = 1; n.t = new KDL::Trajectory_Segment(g, v, pick(2, "no duration") ? 0.0 : 7.0, own); break;
            case TCOMPOSITE: { auto c = new KDL::Trajectory_Composite; n.t = c; c->Add(new PTraj); c->Add(new PTraj(0.5)); } break;
            case STATIONARY: n.t = new KDL::Trajectory_Stationary(2, a); break;
            }
        } catch (KDL::Error&) { refused = 1; }
        s[k] = n; std::string w = (own ? "make " : "lend to ") + n.name; mc::check(refused == expect, "what cannot be made is refused", "%s", w.c_str());
        end({}, n.live() ? k : -1, w.c_str()); if (s[k].live()) { s[k].print = fingerprint(s[k]); bool shares = kind == LINEK || kind == LINETWIST || kind == SEGMENT || kind == SEGMENT_DUR; for (size_t i = had; i < lentid.size(); i++) s[k].borrow.push_back({lentid[i], shares}); } return n.live();
    }
    // the lender takes the oldest lent part away: objects that use it can only be deleted from now on
    bool takeback() { for (size_t i = 0; i < lent.size(); i++) if (lent[i]) { begin(); lent[i](); lent[i] = nullptr; end({lentid[i]}, -1, "take back"); return true; } return false; }
    void clone(int k, int j) { begin(); Slot n; n.name = "clone of " + s[k].name; n.kind = s[k].kind; for (auto& b : s[k].borrow) if (b.second) n.borrow.push_back(b); if (s[k].p) n.p = s[k].p->Clone(); else n.t = s[k].t->Clone(); n.print = s[k].print; s[j] = n; end({}, j, "clone"); }
    void drop(int k) { begin(); std::vector<int> die = s[k].own; delete s[k].p; delete s[k].t; s[k] = Slot(); end(die, -1, "delete"); }
    bool inside(int k, int how) {   // slot k becomes a part of a larger object in its place
        Slot& x = s[k]; Slot old = x; begin();
        if (x.p) switch (how) {
            case 0: { auto c = new KDL::Path_Composite; c->Add(x.p); x.p = c; x.name = "composite of " + x.name; x.kind = COMPOSITE; } break;
            case 1: x.p = new KDL::Path_Cyclic_Closed(x.p, 2); x.name = "cycles of " + x.name; x.kind = CYCLIC; break;
            case 2: { auto v = new PVel(false); v->SetProfile(0, x.p->PathLength()); KDL::Path* p = x.p; x.p = nullptr; x.t = new KDL::Trajectory_Segment(p, v); x.name = "segment along " + x.name; x.kind = SEGMENT; } break;
            default: { KDL::Path* p = x.p; auto v = new PVel(true); bool got = false; x.p = nullptr; try { x.t = new KDL::Trajectory_Segment(p, v, 5.0); } catch (KDL::Error&) { got = true; } mc::check(got, "what cannot be made is refused", "segment"); std::vector<int> die = old.own; x = Slot(); end(die, -1, "refused segment"); return true; }
        } else { if (how) return false; auto c = new KDL::Trajectory_Composite; c->Add(x.t); x.t = c; x.name = "composite of " + x.name; x.kind = TCOMPOSITE; }
        end({}, k, "inside"); x.print = fingerprint(x); return true;
    }
    bool extend(int k, int how) {
        Slot& x = s[k]; begin(); std::vector<int> die;
        if (x.kind == COMPOSITE) { auto c = static_cast<KDL::Path_Composite*>(x.p); if (how == 0) c->Add(new PPath(0.7)); else if (how == 1) { c->Add(lend(new PPath(0.9)), false); x.borrow.push_back({lentid.back(), false}); } else return false; }
        else if (x.kind == TCOMPOSITE) { auto c = static_cast<KDL::Trajectory_Composite*>(x.t); if (how == 0) c->Add(new PTraj(0.4)); else if (how == 1) { die = x.own; x.own.clear(); c->Destroy(); c->Add(new PTraj(0.6)); } else return false; }
        else if (x.kind == ROUNDED) { auto c = static_cast<KDL::Path_RoundedComposite*>(x.p); double far[3][3] = {{3, 2, 5}, {0, 2, 2}, {0, 2, 2.01}}; if (how == 2) c->Finish(); else try { c->Add(KDL::Frame(KDL::Rotation::RotY(0.3 * how), KDL::Vector(far[how][0], far[how][1], far[how][2]))); } catch (KDL::Error&) { } }
        else return false;
        end(die, k, "extend"); x.print = fingerprint(x); return true;
    }
    void run(int depth) {
        int kind = pick(MAKES, "first object"); bool own = !pick(2, "lent"); make(0, kind, own);
        for (int d = 0; d < depth; d++) {
            struct A { int what, k, j; }; std::vector<A> acts; int freeslot = -1; for (int i = 0; i < 3; i++) if (!s[i].live()) { freeslot = i; break; }
            for (int k = 0; k < 3; k++) if (s[k].live() && !whole(s[k])) acts.push_back({1, k, 0}); else if (s[k].live()) { if (freeslot >= 0) acts.push_back({0, k, freeslot}); acts.push_back({1, k, 0}); for (int h = 0; h < (s[k].p ? 4 : 1); h++) acts.push_back({2, k, h}); int ex = s[k].kind == COMPOSITE || s[k].kind == TCOMPOSITE ? 2 : s[k].kind == ROUNDED ? 3 : 0; for (int h = 0; h < ex; h++) acts.push_back({3, k, h}); }
            bool some = false; for (auto& f : lent) some |= bool(f); if (some) acts.push_back({5, 0, 0});
            for (int k = 0; k < 3; k++) for (int j = 0; j < 3; j++) if (k != j && whole(s[k]) && whole(s[j]) && ((s[k].kind == COMPOSITE && s[j].p) || (s[k].kind == TCOMPOSITE && s[j].t))) acts.push_back({4, k, j});
            if (acts.empty()) break; int c = pick((int)acts.size() + 1, "action"); if (c == (int)acts.size()) break; A a = acts[c];
            switch (a.what) {
            case 0: clone(a.k, a.j); break; case 1: drop(a.k); break; case 2: inside(a.k, a.j); break; case 3: extend(a.k, a.j); break; case 5: takeback(); break;
            case 4: { begin(); Slot x = s[a.j]; s[a.j] = Slot(); if (x.p) static_cast<KDL::Path_Composite*>(s[a.k].p)->Add(x.p); else static_cast<KDL::Trajectory_Composite*>(s[a.k].t)->Add(x.t); s[a.k].own.insert(s[a.k].own.end(), x.own.begin(), x.own.end()); s[a.k].borrow.insert(s[a.k].borrow.end(), x.borrow.begin(), x.borrow.end()); end({}, a.k, "join"); s[a.k].print = fingerprint(s[a.k]); } break;
            }
            look();
        }
        for (int k = 0; k < 3; k++) { if (s[k].live()) drop(k); look(); }
        for (int i = 0; i < reg.n; i++) { bool l = std::find(lentid.begin(), lentid.end(), i) != lentid.end(); size_t li = std::find(lentid.begin(), lentid.end(), i) - lentid.begin(); if (l && !lent[li]) continue; mc::check(reg.dead[i] == !l, l ? "lent or shared parts live on" : "nothing is left behind", "%s: part %d", at.c_str(), i); }
        for (auto& f : lent) if (f) f(); mc::check(reg.twice == 0, "destroyed once", "%s", at.c_str());
    }
};
SCENARIO_SPLIT(parts, 3) {
    std::vector<int> log; size_t pos = 0; bool first = true; std::string at;
    long l = live::left([&] { reg.n = 0; reg.twice = 0; World w; pos = 0; bool f = first; first = false; w.pick = [&](int n, const char* nm) { if (f) { int c = mc::choose(n, nm); log.push_back(c); return c; } return log[pos++]; }; w.run(mc::tiered(3, 5)); if (f) { at = w.at; mc::state(at); } });
    mc::check(l == 0, "nothing is left behind", "%ld allocations: %s", l, at.c_str());
}
// ---- a reading that succeeds leaves the trace of the text readers as it was; a failed one can be told from it
static std::string trace() { std::ostringstream o; KDL::IOTraceOutput(o); return o.str(); }
SCENARIO(trace_left) {
    static const char* const FR[] = {"[1,2,3]", "ZERO", "[1,2,3,4,5,6]", "[6,5,4,3,2,1]", "[[1,0,0;0,1,0;0,0,1]]", "EULERZYX[10,20,30]", "EULERZYZ[10,20,30]", "RPY[10,20,30]", "ROT[[1,0,0],30]", "[[1,0,0;0,1,0;0,0,1][1,2,3]]", "DH[1,2,3,4]", "[1,2]", "[30]"};
    int what = mc::choose(ANY + 5 + 8 + 3, "text"), deep = mc::choose(3, "already traced"); trace(); std::string want; for (int i = 0; i < deep; i++) { KDL::IOTrace(mc::fmt("outer %d", i)); want = mc::fmt("outer %d\n", i) + want; }
    RPath r; std::ostringstream o; o.precision(17); bool ok = true; std::string got; mc::step();
    try {
        if (what < ANY) { PP p = any(what, r); p->Write(o); std::istringstream in(o.str()); PP q(KDL::Path::Read(in)); }
        else if (what < ANY + 4) { int v = what - ANY; std::unique_ptr<KDL::VelocityProfile> p(v == 0 ? (KDL::VelocityProfile*)new KDL::VelocityProfile_Dirac : v == 1 ? (KDL::VelocityProfile*)new KDL::VelocityProfile_Rectangular(2) : v == 2 ? (KDL::VelocityProfile*)new KDL::VelocityProfile_Trap(1, 2) : new KDL::VelocityProfile_TrapHalf(1, 2, true)); p->SetProfile(0, 3); p->Write(o); std::istringstream in(o.str()); std::unique_ptr<KDL::VelocityProfile> q(KDL::VelocityProfile::Read(in)); }
        else if (what == ANY + 4) { PP p = any(2, r); auto v = new KDL::VelocityProfile_Trap(1, 2); v->SetProfile(0, p->PathLength()); KDL::Trajectory_Segment t(p.release(), v); t.Write(o); std::istringstream in(o.str()); std::unique_ptr<KDL::Trajectory> q(KDL::Trajectory::Read(in)); }
        else {
            int i = what - ANY - 5; std::istringstream in(i < 8 ? FR[i == 7 ? 12 : i] : i == 8 ? "SINGLEAXIS" : i == 9 ? FR[9] : FR[10]); KDL::Vector v; KDL::Twist t; KDL::Wrench w; KDL::Rotation R; KDL::Frame F; KDL::Rotation2 r2;
            if (i < 2) in >> v; else if (i == 2) in >> t; else if (i == 3) in >> w; else if (i < 7) { in.str(i == 4 ? FR[5] : i == 5 ? FR[6] : FR[7]); in >> R; } else if (i == 7) in >> r2; else if (i == 8) { in.str("SINGLEAXIS[]"); std::unique_ptr<KDL::RotationalInterpolation> q(KDL::RotationalInterpolation::Read(in)); } else if (i == 9) { in.str("[RPY[10,20,30][1,2,3]]"); in >> F; } else in >> F;
        }
    } catch (KDL::Error& e) { ok = false; got = e.Description(); }
    mc::check(ok, "valid text is read", "%d: %s", what, got.c_str()); got = trace(); mc::check(!ok || got == want, "the trace is left as it was", "text %d: \"%s\" instead of \"%s\"", what, got.c_str(), want.c_str()); mc::state(mc::fmt("%d %d", what, deep));
}
// ---- solvers
static std::vector<int> shape(int i) { static const std::vector<int> S[] = {{}, {2}, {2, 4, 6}, {0, 6, 3, 2, 7, 4, 5}, {2, 1, 4, 12, 0}}; return S[i]; }
SCENARIO_SPLIT(solvers, 2) {
    int kind = mc::choose(17, "solver"), sh = mc::choose(5, "chain"); Spec sp = spec(shape(sh)); for (size_t i = 0; i < sp.size(); i++) sp[i] = heavy(sp[i], (int)i);
    int depth = mc::tiered(3, 4); std::vector<int> ops; { KDL::Chain c = chain(sp); auto s = solver(kind, c); int n = (int)s->calls.size() * 3 + 1 + s->settings(); for (int i = 0; i < depth; i++) ops.push_back(mc::choose(n, "action")); } std::string name;
    long steady = 0; long l = live::left([&] {
        KDL::Chain c = chain(sp); auto s = solver(kind, c); name = s->name;
        auto act = [&](int o, int i) { int n = (int)s->calls.size(); D out; if (o < n * 3) { int w = o / 3, p = o % 3; std::vector<int> dv; if (p == 2) { dv.assign(s->calls[w].sized, 0); if (!dv.empty()) dv[i % dv.size()] = 1; } s->call(w, p, dv, WHOLE, out); } else if (o == n * 3) s->update(); else s->set(o - n * 3 - 1, {}); };
        for (int k = 0; k < 2; k++) { long b = live::count(); for (size_t i = 0; i < ops.size(); i++) act(ops[i], (int)i); mc::step(); if (k == 1) steady = live::count() - b; }
    });
    mc::check(l == 0, "nothing is left behind", "%s, chain %d: %ld allocations", name.c_str(), sh, l); mc::check(steady == 0, "repeated use needs no more room", "%s, chain %d: %ld allocations more", name.c_str(), sh, steady); mc::state(mc::fmt("%d %d", kind, sh));
}
SCENARIO_SPLIT(tree_solvers, 1) {
    TRef t = choose_tree(3, {2, 1, 4}); int who = mc::choose(6, "solver"), tip = mc::choose(3, "tip"); std::vector<std::string> tips = {t.name(tip), t.name(0)}; if (tip == 0) tips.pop_back();
    long steady = 0; long l = live::left([&] {
        KDL::Tree T = t.make(); int n = T.getNrOfJoints(); KDL::JntArray q = arr(n, 1), dq(n), lo(n), hi(n), vm(n); for (int i = 0; i < n; i++) { lo(i) = -3; hi(i) = 3; vm(i) = 1; } KDL::TreeFkSolverPos_recursive fk(T); KDL::TreeIkSolverVel_wdls iv(T, tips); iv.setLambda(0.1);
        KDL::Frames goal; KDL::Twists tw; for (auto& x : tips) { KDL::Frame F; fk.JntToCart(q, F, x); goal[x] = F * KDL::Frame(KDL::Rotation::RotZ(0.05), KDL::Vector(0.01, 0, 0.02)); tw[x] = aim(1); }
        std::unique_ptr<KDL::TreeJntToJacSolver> js(who == 1 ? new KDL::TreeJntToJacSolver(T) : nullptr); std::unique_ptr<KDL::TreeIkSolverPos_NR_JL> nr(who == 3 ? new KDL::TreeIkSolverPos_NR_JL(T, tips, lo, hi, fk, iv, 20, 1e-6) : nullptr); std::unique_ptr<KDL::TreeIkSolverPos_Online> on(who == 4 ? new KDL::TreeIkSolverPos_Online(n, tips, lo, hi, vm, 1, 1, fk, iv) : nullptr); std::unique_ptr<KDL::TreeIdSolver_RNE> id(who == 5 ? new KDL::TreeIdSolver_RNE(T, KDL::Vector(0, 0, -9.81)) : nullptr);
        for (int k = 0; k < 4; k++) {
            long b = live::count(); { mc::step(); KDL::Frame F; KDL::Jacobian J(n); KDL::WrenchMap m; KDL::JntArray out(n);
            switch (who) { case 0: fk.JntToCart(q, F, tips[0]); fk.JntToCart(q, F, "nobody"); break; case 1: js->JntToJac(q, J, tips[0]); js->JntToJac(q, J, "nobody"); break; case 2: iv.CartToJnt(q, tw, dq); tw["nobody"]; iv.CartToJnt(q, tw, dq); tw.erase("nobody"); break; case 3: nr->CartToJnt(q, goal, out); break; case 4: on->CartToJnt(q, goal, out); break; case 5: m[tips[0]] = KDL::Wrench(KDL::Vector(1, 2, 3), KDL::Vector(3, 2, 1)); id->CartToJnt(q, q, q, m, out); break; } }
            if (k >= 2) steady += live::count() - b;
        }
    });
    mc::check(l == 0, "nothing is left behind", "solver %d, %s: %ld allocations", who, t.str().c_str(), l); mc::check(steady == 0, "repeated use needs no more room", "solver %d, %s: %ld allocations more", who, t.str().c_str(), steady); mc::state(mc::fmt("%d %d ", who, tip) + t.str());
}
// ---- chains and trees
SCENARIO_SPLIT(models, 2) {
    const int N = 3; int depth = mc::tiered(4, 5); std::vector<int> ops; for (int i = 0; i < depth; i++) ops.push_back(mc::choose(13, "action"));
    Spec sp = spec({2, 1, 4}); std::string at; for (int o : ops) at += mc::fmt(" %d", o);
    long l = live::left([&] {
        std::vector<KDL::Tree> t(1, KDL::Tree("root")); KDL::Chain c = chain(sp); int named = 0; t.reserve(8);
        for (int o : ops) {
            KDL::Tree& x = t.back(); mc::step(); Seg g = sp[named % N]; g.name = mc::fmt("n%d", named);
            switch (o) {
            case 0: named++; x.addSegment(g.make(), "root"); break;
            case 1: { std::string p = named ? mc::fmt("n%d", named - 1) : "root"; named++; x.addSegment(g.make(), p); } break;
            case 2: x.addSegment(g.make(), "nobody"); x.addSegment(sp[0].make(), "root"); x.addSegment(sp[0].make(), "root"); break;
            case 3: x.addChain(c, "root"); x.addChain(c, "nobody"); break;
            case 4: { KDL::Chain d; x.getChain("root", x.getSegments().begin()->first, d); x.getChain("nobody", "root", d); c.addChain(d); } break;
            case 5: { KDL::Tree o2("other"); x.getSubTree(x.getSegments().rbegin()->first, o2); x.getSubTree("nobody", o2); t.push_back(o2); } break;
            case 6: t.push_back(x); break;
            case 7: t.front() = x; break;
            case 8: { KDL::Tree o2("hook"); o2.addChain(chain(sp), "hook"); x.addTree(o2, "root"); x.addTree(o2, "nobody"); } break;
            case 9: if (t.size() > 1) t.erase(t.begin()); break;
            case 10: { KDL::Chain d(c); c = d; c.addChain(d); if (c.getNrOfSegments() > 12) c = chain(sp); } break;
            case 11: x = x; break;
            case 12: { std::ostringstream o2; o2 << x << c; KDL::Chain d = c; c = KDL::Chain(); c = d; } break;
            }
        }
        for (auto& x : t) mc::check(x.getNrOfSegments() + 1 == x.getSegments().size(), "tree is whole", "%s", at.c_str());
    });
    mc::check(l == 0, "nothing is left behind", "%ld allocations:%s", l, at.c_str()); mc::state(at);
}
