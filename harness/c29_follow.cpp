// C29: solvers follow their model and forget earlier calls.
#include "solvers.hpp"
using namespace kin;
typedef KDL::SolverI SI;
static const int KINDS = 17;
static double tol(const D& a, int kind) { double m = 1; for (double x : a) m = std::max(m, std::fabs(x)); return (kind == 5 ? 1e-5 : 1e-7) * m; }
// the warm-started decomposition is iterative: compared where the problem is well posed, and less sharply
static bool comparable(int kind, const Spec& sp, int p) {
    if (kind != 5 || !nj(sp)) return true;
    Mat J = jacobian(sp, qpat(nj(sp), pp(p)), (int)sp.size()); auto sv = ref::svals(J.r < J.c ? ref::tr(J) : J);
    for (double x : sv) if (x < 1e-4) return false;
    return true;
}
struct World {
    int kind; KDL::Chain c; Spec sp; std::vector<int> parts; std::unique_ptr<Solver> s;
    int un, us;                            // joints and segments at the last update
    std::vector<int> rows; int ts = 0;     // settings that hold, joint by joint
    std::string hist;
    World(int k, const std::vector<int>& p) : kind(k), parts(p) { make(); c = chain(sp); s = solver(kind, c); un = nj(sp); us = (int)sp.size(); rows.assign(un, 0); s->inform(rows); hist = s->name + ":"; }
    void make() { sp = spec(parts); for (size_t i = 0; i < sp.size(); i++) sp[i] = heavy(sp[i], (int)i); }
    void rebuild() { make(); c = chain(sp); }
    bool clean() const { return nj(sp) == un && (int)sp.size() == us; }
    void call(int w, int p, const std::vector<int>& dv = {}, int seg = WHOLE) {
        mc::step();
        D a, b; int r = s->call(w, p, dv, seg, a); const char* nm = s->calls[w].name;
        mc::check(s->si().getError() == r, "the read-out repeats the code", "%s %s: returned %d, getError() %d", hist.c_str(), nm, r, s->si().getError());
        bool follows = s->follows_always();
        if (!follows && nj(sp) != un) { mc::check(r == SI::E_NOT_UP_TO_DATE, "refused until updated", "%s %s: %d with %d joints instead of %d", hist.c_str(), nm, r, nj(sp), un); return; }
        if (!follows && !clean() && r == SI::E_NOT_UP_TO_DATE) return;
        bool wrong = seg > (int)sp.size(); for (int x : dv) wrong |= x != 0;
        if (wrong) { mc::check(r == (seg > (int)sp.size() ? SI::E_OUT_OF_RANGE : SI::E_SIZE_MISMATCH), "wrong calls are refused", "%s %s: %d", hist.c_str(), nm, r); return; }
        auto f = solver(kind, c); if (f->settings()) { int e = f->setrows(rows, ts); mc::check(e == 0, "settings of a new solver", "%s: %d", hist.c_str(), e); }
        int g = f->call(w, p, {}, WHOLE, b); mc::step();
        if (!mc::check(r == g, "as a new solver", "%s %s: %d instead of %d", hist.c_str(), nm, r, g)) return;
        if ((r >= 0 || kind == 10) && comparable(kind, sp, p)) {
            if (!mc::check(a.size() == b.size(), "as a new solver", "%s %s: sizes %d, %d", hist.c_str(), nm, (int)a.size(), (int)b.size())) return;
            mc::nearv(a.data(), b.data(), (int)a.size(), tol(b, kind), "as a new solver", (hist + " " + nm).c_str());
        }
    }
    void update() {
        mc::step(); s->update(); un = nj(sp); us = (int)sp.size(); rows.resize(un, 0); s->inform(rows);
    }
};
// edits of the model
static const int EDITS = 6;
static void edit(World& w, int e) {
    switch (e) {
    case 0: w.parts.push_back(2); w.make(); w.c.addSegment(w.sp.back().make()); w.hist += " +joint"; break;
    case 1: w.parts.push_back(1); w.make(); w.c.addSegment(w.sp.back().make()); w.hist += " +fixed"; break;
    case 2: { KDL::Chain o; for (int k : {6, 4, 0}) { w.parts.push_back(k); w.make(); o.addSegment(w.sp.back().make()); } w.c.addChain(o); w.hist += " +chain"; } break;
    case 3: w.parts = {}; w.rebuild(); w.hist += " =empty"; break;
    case 4: { std::vector<int> n(w.parts.begin() + std::min<size_t>(1, w.parts.size()), w.parts.end()); w.parts = n; w.rebuild(); w.hist += " -first"; } break;
    case 5: for (int& k : w.parts) k = k == 1 ? 12 : k == 12 ? 1 : (k + 1) % 12 == 1 || (k + 1) % 12 == 9 ? 2 : (k + 1) % 12; w.rebuild(); w.hist += " =other"; break;
    }
}
static void history(const std::vector<std::vector<int>>& starts, int depth) {
    int kind = mc::choose(KINDS, "solver"); World w(kind, starts[mc::choose((int)starts.size(), "model")]);
    int n = (int)w.s->calls.size();
    for (int d = 0; d < depth; d++) {
        int op = mc::choose(EDITS + n + 4, "operation");
        if (op < EDITS) edit(w, op);
        else if (op < EDITS + n) { w.call(op - EDITS, d); w.hist += std::string(" ") + w.s->calls[op - EDITS].name; }
        else if (op == EDITS + n) { w.update(); w.hist += " update"; }
        else if (op == EDITS + n + 1) { for (int i = 0; i < n; i++) { std::vector<int> dv(w.s->calls[i].sized, 0); dv.back() = 1; w.call(i, d, dv); } w.hist += " missized"; }
        else if (op == EDITS + n + 2) { for (int i = 0; i < n; i++) if (w.s->calls[i].seg) w.call(i, d, {}, (int)w.sp.size() + 1); w.hist += " outofrange"; }
        else if (w.s->settings() && w.clean()) { w.ts = (w.ts + 1) % w.s->settings(); w.rows.assign(w.un, w.ts); mc::check(w.s->set(w.ts, {}) == 0, "settings are taken", "%s", w.hist.c_str()); w.hist += " set"; }
    }
    w.call(0, 1); w.hist += " call"; w.update(); w.hist += " update";
    for (int i = 0; i < n; i++) w.call(i, i);
    w.hist += " calls"; w.call(0, 2);
    mc::state(w.hist); mc::note("%s", w.hist.c_str());
}
SCENARIO_SPLIT(histories, 3) { history({{0, 2}, {4, 0, 6}}, mc::tiered(3, 4)); }
SCENARIO_SPLIT(long_models, 3) { history({{0, 6, 2, 7, 4, 0, 2}, {}, {0, 6, 2, 7, 4, 0}}, mc::tiered(2, 3)); }
// ---- on an unchanged model: every sequence of calls with every argument pattern
SCENARIO_SPLIT(unchanged, 3) {
    int kind = mc::choose(KINDS, "solver"); static const std::vector<std::vector<int>> M = {{0}, {0, 2, 6}, {4, 7, 6, 0, 2, 4}, {0, 6, 2, 7, 4, 0, 2, 6}};
    World w(kind, M[mc::choose(4, "model")]); int n = (int)w.s->calls.size();
    for (int d = 0; d < mc::tiered(3, 4); d++) { int x = mc::choose(n * 4 + 1, "call"); if (x == n * 4) { w.update(); w.hist += " update"; } else { w.call(x / 4, x % 4); w.hist += mc::fmt(" %s(%d)", w.s->calls[x / 4].name, x % 4); } }
    mc::state(w.hist);
}
