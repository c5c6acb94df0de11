// C28: solvers report errors consistently and refuse mis-sized arguments.
#include "solvers.hpp"
using namespace kin;
typedef KDL::SolverI SI;
static const int KINDS = 17;
static const std::vector<std::vector<int>>& shapes(int) {
    static std::vector<std::vector<int>> any = {{0}, {0, 2}, {1, 4, 12, 6}, {0, 6, 2, 7, 4, 0, 2}, {4, 7, 5, 10, 0, 6, 8, 3}};
    return any;
}
static Spec heavies(Spec s) { for (size_t i = 0; i < s.size(); i++) s[i] = heavy(s[i], (int)i); return s; }
static void readout(Solver& s, int r, const char* at) {
    mc::check(s.si().getError() == r, "the read-out repeats the code", "%s %s: returned %d, getError() %d", s.name.c_str(), at, r, s.si().getError());
    const char* t = s.si().strError(r); mc::check(t && *t && std::string(t) != "UNKNOWN ERROR", "a text for the code", "%s %s: %d", s.name.c_str(), at, r);
}
static void same(const D& a, const D& b, double tol, const std::string& key, const std::string& at) {
    if (!mc::check(a.size() == b.size(), key, "%s: sizes", at.c_str())) return;
    mc::nearv(a.data(), b.data(), (int)a.size(), tol, key, at.c_str());
}
static double tol(const D& a, int kind = 0) { double m = 1; for (double x : a) m = std::max(m, std::fabs(x)); return (kind == 5 ? 1e-5 : 1e-9) * m; }
// the warm-started decomposition is iterative: compared where the problem is well posed, and less sharply
static bool comparable(int kind, const Spec& sp, int p) {
    if (kind != 5) return true;
    Mat J = jacobian(sp, qpat(nj(sp), pp(p)), (int)sp.size()); auto sv = ref::svals(J.r < J.c ? ref::tr(J) : J);
    for (double x : sv) if (x < 1e-4) return false;
    return true;
}
static void correct(int kind, Solver& s, const KDL::Chain& c, const Spec& sp, int w, int p) {
    D o, f; int r = s.call(w, p, {}, WHOLE, o); std::string at = s.name + " " + s.calls[w].name;
    auto fresh = solver(kind, c); int g = fresh->call(w, p, {}, WHOLE, f);
    mc::step(2);
    mc::check(r == g, "the next correct call works normally", "%s: %d instead of %d", at.c_str(), r, g); readout(s, r, s.calls[w].name);
    if ((r >= 0 || kind == 10) && comparable(kind, sp, p)) same(o, f, tol(f, kind), "the next correct call works normally", at);
}
// ---- every combination of sizes one below, right, one above; every segment number
SCENARIO_SPLIT(sizes, 3) {
    int kind = mc::choose(KINDS, "solver"); auto& S = shapes(kind); int si = mc::choose((int)S.size(), "shape");
    Spec sp = heavies(spec(S[si])); KDL::Chain c = chain(sp); auto s = solver(kind, c);
    int w = mc::choose((int)s->calls.size(), "call"); const Call& k = s->calls[w];
    int seg = k.seg ? mc::choose(6, "segment number") : 0; int ns = (int)sp.size(); static const int XS[] = {0, 1, 2, 7};
    int sn = seg == 0 ? -1 : seg == 1 ? -5 : seg == 2 ? ns : seg == 3 ? ns + 1 : seg == 4 ? ns + 7 : 0; (void)XS;
    std::vector<int> dv(k.sized); bool wrong = false;
    for (int i = 0; i < k.sized; i++) { dv[i] = mc::choose(k.sized > 5 && !mc::thorough() ? 2 : 3, "size"); if (dv[i] == 2) dv[i] = -1; if (k.sized > 5 && dv[i] && i % 2) dv[i] = -dv[i]; wrong |= dv[i] != 0; }
    bool out = sn > ns, empty = sn == 0 && k.name == std::string("JntToCart(all)");
    D o; mc::step(); int r = s->call(w, mc::choose(2, "arguments"), dv, sn, o); std::string at = s->name + " " + k.name;
    readout(*s, r, k.name);
    if (wrong && !out) mc::check(empty ? r < 0 : r == SI::E_SIZE_MISMATCH, "wrong sizes are refused", "%s: %d, segment %d of %d", at.c_str(), r, sn, ns);
    else if (out && !wrong) mc::check(r == SI::E_OUT_OF_RANGE, "segments that do not exist are refused", "%s: %d, segment %d of %d", at.c_str(), r, sn, ns);
    else if (out) mc::check(r == SI::E_OUT_OF_RANGE || r == SI::E_SIZE_MISMATCH, "refused", "%s: %d", at.c_str(), r);
    else if (empty) mc::check(r < 0, "refused", "%s: %d", at.c_str(), r);
    else mc::check(r >= 0 || kind == 10 || kind == 8 || kind == 9, "correct calls succeed", "%s: %d", at.c_str(), r);
    correct(kind, *s, c, sp, w, 1);
    { std::string t = s->name; for (int x : dv) t += (char)(x + 5); mc::state(t + mc::fmt("%d %d", w, seg)); }
}
// ---- settings with every combination of sizes
SCENARIO_SPLIT(settings, 3) {
    int kind = mc::choose(KINDS, "solver"); auto& S = shapes(kind); int si = mc::choose((int)S.size(), "shape");
    Spec sp = heavies(spec(S[si])); KDL::Chain c = chain(sp); auto s = solver(kind, c); if (!s->settings()) return;
    int n = s->setsized(); std::vector<int> dv(n); bool wrong = false; for (int i = 0; i < n; i++) { dv[i] = mc::choose(3, "size"); if (dv[i] == 2) dv[i] = -1; wrong |= dv[i] != 0; }
    int p = mc::choose(s->settings(), "setting"); mc::step(); int r = s->set(p, dv);
    if (wrong) mc::check(r == SI::E_SIZE_MISMATCH, "wrong sizes of settings are refused", "%s: %d", s->name.c_str(), r); else { mc::check(r == 0, "settings are taken", "%s: %d", s->name.c_str(), r); readout(*s, r, "setting"); }
    if (!wrong) p = mc::choose(s->settings(), "setting"), mc::check(s->set(p, {}) == 0, "settings are taken", " ");
    // nothing, all or part of a refused pair may hold; set all again
    int q = mc::choose(s->settings(), "setting again"); mc::check(s->set(q, {}) == 0, "settings are taken", " "); readout(*s, 0, "setting");
    auto f = solver(kind, c); f->set(q, {}); D a, b; int x = s->call(0, 0, {}, WHOLE, a), y = f->call(0, 0, {}, WHOLE, b); mc::step(2);
    mc::check(x == y, "the next correct call works normally", "%s: %d instead of %d", s->name.c_str(), x, y); if (x >= 0 && comparable(kind, sp, 0)) same(a, b, tol(b, kind), "the next correct call works normally", s->name);
}
// ---- matrices of the right number of elements in the wrong shape
SCENARIO(shapes_of_weights) {
    int a = mc::choose(8, "rows"), b = mc::choose(8, "columns"), which = mc::choose(2, "matrix"); static const int R[] = {1, 2, 3, 4, 6, 9, 12, 36};
    Spec sp = spec(mc::choose(2, "shape") ? std::vector<int>{0, 6, 2, 7, 4, 0} : std::vector<int>{0, 2}); KDL::Chain c = chain(sp); int n = nj(sp), want = which ? 6 : n;
    KDL::ChainIkSolverVel_wdls s(c); Eigen::MatrixXd m = Eigen::MatrixXd::Constant(R[a], R[b], 0.5); m.diagonal().setOnes(); mc::step();
    int r = which ? s.setWeightTS(m) : s.setWeightJS(m);
    mc::check((r == 0) == (R[a] == want && R[b] == want) && (r == 0 || r == SI::E_SIZE_MISMATCH) && s.getError() == r, "weights of another shape are refused", "%dx%d: %d", R[a], R[b], r);
    KDL::JntArray o(n); r = s.CartToJnt(arr(n, 1), aim(0), o); mc::check(r >= 0 && s.getError() == r, "the next correct call works normally", "%d", r);
    for (int i = 0; i < n; i++) mc::check(std::isfinite(o(i)), "the next correct call works normally", " ");
    Eigen::VectorXd v = Eigen::VectorXd::Zero(R[b]); r = s.getSigma(v); mc::check(r == (R[b] == n ? 0 : (int)SI::E_SIZE_MISMATCH) && s.getError() == r, "read-out of another size is refused", "%d", r);
}
// ---- all sequences of correct and wrong calls, settings and updates on one solver
SCENARIO_SPLIT(sequences, 3) {
    int kind = mc::choose(KINDS, "solver"); auto& S = shapes(kind); int si = mc::choose(mc::tiered(2, 3), "shape");
    Spec sp = heavies(spec(S[si == 1 ? 3 : si ? 2 : 1])); KDL::Chain c = chain(sp); auto s = solver(kind, c); int setting = 0;
    int n = (int)s->calls.size();
    for (int d = 0; d < mc::tiered(3, 4); d++) {
        int op = mc::choose(2 * n + 4, "operation"); mc::step();
        if (op < n) {   // correct
            D a, b; int r = s->call(op, d, {}, WHOLE, a); auto f = solver(kind, c); if (f->settings()) f->set(setting, {}); int g = f->call(op, d, {}, WHOLE, b);
            mc::check(r == g, "correct calls are not disturbed", "%s: %d instead of %d", s->name.c_str(), r, g); readout(*s, r, s->calls[op].name);
            if (r >= 0 && comparable(kind, sp, d)) same(a, b, 100 * tol(b, kind), "correct calls are not disturbed", s->name);
        } else if (op < 2 * n) {   // each argument wrong in turn
            int w = op - n; for (int i = 0; i < s->calls[w].sized; i++) { std::vector<int> dv(s->calls[w].sized, 0); dv[i] = i % 2 ? -1 : 1; D o; int r = s->call(w, d, dv, WHOLE, o); mc::check(r == SI::E_SIZE_MISMATCH, "wrong sizes are refused", "%s %s argument %d: %d", s->name.c_str(), s->calls[w].name, i, r); readout(*s, r, s->calls[w].name); }
        } else if (op == 2 * n) { for (auto& k : s->calls) if (k.seg) { D o; int r = s->call(&k - &s->calls[0], d, {}, (int)sp.size() + 1, o); mc::check(r == SI::E_OUT_OF_RANGE, "segments that do not exist are refused", "%s: %d", s->name.c_str(), r); readout(*s, r, k.name); } }
        else if (op == 2 * n + 1) { s->update(); }
        else if (op == 2 * n + 2) { if (s->settings()) { std::vector<int> dv(s->setsized(), 1); int r = s->set(1, dv); mc::check(r == SI::E_SIZE_MISMATCH, "wrong sizes of settings are refused", "%s: %d", s->name.c_str(), r); } }
        else if (s->settings()) { setting = (setting + 1) % s->settings(); mc::check(s->set(setting, {}) == 0, "settings are taken", " "); readout(*s, 0, "setting"); }
    }
}
// ---- texts
SCENARIO(texts) {
    int kind = mc::choose(KINDS, "solver"); KDL::Chain c = chain(spec({0, 2})); auto s = solver(kind, c); mc::step();
    mc::check(s->si().getError() == 0, "no error before the first call", " ");
    std::set<std::string> seen;
    for (int e : {(int)SI::E_DEGRADED, (int)SI::E_NOERROR, (int)SI::E_NO_CONVERGE, (int)SI::E_UNDEFINED, (int)SI::E_NOT_UP_TO_DATE, (int)SI::E_SIZE_MISMATCH, (int)SI::E_MAX_ITERATIONS_EXCEEDED, (int)SI::E_OUT_OF_RANGE, (int)SI::E_NOT_IMPLEMENTED, (int)SI::E_SVD_FAILED}) {
        std::string t = s->si().strError(e); mc::check(!t.empty() && t != "UNKNOWN ERROR" && seen.insert(t).second, "a text of its own for every code", "%s %d %s", s->name.c_str(), e, t.c_str());
    }
    std::vector<int> own; if (kind == 4 || kind == 7) own = {100}; if (kind == 8 || kind == 9 ) own = {-100, -101}; if (kind == 10) own = {-100, -101}; if (kind == 3) own = {-100, -101, -102}; if (kind == 15) own = {-100, -101, -102, -103, -104};
    for (int e : own) { std::string t = s->si().strError(e); mc::check(!t.empty() && t != "UNKNOWN ERROR" && seen.insert(t).second, "a text of its own for every code", "%s %d %s", s->name.c_str(), e, t.c_str()); }
    for (int e : {-9, -50, 2, 77, 12345}) mc::check(std::string(s->si().strError(e)) == "UNKNOWN ERROR", "unknown codes", "%d", e);
}
// ---- what is offered but not made says so, and leaves the results as they were
static KDL::ChainIkSolverVel* ikvel(Solver& s) { return dynamic_cast<KDL::ChainIkSolverVel*>(&s.si()); }
SCENARIO_SPLIT(not_made, 2) {
    int kind = mc::choose(KINDS, "solver"); auto& S = shapes(kind); int si = mc::choose((int)S.size(), "shape"), p = mc::choose(4, "arguments"), before = mc::choose(2, "used before"), wrong = mc::choose(3, "size");
    Spec sp = heavies(spec(S[si])); KDL::Chain c = chain(sp); auto s = solver(kind, c); auto* v = ikvel(*s); if (!v) return; int n = nj(sp);
    if (before) { D o; s->call(0, p, {}, WHOLE, o); }
    KDL::JntArrayVel out(wrong == 1 ? n + 1 : n); for (unsigned i = 0; i < out.q.rows(); i++) out.q(i) = out.qdot(i) = 77; KDL::JntArray q = arr(wrong == 2 ? n + 1 : n, pp(p)); mc::step();
    int r = v->CartToJnt(q, KDL::FrameVel(KDL::Frame(KDL::Vector(0.3, 0.1, 0.2)), aim(p)), out); readout(*s, r, "CartToJnt(FrameVel)");
    mc::check(r == SI::E_NOT_IMPLEMENTED, "what is not made says so", "%s: %d", s->name.c_str(), r);
    for (unsigned i = 0; i < out.q.rows(); i++) mc::check(out.q(i) == 77 && out.qdot(i) == 77, "what is not made changes nothing", "%s", s->name.c_str());
    correct(kind, *s, c, sp, 0, p); mc::state(mc::fmt("%d %d %d %d", kind, si, p, wrong));
}
