// C19: position inverse kinematics never claims a wrong solution.
#include "kin.hpp"
#include <chainfksolverpos_recursive.hpp>
#include <chainiksolverpos_lma.hpp>
#include <chainiksolverpos_nr.hpp>
#include <chainiksolverpos_nr_jl.hpp>
#include <chainiksolvervel_pinv.hpp>
#include <chainiksolvervel_pinv_givens.hpp>
#include <chainiksolvervel_pinv_nso.hpp>
#include <chainiksolvervel_wdls.hpp>
#include <iostream>
#include <sstream>
using namespace kin;

// pose error of q against the target: translation and rotation vector, in the base
static void poseErr(const Spec& s, const std::vector<double>& q, const Fr& goal, double* e) {
    Fr f = s.empty() ? Fr() : fk(s, q).back();
    M d = goal.R * ref::tr(f.R);
    double c = (d[0][0] + d[1][1] + d[2][2] - 1) / 2; c = c > 1 ? 1 : c < -1 ? -1 : c;
    V ax = ref::unskew(d); double sn = ref::norm(ax), ang = std::atan2(sn, c);
    for (int i = 0; i < 3; i++) { e[i] = goal.p[i] - f.p[i]; e[3 + i] = sn > 1e-12 ? ax[i] / sn * ang : (c < 0 && i == 0 ? M_PI : 0); }
}
struct Vel {   // the four velocity solvers
    std::unique_ptr<KDL::ChainIkSolverVel> s;
    Vel(const KDL::Chain& c, int kind, int N, int maxiter = 150) {
        if (kind == 0) s.reset(new KDL::ChainIkSolverVel_pinv(c, 1e-5, maxiter));
        else if (kind == 1) s.reset(new KDL::ChainIkSolverVel_pinv_givens(c));
        else if (kind == 2) { auto* w = new KDL::ChainIkSolverVel_wdls(c, 1e-5, maxiter); w->setLambda(0.01); s.reset(w); }
        else { auto* n = new KDL::ChainIkSolverVel_pinv_nso(c, 1e-5, maxiter, 0.25); n->setWeights(ja(std::vector<double>(N, 1.0))); n->setOptPos(ja(std::vector<double>(N, 0.2))); s.reset(n); }
    }
};
static const char* VN[] = {"pinv", "pinv_givens", "wdls", "pinv_nso"};
struct Goal { std::string name; Fr f; std::vector<double> start; bool same = false, easy = false, impossible = false; };
static std::vector<Goal> goals(const Spec& s) {
    int N = nj(s); std::vector<Goal> g;
    for (int p = 0; p < 5; p++) {
        std::vector<double> q = qpat(N, p);
        Fr f = s.empty() ? Fr() : fk(s, q).back();
        std::vector<double> sv = ref::svals(jacobian(s, q, (int)s.size()));
        int full = 0; for (double x : sv) full += x > 0.08;
        Goal a; a.name = mc::fmt("posture %d from itself", p); a.f = f; a.start = q; a.same = true; g.push_back(a);
        Goal b = a; b.same = false; b.name = mc::fmt("posture %d from nearby", p); for (int i = 0; i < N; i++) b.start[i] += 0.02 * (i % 2 ? 1 : -0.7); b.easy = full == std::min(6, N); g.push_back(b);
        Goal c = b; c.easy = false; c.name = mc::fmt("posture %d from posture %d", p, (p + 1) % 5); c.start = qpat(N, (p + 1) % 5); g.push_back(c);
        if (p < 3) {
            Goal d = c; d.name = mc::fmt("turned half from posture %d", p); d.start = q; d.f.R = ref::rotx(M_PI) * f.R; g.push_back(d);
            Goal e = c; e.name = mc::fmt("far away from posture %d", p); e.start = q; e.f.p = V(1e3, -2e3, 5e2) + f.p; g.push_back(e);
            Goal n = c; n.name = mc::fmt("one millimetre from posture %d", p); n.start = q; n.f.p = V(1e-3, 5e-4, -1e-3) + f.p; g.push_back(n);
        }
    }
    return g;
}
static bool reached(const Spec& s, const KDL::JntArray& q, const Fr& goal, double eps, const std::string& who, const char* at) {
    double e[6]; poseErr(s, vec(q), goal, e);
    double big = 0; for (unsigned i = 0; i < q.rows(); i++) big = std::max(big, std::fabs(q(i)));   // far away joints round the pose
    bool ok = true; for (double x : e) ok &= std::fabs(x) <= eps * 1.001 + 4e-15 * big + 1e-11 * (1 + std::fabs(goal.p[0]) + std::fabs(goal.p[1]) + std::fabs(goal.p[2]));
    return mc::check(ok, who + ": success means the pose is reached", "%s: %s, error [%g %g %g | %g %g %g], tolerance %g", at, kin::str(vec(q)).c_str(), e[0], e[1], e[2], e[3], e[4], e[5], eps);
}
struct Call { int code; std::vector<double> q; };
template <class S> static Call call(S& sol, const Goal& g, bool alias) {
    Call c; mc::step();
    KDL::JntArray in = ja(g.start), out((unsigned)g.start.size());
    for (unsigned i = 0; i < out.rows(); i++) out(i) = 77;
    if (alias) { c.code = sol.CartToJnt(in, k(g.f), in); c.q = vec(in); }
    else { c.code = sol.CartToJnt(in, k(g.f), out); nearQ(in, g.start, 0, "argument untouched"); c.q = vec(out); }
    mc::check(c.code == sol.getError(), "error read-out", "returned %d, read %d", c.code, sol.getError());
    return c;
}
static void same(const Call& a, const Call& b, const std::string& who, const char* at) {
    mc::check(a.code == b.code, who + ": the answer does not depend on earlier calls", "%s: %d or %d", at, a.code, b.code);
    if (a.code == b.code && !a.q.empty()) mc::nearv(a.q.data(), b.q.data(), (int)a.q.size(), 1e-12, who + ": the answer does not depend on earlier calls", at);
}
static void nr(const Spec& s, int vk, unsigned maxiter, double eps) {
    KDL::Chain c = chain(s); int N = nj(s);
    Vel v(c, vk, N); KDL::ChainFkSolverPos_recursive fks(c); KDL::ChainIkSolverPos_NR sol(c, fks, *v.s, maxiter, eps);
    std::string who = std::string("NR with ") + VN[vk];
    for (auto& g : goals(s)) {
        std::string at = g.name + ", " + kin::str(s);
        Call r = call(sol, g, false);
        if (r.code >= 0) reached(s, ja(r.q), g.f, eps, who, at.c_str());
        mc::check(r.code == 0 || r.code == KDL::SolverI::E_DEGRADED || r.code == KDL::SolverI::E_MAX_ITERATIONS_EXCEEDED, who + ": code", "%d: %s", r.code, at.c_str());
        if (r.code >= 0) mc::check((r.code == KDL::SolverI::E_DEGRADED) == (v.s->getError() > 0), who + ": degraded tells about the velocity solver", "%d: %s", r.code, at.c_str());
        if (g.same && maxiter) mc::check(r.code >= 0, who + ": a start at the solution succeeds", "%d: %s", r.code, at.c_str());
        if (g.easy && maxiter >= 50 && vk < 3) mc::check(r.code >= 0, who + ": a solution nearby is found", "%d: %s", r.code, at.c_str());
        if (g.impossible || !maxiter) mc::check(r.code < 0, who + ": failure is reported", "%d: %s", r.code, at.c_str());
        if (vk != 1) {
            Vel v2(c, vk, N); KDL::ChainFkSolverPos_recursive f2(c); KDL::ChainIkSolverPos_NR fresh(c, f2, *v2.s, maxiter, eps);
            same(r, call(fresh, g, true), who, at.c_str());
        }
        mc::state(r.q.data(), r.q.size(), r.code + 1000);
    }
}
static void jl(const Spec& s, int vk, unsigned maxiter, double eps, int lim) {
    KDL::Chain c = chain(s); int N = nj(s);
    Vel v(c, vk, N); KDL::ChainFkSolverPos_recursive fks(c);
    std::string who = std::string("NR_JL with ") + VN[vk];
    std::unique_ptr<KDL::ChainIkSolverPos_NR_JL> sol;
    if (lim == 0) sol.reset(new KDL::ChainIkSolverPos_NR_JL(c, fks, *v.s, maxiter, eps));
    else sol.reset(new KDL::ChainIkSolverPos_NR_JL(c, ja(std::vector<double>(N, -4.0)), ja(std::vector<double>(N, 4.0)), fks, *v.s, maxiter, eps));
    for (auto& g : goals(s)) {
        std::vector<double> lo(N, -4.0), hi(N, 4.0);
        if (lim == 0) { lo.assign(N, -1e300); hi.assign(N, 1e300); }
        if (lim == 2) for (int i = 0; i < N; i++) { lo[i] = g.start[i] - 0.05; hi[i] = g.start[i] + 0.05; }
        if (lim == 3) for (int i = 0; i < N; i++) { lo[i] = 0.1; hi[i] = 0.4; }           // the start is outside
        if (lim == 4) for (int i = 0; i < N; i++) { if (i % 2) { lo[i] = hi[i] = g.start[i]; } }   // blocked joints
        if (lim > 1) mc::check(sol->setJointLimits(ja(lo), ja(hi)) == 0, who + ": setting limits", " ");
        std::string at = g.name + mc::fmt(", limits %d, ", lim) + kin::str(s);
        Call r = call(*sol, g, false);
        bool in = true, startin = true;
        for (int i = 0; i < N; i++) { in &= r.q[i] >= lo[i] && r.q[i] <= hi[i]; startin &= g.start[i] >= lo[i] && g.start[i] <= hi[i]; }
        mc::check(in, who + ": the answer lies within the limits", "%s: code %d, %s", at.c_str(), r.code, kin::str(r.q).c_str());
        if (r.code >= 0) reached(s, ja(r.q), g.f, eps, who, at.c_str());
        mc::check(r.code == 0 || r.code == KDL::SolverI::E_MAX_ITERATIONS_EXCEEDED, who + ": code", "%d: %s", r.code, at.c_str());
        if (g.same && maxiter && startin) {
            mc::check(r.code >= 0, who + ": a start at the solution succeeds", "%d: %s", r.code, at.c_str());
            if (N) mc::nearv(r.q.data(), g.start.data(), N, eps * 100, who + ": a start at the solution is the answer", at.c_str());
        }
        if (g.easy && maxiter >= 50 && vk < 3 && lim < 2) mc::check(r.code >= 0, who + ": a solution nearby is found", "%d: %s", r.code, at.c_str());
        if (!maxiter) mc::check(r.code < 0, who + ": failure is reported", "%d: %s", r.code, at.c_str());
        if (vk != 1) {
            Vel v2(c, vk, N); KDL::ChainFkSolverPos_recursive f2(c);
            KDL::ChainIkSolverPos_NR_JL fresh(c, ja(lo), ja(hi), f2, *v2.s, maxiter, eps);
            same(r, call(fresh, g, true), who, at.c_str());
        }
        mc::state(r.q.data(), r.q.size(), r.code + 2000 + lim);
    }
}
static void lma(const Spec& s, int maxiter, double eps, int wk) {
    KDL::Chain c = chain(s); int N = nj(s);
    Eigen::Matrix<double, 6, 1> L; L << 1, 1, 1, 0.01, 0.01, 0.01;
    if (wk == 1) L << 1, 1, 1, 1, 1, 1;
    if (wk == 2) L << 1, 2, 0.5, 0, 0, 0;
    if (wk == 3) L << 0, 0, 1, 0.3, 0.3, 0;
    auto make = [&]() { return wk ? new KDL::ChainIkSolverPos_LMA(c, L, eps, maxiter) : new KDL::ChainIkSolverPos_LMA(c, eps, maxiter); };
    std::unique_ptr<KDL::ChainIkSolverPos_LMA> sol(make());
    std::string who = "LMA";
    for (auto& g : goals(s)) {
        std::string at = g.name + mc::fmt(", weights %d, ", wk) + kin::str(s);
        Call r = call(*sol, g, false);
        double e[6], w = 0, tr = 0, ro = 0; poseErr(s, r.q, g.f, e);
        for (int i = 0; i < 6; i++) { w += L(i) * e[i] * L(i) * e[i]; (i < 3 ? tr : ro) += e[i] * e[i]; }
        double sc = 1 + std::fabs(g.f.p[0]) + std::fabs(g.f.p[1]) + std::fabs(g.f.p[2]);
        if (r.code >= 0) mc::check(std::sqrt(w) <= eps * 1.001 + 2e-6 * L.tail(3).maxCoeff() + 1e-11 * sc, who + ": success means the pose is reached", "%s: %g instead of %g", at.c_str(), std::sqrt(w), eps);
        mc::check(r.code == 0 || r.code == KDL::SolverI::E_MAX_ITERATIONS_EXCEEDED || r.code == -100 || r.code == -101, who + ": code", "%d: %s", r.code, at.c_str());
        // the read-outs belong to the answer (rotation near half a turn is not unique in sign, its size is)
        mc::check(mc::close(sol->lastTransDiff, std::sqrt(tr), 1e-9), who + ": translational difference read-out", "%s: code %d, %g instead of %g", at.c_str(), r.code, sol->lastTransDiff, std::sqrt(tr));
        mc::check(mc::close(sol->lastRotDiff, std::sqrt(ro), 1e-5), who + ": rotational difference read-out", "%s: code %d, %g instead of %g", at.c_str(), r.code, sol->lastRotDiff, std::sqrt(ro));
        mc::check(mc::close(sol->lastDifference, std::sqrt(w), 1e-9 + 1e-5 * L.tail(3).maxCoeff()), who + ": weighted difference read-out", "%s: code %d, %g instead of %g", at.c_str(), r.code, sol->lastDifference, std::sqrt(w));
        mc::check(sol->lastNrOfIter >= 0 && sol->lastNrOfIter <= maxiter, who + ": iteration bound", "%d", sol->lastNrOfIter);
        if (g.same) {
            mc::check(r.code == 0 && sol->lastNrOfIter == 0, who + ": a start at the solution succeeds", "%d: %s", r.code, at.c_str());
            if (N) {
                mc::nearv(r.q.data(), g.start.data(), N, 0, who + ": a start at the solution is the answer", at.c_str());
                Mat J = jacobian(s, g.start, (int)s.size()); for (int i = 0; i < 6; i++) for (int j = 0; j < N; j++) J(i, j) *= L(i);
                std::vector<double> sv = ref::svals(J); sv.resize(std::min(6, N));
                if (mc::check((int)sol->lastSV.size() == (int)sv.size(), who + ": number of singular values", "%d", (int)sol->lastSV.size())) {
                    std::vector<double> got(sol->lastSV.data(), sol->lastSV.data() + sv.size());
                    mc::nearv(got.data(), sv.data(), (int)sv.size(), 1e-9, who + ": singular value read-out", at.c_str());
                }
            }
        }
        if (g.easy && maxiter >= 300 && wk < 2 && eps > 1e-8) mc::check(r.code == 0, who + ": a solution nearby is found", "%d: %s", r.code, at.c_str());
        std::unique_ptr<KDL::ChainIkSolverPos_LMA> fresh(make());
        same(r, call(*fresh, g, true), who, at.c_str());
        mc::state(r.q.data(), r.q.size(), r.code + 3000 + wk);
    }
}
static void all(const Spec& s) {
    if (!nj(s)) return;
    int kind = mc::choose(3, "solver");
    if (kind == 2) {
        int it = mc::pick(std::vector<int>{0, 1, 5, 500}, "iterations"); double eps = mc::pick(std::vector<double>{1e-5, 1e-3, 1e-9}, "tolerance");
        lma(s, it, eps, mc::choose(4, "weights"));
        return;
    }
    int vk = mc::choose(4, "velocity solver"); unsigned it = (unsigned)mc::pick(std::vector<int>{0, 1, 3, 60}, "iterations"); double eps = mc::pick(std::vector<double>{1e-6, 1e-3}, "tolerance");
    if (kind == 0) nr(s, vk, it, eps);
    else jl(s, vk, it, eps, mc::choose(5, "limits"));
}
SCENARIO(large) {
    auto& L = long_shapes();
    Spec s = spec(L[mc::choose((int)L.size(), "shape")]);
    int cut = mc::choose(mc::tiered(2, 5), "start"); if (cut >= (int)s.size()) return; s.erase(s.begin(), s.begin() + cut);
    all(s);
}
SCENARIO(small) {
    int n = 1 + mc::choose(mc::tiered(1, 2), "segments");
    all(choose_spec(n, all_kinds()));
}
// planar arms stretched almost straight: the Jacobian is nearly singular at the solution
SCENARIO(stretched) {
    int n = 2 + mc::choose(3, "joints"); Spec s;
    for (int i = 0; i < n; i++) { Seg g; g.type = KDL::Joint::RotZ; g.tip = frame(0, 0, 0, 1, 0, 0); g.name = mc::fmt("p%d", i); s.push_back(g); }
    KDL::Chain c = chain(s);
    static const double BEND[] = {1e-2, 1e-3, 1e-4, 3e-5, 1e-5, 1e-6, 0};
    double bend = mc::pick(BEND, "bend"), off = mc::pick(std::vector<double>{0, 1e-7, -1e-7, 5e-7, 9e-7, -9e-7, 1e-5, 1e-3}, "offset"), dir = mc::pick(std::vector<double>{0, 0.7, 1.5707963267948966}, "direction");
    int vk = mc::choose(4, "velocity solver"), which = mc::choose(3, "solver"); double eps = 1e-6;
    std::vector<double> q(n, bend); q[0] = dir;
    Goal g; g.name = "stretched"; g.start = q; g.f = fk(s, q).back(); g.f.p = g.f.p + V(off * std::cos(dir), off * std::sin(dir), 0);
    std::string at = mc::fmt("bend %g offset %g direction %g", bend, off, dir);
    Vel v(c, vk, n); KDL::ChainFkSolverPos_recursive fks(c);
    if (which == 0) {
        KDL::ChainIkSolverPos_NR sol(c, fks, *v.s, 100, eps); Call r = call(sol, g, false);
        if (r.code >= 0) reached(s, ja(r.q), g.f, eps, std::string("NR with ") + VN[vk], at.c_str());
    } else if (which == 1) {
        KDL::ChainIkSolverPos_NR_JL sol(c, ja(std::vector<double>(n, -4.0)), ja(std::vector<double>(n, 4.0)), fks, *v.s, 100, eps); Call r = call(sol, g, false);
        if (r.code >= 0) reached(s, ja(r.q), g.f, eps, std::string("NR_JL with ") + VN[vk], at.c_str());
        for (double x : r.q) mc::check(x >= -4 && x <= 4, "NR_JL: the answer lies within the limits", "%s", at.c_str());
    } else {
        KDL::ChainIkSolverPos_LMA sol(c); Call r = call(sol, g, false);
        double e[6], w = 0; poseErr(s, r.q, g.f, e); for (int i = 0; i < 6; i++) w += e[i] * e[i] * (i < 3 ? 1 : 1e-4);
        if (r.code >= 0) mc::check(std::sqrt(w) <= 1.001e-5, "LMA: success means the pose is reached", "%s", at.c_str());
    }
}
// a failing velocity solver is reported, and the next call works
SCENARIO(child_failure) {
    auto& L = long_shapes(); Spec s = spec(L[mc::choose((int)L.size(), "shape")]); KDL::Chain c = chain(s); int N = nj(s);
    int vk = mc::choose(4, "velocity solver"), which = mc::choose(2, "solver"); if (vk == 1) return;
    Vel v(c, vk, N, 0); KDL::ChainFkSolverPos_recursive fks(c);
    std::vector<Goal> G = goals(s);
    for (auto& g : G) {
        Goal h = g; int code, rc;
        if (which == 0) { KDL::ChainIkSolverPos_NR sol(c, fks, *v.s, 50, 1e-6); code = call(sol, h, false).code; rc = v.s->getError();
            if (rc < 0) mc::check(code == KDL::ChainIkSolverPos_NR::E_IKSOLVER_FAILED, "NR: failure of the velocity solver", "%d", code); }
        else { KDL::ChainIkSolverPos_NR_JL sol(c, ja(std::vector<double>(N, -9.0)), ja(std::vector<double>(N, 9.0)), fks, *v.s, 50, 1e-6); Call r = call(sol, h, false); code = r.code; rc = v.s->getError();
            if (rc < 0 && !g.same) mc::check(code == KDL::ChainIkSolverPos_NR_JL::E_IKSOLVERVEL_FAILED, "NR_JL: failure of the velocity solver", "%d", code); }
    }
}
// told to talk, LMA does the same; its parts (pose, Jacobian, singular values) can be asked in any order between calls
struct Heard { std::ostringstream o; std::streambuf* old; Heard() : old(std::cout.rdbuf(o.rdbuf())) {} ~Heard() { std::cout.rdbuf(old); } };
static std::vector<double> told(const std::string& t) { std::vector<double> r; size_t b = t.find(':'); std::istringstream i(b == std::string::npos ? "" : t.substr(b + 1)); double x; while (i >> x) r.push_back(x); return r; }
SCENARIO_SPLIT(talking, 3) {
    auto& L = long_shapes(); Spec s = spec(L[mc::choose((int)L.size(), "shape")]); int cut = mc::choose(mc::tiered(1, 2), "start"); s.erase(s.begin(), s.begin() + cut); if (!nj(s)) return; KDL::Chain c = chain(s); int N = nj(s);
    KDL::ChainIkSolverPos_LMA loud(c, 1e-5, 30), quiet(c, 1e-5, 30); auto G = goals(s); double w[6] = {1, 1, 1, 0.01, 0.01, 0.01};
    for (int d = 0; d < mc::tiered(2, 3); d++) {
        int op = mc::choose(4, "operation"), x = mc::choose(op == 0 ? 6 : mc::tiered(2, 5), "what"); if (op == 0) x = x * 5 % (int)G.size(); std::string at = str(s) + mc::fmt(" operation %d %d", op, x);
        if (op == 0) { loud.display_information = mc::choose(2, "talks"); Call a, b; { Heard h; a = call(loud, G[x], false); if (!loud.display_information) mc::check(h.o.str().empty(), "LMA: silent unless told", "%s", at.c_str()); } b = call(quiet, G[x], false); same(a, b, "LMA talking", at.c_str()); mc::check(loud.lastNrOfIter == quiet.lastNrOfIter && mc::close(loud.lastDifference, quiet.lastDifference, 1e-12), "LMA: talking changes nothing", "%s", at.c_str()); }
        else if (op == 1) { std::vector<double> q = qpat(N, x); Eigen::VectorXd e(N); for (int i = 0; i < N; i++) e(i) = q[i]; mc::step(); loud.compute_fwdpos(e); Fr f = fk(s, q).back(); nearF(loud.T_base_head, f, 1e-9, "LMA: pose", at.c_str()); }
        else if (op == 2) { std::vector<double> q = qpat(N, x); Eigen::VectorXd e(N); for (int i = 0; i < N; i++) e(i) = q[i]; mc::step(); loud.compute_fwdpos(e); loud.compute_jacobian(e); Mat J = jacobian(s, q, (int)s.size()); for (int i = 0; i < 6; i++) for (int j = 0; j < N; j++) mc::check(std::fabs(loud.jac(i, j) - J(i, j)) <= 1e-9 * (1 + std::fabs(J(i, j))), "LMA: Jacobian", "%s: (%d,%d)", at.c_str(), i, j); }
        else { std::vector<double> q = qpat(N, x); std::string t; { Heard h; mc::step(); loud.display_jac(ja(q)); t = h.o.str(); } std::vector<double> got = told(t), sv = ref::svals(jacobian(s, q, (int)s.size())), sw; Mat J = jacobian(s, q, (int)s.size()); for (int i = 0; i < 6; i++) for (int j = 0; j < N; j++) J(i, j) *= w[i]; sw = ref::svals(J); int n = std::min(6, N);
            bool plain = (int)got.size() == n, weighted = plain; for (int i = 0; i < n && (plain || weighted); i++) { double tol = 1e-4 * (1 + std::fabs(got[i])); plain = plain && std::fabs(got[i] - sv[i]) <= tol; weighted = weighted && std::fabs(got[i] - sw[i]) <= tol; } mc::check(plain || weighted, "LMA: singular values shown", "%s: %s", at.c_str(), t.c_str()); }
    }
    std::vector<double> r(1, loud.lastDifference); mc::state(r.data(), 1);
}
