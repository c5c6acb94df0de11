// C35: solvers on one shared model in two threads, under a controlled scheduler (sched_rt.cpp).
#include "solvers.hpp"
#include "treeref.hpp"
#include "sched_rt.hpp"
#include <treefksolverpos_recursive.hpp>
#include <treeiksolverpos_nr_jl.hpp>
#include <treeiksolverpos_online.hpp>
#include <treeiksolvervel_wdls.hpp>
#include <treejnttojacsolver.hpp>
#include <array>
#include <deque>
#include <sys/wait.h>
using namespace kin;

// ---- what a thread does with the shared model ----
static KDL::Chain* the_chain; static KDL::Tree* the_tree;
struct Work { virtual ~Work() {} virtual void go(int p, D& o) = 0; };   // made from the model; asked with argument patterns
struct ChainWork : Work {
    std::unique_ptr<Solver> s; ChainWork(int i) : s(solver(i, *the_chain)) {}
    void go(int p, D& o) override {
        for (int w = 0; w < (int)s->calls.size(); w++) {
            o.push_back(s->call(w, p, {}, WHOLE, o));
            if (s->calls[w].seg) { o.push_back(s->call(w, p + 1, {}, (s->S() + 1) / 2, o)); o.push_back(s->call(w, p, {}, s->S() + 2, o)); }
        }
        if (s->settings()) { o.push_back(s->set(1 + p % 2, {})); o.push_back(s->call(0, p, {}, WHOLE, o)); }
        s->update();
        o.push_back(s->call(0, p + 1, {}, WHOLE, o));
    }
};
static void read_segment(const KDL::Segment& g, double q, D& o) {
    put(o, g.pose(q)); put(o, g.twist(q, 1.5)); put(o, g.getFrameToTip()); const KDL::Joint& j = g.getJoint();
    put(o, j.pose(q)); put(o, j.twist(0.7)); put(o, j.JointAxis()); put(o, j.JointOrigin());
    o.push_back(j.getType()); o.push_back(j.getInertia()); o.push_back(j.getDamping()); o.push_back(j.getStiffness());
    for (char c : g.getName()) o.push_back(c); for (char c : j.getName()) o.push_back(c); o.push_back((double)j.getTypeName().size());
    const KDL::RigidBodyInertia& I = g.getInertia(); o.push_back(I.getMass()); put(o, I.getCOG()); put(o, I * KDL::Twist(KDL::Vector(1, 2, 3), KDL::Vector(-1, 0.5, 2)));
}
static void read_chain(const KDL::Chain& c, int p, D& o) {
    o.push_back(c.getNrOfJoints()); o.push_back(c.getNrOfSegments());
    for (unsigned i = 0; i < c.getNrOfSegments(); i++) read_segment(c.getSegment(i), 0.3 * (p + 1) - 0.2 * i, o);
}
static void read_tree(const KDL::Tree& t, int p, D& o) {
    o.push_back(t.getNrOfJoints()); o.push_back(t.getNrOfSegments()); for (char c : t.getRootSegment()->first) o.push_back(c);
    for (auto& e : t.getSegments()) {
        for (char c : e.first) o.push_back(c); o.push_back(GetTreeElementQNr(e.second)); o.push_back((double)GetTreeElementChildren(e.second).size());
        if (e.first != t.getRootSegment()->first) for (char c : GetTreeElementParent(e.second)->first) o.push_back(c);
        read_segment(GetTreeElementSegment(e.second), 0.2 * p + 0.1, o);
    }
}
struct ChainReads : Work {
    void go(int p, D& o) override {
        read_chain(*the_chain, p, o);
        KDL::Chain a(*the_chain), b; b = *the_chain; b.addChain(*the_chain); b.addSegment(menu()[2].make()); read_chain(a, p + 1, o); read_chain(b, p, o);
        KDL::Tree t("r"); t.addChain(*the_chain, "r"); read_tree(t, p, o);
    }
};
static std::vector<std::string> ends() { return {"c", "a"}; }   // leaves of the tree below
static KDL::Frames tree_goals(int p) {
    KDL::TreeFkSolverPos_recursive fk(*the_tree); KDL::Frames g; KDL::JntArray q = arr(the_tree->getNrOfJoints(), pp(p)); for (unsigned i = 0; i < q.rows(); i++) q(i) += 0.05 * i - 0.04;
    for (auto& e : ends()) { KDL::Frame F; fk.JntToCart(q, F, e); g[e] = F; } return g;
}
struct TreeFk : Work {
    KDL::TreeFkSolverPos_recursive s; TreeFk() : s(*the_tree) {}
    void go(int p, D& o) override { for (auto& e : the_tree->getSegments()) { KDL::Frame F; o.push_back(s.JntToCart(arr(the_tree->getNrOfJoints(), pp(p)), F, e.first)); put(o, F); } KDL::Frame F; o.push_back(s.JntToCart(arr(1, 1), F, "c")); }
};
struct TreeJac : Work {
    KDL::TreeJntToJacSolver s; TreeJac() : s(*the_tree) {}
    void go(int p, D& o) override { for (auto& e : the_tree->getSegments()) { KDL::Jacobian J(the_tree->getNrOfJoints()); J.data.setZero(); o.push_back(s.JntToJac(arr(the_tree->getNrOfJoints(), pp(p)), J, e.first)); put(o, J); } }
};
struct TreeVel : Work {
    KDL::TreeIkSolverVel_wdls s; TreeVel() : s(*the_tree, ends()) { s.setLambda(0.05); }
    void go(int p, D& o) override { KDL::Twists v; int k = 0; for (auto& e : ends()) v[e] = aim(p + k++); KDL::JntArray d = outarr(the_tree->getNrOfJoints()); o.push_back(s.CartToJnt(arr(d.rows(), pp(p)), v, d)); put(o, d); }
};
struct TreePos : Work {
    KDL::TreeFkSolverPos_recursive fk; KDL::TreeIkSolverVel_wdls iv; std::unique_ptr<KDL::TreeIkSolverPos> s;
    TreePos(bool online) : fk(*the_tree), iv(*the_tree, ends()) {
        iv.setLambda(0.02); int n = the_tree->getNrOfJoints(); KDL::JntArray lo(n), hi(n), sp(n); for (int i = 0; i < n; i++) { lo(i) = -2; hi(i) = 2.5; sp(i) = 0.4; }
        if (online) s.reset(new KDL::TreeIkSolverPos_Online(n, ends(), lo, hi, sp, 0.3, 0.3, fk, iv)); else s.reset(new KDL::TreeIkSolverPos_NR_JL(*the_tree, ends(), lo, hi, fk, iv, 20, 1e-8));
    }
    void go(int p, D& o) override { KDL::JntArray d = outarr(the_tree->getNrOfJoints()); o.push_back(s->CartToJnt(arr(d.rows(), pp(p)), tree_goals(p), d)); put(o, d); }
};
struct TreeId : Work {
    KDL::TreeIdSolver_RNE s; TreeId() : s(*the_tree, KDL::Vector(1, -2, -9)) {}
    void go(int p, D& o) override {
        int n = the_tree->getNrOfJoints(); KDL::JntArray t = outarr(n); KDL::WrenchMap m; m["c"] = pushes(1, p)[0]; m["d"] = pushes(2, p)[1];
        o.push_back(s.CartToJnt(arr(n, pp(p)), arr(n, 2), arr(n, 4), m, t)); put(o, t); s.updateInternalDataStructures();
        o.push_back(s.CartToJnt(arr(n, pp(p)), arr(n, 2), arr(n, 4), KDL::WrenchMap(), t)); put(o, t);
    }
};
struct TreeReads : Work {
    void go(int p, D& o) override {
        read_tree(*the_tree, p, o); KDL::Tree a(*the_tree), b("x"); b = *the_tree; read_tree(a, p + 1, o); b.addSegment(menu()[p % 3].make(), b.getRootSegment()->first); read_tree(b, p, o);
        KDL::Chain c; o.push_back(the_tree->getChain("c", "a", c)); read_chain(c, p, o); KDL::Tree s; o.push_back(the_tree->getSubTree("b", s)); read_tree(s, p, o);
        KDL::Tree d("y"); o.push_back(d.addTree(*the_tree, "y")); read_tree(d, p, o);
    }
};
static const int CHAIN_KINDS = 18, TREE_KINDS = 7;
static const char* tree_names[] = {"TreeFkSolverPos_recursive", "TreeJntToJacSolver", "TreeIkSolverVel_wdls", "TreeIkSolverPos_NR_JL", "TreeIkSolverPos_Online", "TreeIdSolver_RNE", "reading and copying the tree"};
static Work* work(bool tree, int k) {
    if (!tree) return k < 17 ? (Work*)new ChainWork(k) : new ChainReads;
    switch (k) { case 0: return new TreeFk; case 1: return new TreeJac; case 2: return new TreeVel; case 3: return new TreePos(false); case 4: return new TreePos(true); case 5: return new TreeId; default: return new TreeReads; }
}
static std::string work_name(bool tree, int k) { if (tree) return tree_names[k]; if (k == 17) return "reading and copying the chain"; KDL::Chain c = chain(spec({0, 2})); return solver(k, c)->name; }

// ---- one pair ----
struct Pair { bool tree; int kind[2]; std::vector<int> shape; bool ready_made; int pat[2]; int calls; };
static Pair P; static Work* made[2];
static void body(int t) {
    D o;
    try {
        std::unique_ptr<Work> w; if (!P.ready_made) w.reset(work(P.tree, P.kind[t]));
        Work* x = P.ready_made ? made[t] : w.get();
        for (int c = 0; c < P.calls; c++) x->go((P.pat[t] + c) % 4, o);
    } catch (...) { sched::S->threw[t] = 1; }
    int n = (int)o.size(); if (n > sched::MAXOUT) n = sched::MAXOUT;
    for (int i = 0; i < n; i++) sched::S->out[t][i] = o[i];
    sched::S->nout[t] = n;
}
static TRef the_tref(const std::vector<int>& shape) {
    // d - b - e - a and b - c: names do not follow the order of addition
    static const char* names[] = {"d", "b", "e", "a", "c", "f"}; static const int parent[] = {-1, 0, 1, 2, 1, -1}; TRef t;
    for (int i = 0; i < 6; i++) { Seg g = menu()[shape[i % shape.size()]]; g.name = names[i]; t.add(g, parent[i]); } return t;
}
static void digest(int at) {
    D o; for (int p = 0; p < 2; p++) if (P.tree) read_tree(*the_tree, p, o); else read_chain(*the_chain, p, o);
    int n = (int)std::min<size_t>(o.size(), sched::MAXOUT); for (int i = 0; i < n; i++) sched::S->dig[at][i] = o[i]; sched::S->ndig[at] = n;
}
struct Ran { bool ok; std::string how; };
static Ran child(int which, int first, const std::vector<int>& pre) {
    using namespace sched;
    S->nev = 0; S->deadlock = S->finished = 0; S->threw[0] = S->threw[1] = 0; S->nout[0] = S->nout[1] = -1; S->ndig[0] = S->ndig[1] = -1; S->accesses = S->switches = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "mc: fork failed\n"); exit(4); }
    if (!pid) {
        signal(SIGALRM, SIG_DFL); alarm(120);
        use_arena(3);
        if (P.tree) the_tree = new KDL::Tree(the_tref(P.shape).make()); else the_chain = new KDL::Chain(chain(spec(P.shape)));
        for (int t = 0; t < 2; t++) if (P.ready_made && (which >> t & 1)) { use_arena(1 + t); made[t] = work(P.tree, P.kind[t]); use_arena(3); }
        digest(0);
        run(body, body, which, first, pre.data(), (int)pre.size());
        use_arena(3);
        digest(1); S->finished = 1;
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0) {}
    mc::step(S->accesses); mc::count("executions under the scheduler");
    if (S->deadlock) return {false, "the threads wait for each other for ever"};
    if (WIFSIGNALED(st)) return {false, mc::fmt("ended by signal %d", WTERMSIG(st))};
    if (!S->finished) return {false, mc::fmt("exit status %d", WEXITSTATUS(st))};
    return {true, ""};
}
static bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || mc::close(a, b, 1e-9); }
static std::string place(uintptr_t pc) {
    extern char __executable_start; char cmd[256], exe[128] = {0}; if (readlink("/proc/self/exe", exe, sizeof exe - 1) < 0) return "";
    snprintf(cmd, sizeof cmd, "addr2line -C -f -s -e %s 0x%lx 2>/dev/null", exe, (unsigned long)(pc - 1 - (uintptr_t)&__executable_start));
    std::string r; if (FILE* f = popen(cmd, "r")) { char b[300]; while (fgets(b, sizeof b, f)) { r += b; while (!r.empty() && r.back() == '\n') r.pop_back(); r += " "; } pclose(f); } return r;
}
static int64_t work_left = 0;   // for the schedules of contested pairs
struct Explorer {
    D alone[2]; std::string who[2]; int cap, ran = 0, bound; bool stop = false;
    std::string trouble() {   // of the last execution
        for (int t = 0; t < 2; t++) if (sched::S->threw[t]) return mc::fmt("the thread with %s ends with an exception", who[t].c_str());
        return "";
    }
    bool judge(const Ran& r, int which, const std::string& sched) {
        using sched::S;
        auto where = [&]() -> std::string { return S->nev ? mc::fmt("; first access to data both threads use, one writing: %s", place(S->ev[0].pc).c_str()) : ""; };
        mc::state(mc::fmt("%d %d %d %d %s %u %llu", P.tree, P.kind[0], P.kind[1], P.ready_made, sched.c_str(), S->nev, (unsigned long long)S->accesses));
        if (!r.ok) return mc::check(false, "threads end: " + who[0] + " | " + who[1], "%s (%s)%s", r.how.c_str(), sched.c_str(), where().c_str());
        std::string x = trouble(); if (!x.empty()) return mc::check(false, "threads end: " + who[0] + " | " + who[1], "%s (%s)%s", x.c_str(), sched.c_str(), where().c_str());
        for (int t = 0; t < 2; t++) if (which >> t & 1) {
            bool ok = S->nout[t] == (int)alone[t].size(); int i = 0; if (ok) for (; i < S->nout[t]; i++) if (!same(S->out[t][i], alone[t][i])) { ok = false; break; }
            mc::E().checks++; if (!ok) return mc::check(false, "results as without the other thread: " + who[t], "with %s in the other thread (%s): value %d is %.17g, alone %.17g%s", who[1 - t].c_str(), sched.c_str(), i, i < S->nout[t] ? S->out[t][i] : 0, i < (int)alone[t].size() ? alone[t][i] : 0, where().c_str());
        }
        return model(sched);
    }
    bool model(const std::string& sched) {
        using sched::S; bool ok = S->ndig[0] == S->ndig[1]; for (int i = 0; ok && i < S->ndig[0]; i++) ok = S->dig[0][i] == S->dig[1][i] || (std::isnan(S->dig[0][i]) && std::isnan(S->dig[1][i]));
        return mc::check(ok, "the model is untouched: " + who[0] + " | " + who[1], "(%s)", sched.c_str());
    }
    // Points at which the running thread may lose the baton: before an access that a later one of the other thread
    // conflicts with (same data, one of the two writing). Of each place in the code the first two and the last are taken.
    std::vector<int> points(int from) {
        using sched::S; int n = (int)std::min<uint32_t>(S->nev, sched::MAXEV);
        std::map<uintptr_t, std::array<int, 4>> last;   // granule -> last access and last write of each thread
        for (int e = from; e < n; e++) { auto& v = S->ev[e]; auto it = last.insert({v.addr >> 3, {-1, -1, -1, -1}}).first; it->second[v.thread] = e; if (v.write) it->second[2 + v.thread] = e; }
        std::map<uintptr_t, std::vector<int>> by;
        for (int e = from; e < n; e++) {
            auto& v = S->ev[e]; if (!v.can) continue;
            auto& l = last[v.addr >> 3]; int o = 1 - v.thread; if (!(l[2 + o] > e || (v.write && l[o] > e))) continue;
            auto& x = by[v.pc]; if (x.size() < 3) x.push_back(e); else x[2] = e;
        }
        std::set<int> r; for (auto& x : by) r.insert(x.second.begin(), x.second.end());
        return std::vector<int>(r.begin(), r.end());
    }
    bool fresh() { int total; return sched::mark_conflicts(&total) > 0; }
    // Fewest changes of hands first. 0 done, 1 new contested data found: start again, 2 violated
    int explore(bool restart) {
        std::deque<std::pair<int, std::vector<int>>> todo = {{1, {}}, {2, {}}};
        for (; !todo.empty(); todo.pop_front()) {
            if (ran >= cap || (work_left <= 0 && ran >= 12)) { stop = true; return 0; }
            int first = todo.front().first; std::vector<int> pre = todo.front().second; ran++;
            Ran r = child(3, first, pre); work_left -= (int64_t)(sched::S->accesses + 100 * sched::S->switches + 100000);
            std::string s = mc::fmt("thread %d first", first); for (int e : pre) s += mc::fmt(", change at contested access %d", e);
            if (!judge(r, 3, s)) { work_left -= (int64_t)1 << 26; return 2; }
            if (restart && fresh()) return 1;
            if ((int)pre.size() >= bound) continue;
            for (int e : points(pre.empty() ? 0 : pre.back() + 1)) { todo.push_back({first, pre}); todo.back().second.push_back(e); }
        }
        return 0;
    }
};
static void pair_of(const Pair& p) {
    P = p; sched::init(); sched::forget(); sched::S->nwhere = 0;
    Explorer x; for (int t = 0; t < 2; t++) x.who[t] = work_name(p.tree, p.kind[t]);
    mc::note("%s | %s, %s", x.who[0].c_str(), x.who[1].c_str(), p.ready_made ? "made before the threads start" : "made in the threads");
    x.bound = mc::tiered(2, 3); x.cap = mc::tiered(150, 2500);
    for (int t = 0; t < 2; t++) {
        Ran r = child(1 << t, 1 + t, {});
        if (!r.ok || sched::S->threw[t]) { mc::count("pairs left out: fails alone"); return; }
        x.alone[t].assign(sched::S->out[t], sched::S->out[t] + sched::S->nout[t]);
        if (!x.model(mc::fmt("%s alone", x.who[t].c_str()))) return;
    }
    for (int first = 1; first <= 2; first++) { Ran r = child(3, first, {}); if (!x.judge(r, 3, mc::fmt("one after the other, thread %d first", first))) return; }
    mc::check(!sched::overflowed(), "access log", "overflow");
    x.fresh(); int total; sched::mark_conflicts(&total);
    mc::count("pairs"); mc::count("8-byte granules accessed", sched::granules());
    if (!total) { mc::count("pairs without contested data (all interleavings equivalent)"); return; }
    mc::count("pairs with contested data");
    for (int again = 0; again < 8; again++) if (x.explore(again < 7) != 1) break;
    mc::count("schedules explored", x.ran); if (x.stop) mc::count("pairs cut short by the schedule limit");
}
static void pairs(bool tree, const std::vector<std::vector<int>>& shapes) {
    static bool first = true; if (first) { first = false; work_left = (int64_t)mc::tiered(1000, 20000) * 1000000; }
    Pair p; p.tree = tree; int n = tree ? TREE_KINDS : CHAIN_KINDS;
    p.kind[0] = mc::choose(n, "first"); p.kind[1] = p.kind[0] + mc::choose(n - p.kind[0], "second");
    p.shape = mc::pick(shapes, "model"); p.ready_made = mc::flag("made before");
    static const int pats[][2] = {{0, 2}, {1, 3}, {2, 1}, {0, 0}}; int k = mc::choose(mc::tiered(2, 4), "patterns"); p.pat[0] = pats[k][0]; p.pat[1] = pats[k][1]; p.calls = 2;
    pair_of(p);
}
SCENARIO_SPLIT(chain_pairs, 4) { std::vector<std::vector<int>> s = {{0, 4, 5, 6}, {1, 0, 2, 12, 7, 3}, {0, 2, 4, 8, 6, 9, 7, 10}}; if (mc::thorough()) for (auto& x : long_shapes()) s.push_back(x); pairs(false, s); }
SCENARIO_SPLIT(tree_pairs, 4) { std::vector<std::vector<int>> s = {{0, 4, 5, 6, 2}, {2, 1, 7, 3, 0}}; if (mc::thorough()) for (auto x : {std::vector<int>{9, 8, 3, 12, 10}, {4, 4, 1, 0, 7, 6}, {1, 0, 12, 2, 1, 5}}) s.push_back(x); pairs(true, s); }
