// One face for every solver of the library that follows a chain (and TreeIdSolver_RNE): numbered calls with
// generated arguments, each argument optionally mis-sized; numeric outputs collected in a vector.
#pragma once
#include "dyn.hpp"
#include <chaindynparam.hpp>
#include <chainexternalwrenchestimator.hpp>
#include <chainfdsolver_recursive_newton_euler.hpp>
#include <chainfksolverpos_recursive.hpp>
#include <chainfksolvervel_recursive.hpp>
#include <chainhdsolver_vereshchagin.hpp>
#include <chainidsolver_recursive_newton_euler.hpp>
#include <chainiksolverpos_lma.hpp>
#include <chainiksolverpos_nr.hpp>
#include <chainiksolverpos_nr_jl.hpp>
#include <chainiksolvervel_pinv.hpp>
#include <chainiksolvervel_pinv_givens.hpp>
#include <chainiksolvervel_pinv_nso.hpp>
#include <chainiksolvervel_wdls.hpp>
#include <chainjnttojacdotsolver.hpp>
#include <chainjnttojacsolver.hpp>
#include <treeidsolver_recursive_newton_euler.hpp>
#include <memory>
namespace kin {
typedef std::vector<double> D;
static const int WHOLE = -1;
struct Call { const char* name; int sized; bool seg; };   // sized: number of sized arguments; seg: takes a segment number
struct Solver {
    const KDL::Chain* c; std::vector<Call> calls; std::string name;
    Solver(const KDL::Chain& chain, const char* n) : c(&chain), name(n) {}
    virtual ~Solver() {}
    virtual KDL::SolverI& si() = 0;
    // dv[i]: how much argument i is too long; p: argument pattern
    virtual int call(int what, int p, const std::vector<int>& dv, int seg, D& out) = 0;
    virtual void update() { si().updateInternalDataStructures(); }
    virtual bool follows_always() const { return false; }   // keeps nothing that depends on the chain
    virtual int settings() const { return 0; }
    virtual int set(int, const std::vector<int>&) { return 0; }   // applies setting pattern to the present size
    virtual int setsized() const { return 0; }                    // sized arguments of the settings
    // applies, joint by joint, the values that pattern pat[i] gives joint i (pattern 0: the default), and task weights of pattern ts
    virtual int setrows(const std::vector<int>&, int) { return 0; }
    virtual void inform(const std::vector<int>&) {}               // tells the adapter which patterns hold
    int N() const { return c->getNrOfJoints(); }
    int S() const { return c->getNrOfSegments(); }
};
inline int dvat(const std::vector<int>& d, int i) { return i < (int)d.size() ? d[i] : 0; }
inline int clampn(int n) { return n < 0 ? 0 : n; }
inline KDL::JntArray arr(int n, int p) { return ja(qpat(clampn(n), p)); }
inline KDL::JntArray outarr(int n) { KDL::JntArray r(clampn(n)); for (unsigned i = 0; i < r.rows(); i++) r(i) = 77; return r; }
inline void put(D& o, const KDL::JntArray& a) { for (unsigned i = 0; i < a.rows(); i++) o.push_back(a(i)); }
inline void put(D& o, const KDL::Vector& a) { for (int i = 0; i < 3; i++) o.push_back(a(i)); }
inline void put(D& o, const KDL::Twist& a) { for (int i = 0; i < 6; i++) o.push_back(a(i)); }
inline void put(D& o, const KDL::Wrench& a) { for (int i = 0; i < 6; i++) o.push_back(a(i)); }
inline void put(D& o, const KDL::Frame& f) { for (int i = 0; i < 9; i++) o.push_back(f.M.data[i]); put(o, f.p); }
inline void put(D& o, const KDL::FrameVel& f) { put(o, f.GetFrame()); put(o, f.GetTwist()); }
inline void put(D& o, const KDL::Jacobian& J) { for (unsigned j = 0; j < J.columns(); j++) for (int i = 0; i < 6; i++) o.push_back(J(i, j)); }
inline KDL::Twist aim(int p) { static const double x[4][6] = {{0.1, -0.2, 0.3, 0.05, 0.1, -0.15}, {0, 0, 0, 0, 0, 1}, {-1, 0.5, 0, 0.2, 0, 0}, {0.3, 0.3, -0.3, -0.6, 0.4, 0.2}}; KDL::Twist t; for (int i = 0; i < 6; i++) t(i) = x[p % 4][i]; return t; }
inline KDL::Wrenches pushes(int n, int p) { KDL::Wrenches r(clampn(n)); for (size_t i = 0; i < r.size(); i++) r[i] = KDL::Wrench(KDL::Vector(1.0 + i, -0.5 * p, 2), KDL::Vector(0.3, 0.1 * i, -0.4 * p)); return r; }
inline int pp(int p) { static const int m[4] = {1, 4, 2, 3}; return m[p % 4]; }   // posture patterns; the last is a singular one for many shapes

struct SFkPos : Solver {
    KDL::ChainFkSolverPos_recursive s;
    SFkPos(const KDL::Chain& c) : Solver(c, "ChainFkSolverPos_recursive"), s(c) { calls = {{"JntToCart", 1, true}, {"JntToCart(all)", 2, true}}; }
    KDL::SolverI& si() override { return s; }
    bool follows_always() const override { return true; }
    int call(int w, int p, const std::vector<int>& dv, int seg, D& o) override {
        KDL::JntArray q = arr(N() + dvat(dv, 0), pp(p)); int r;
        if (w == 0) { KDL::Frame F; r = s.JntToCart(q, F, seg); put(o, F); }
        else { std::vector<KDL::Frame> F(clampn((seg < 0 ? S() : seg) + dvat(dv, 1))); r = s.JntToCart(q, F, seg); for (auto& x : F) put(o, x); }
        return r;
    }
};
struct SFkVel : Solver {
    KDL::ChainFkSolverVel_recursive s;
    SFkVel(const KDL::Chain& c) : Solver(c, "ChainFkSolverVel_recursive"), s(c) { calls = {{"JntToCart", 2, true}, {"JntToCart(all)", 3, true}}; }
    KDL::SolverI& si() override { return s; }
    bool follows_always() const override { return true; }
    int call(int w, int p, const std::vector<int>& dv, int seg, D& o) override {
        KDL::JntArrayVel q; q.q = arr(N() + dvat(dv, 0), pp(p)); q.qdot = arr(N() + dvat(dv, 1), 2); int r;
        if (w == 0) { KDL::FrameVel F; r = s.JntToCart(q, F, seg); put(o, F); }
        else { std::vector<KDL::FrameVel> F(clampn((seg < 0 ? S() : seg) + dvat(dv, 2))); r = s.JntToCart(q, F, seg); for (auto& x : F) put(o, x); }
        return r;
    }
};
inline std::vector<bool> locks(int n, int p) { std::vector<bool> l(clampn(n)); for (size_t i = 0; i < l.size(); i++) l[i] = p && (i + p) % 3 == 0; return l; }
inline std::vector<bool> lockrows(const std::vector<int>& pat) { std::vector<bool> l(pat.size()); for (size_t i = 0; i < l.size(); i++) l[i] = locks((int)i + 1, pat[i])[i]; return l; }
struct SJac : Solver {
    KDL::ChainJntToJacSolver s;
    SJac(const KDL::Chain& c) : Solver(c, "ChainJntToJacSolver"), s(c) { calls = {{"JntToJac", 2, true}}; }
    KDL::SolverI& si() override { return s; }
    int call(int, int p, const std::vector<int>& dv, int seg, D& o) override {
        KDL::Jacobian J(clampn(N() + dvat(dv, 1))); J.data.setConstant(77); int r = s.JntToJac(arr(N() + dvat(dv, 0), pp(p)), J, seg); put(o, J); return r;
    }
    int settings() const override { return 3; }
    int setsized() const override { return 1; }
    int set(int p, const std::vector<int>& dv) override { return s.setLockedJoints(locks(N() + dvat(dv, 0), p)); }
    int setrows(const std::vector<int>& pat, int) override { return s.setLockedJoints(lockrows(pat)); }
};
struct SJacDot : Solver {
    KDL::ChainJntToJacDotSolver s; int lock = 0;
    SJacDot(const KDL::Chain& c) : Solver(c, "ChainJntToJacDotSolver"), s(c) { calls = {{"JntToJacDot", 3, true}, {"JntToJacDot(twist)", 2, true}}; }
    KDL::SolverI& si() override { return s; }
    int call(int w, int p, const std::vector<int>& dv, int seg, D& o) override {
        KDL::JntArrayVel q; q.q = arr(N() + dvat(dv, 0), pp(p)); q.qdot = arr(N() + dvat(dv, 1), 2); int r;
        s.setRepresentation(p % 3);
        if (w == 0) { int n = free_joints; if (n < 0) n = N(); KDL::Jacobian J(clampn(n + dvat(dv, 2))); J.data.setConstant(77); r = s.JntToJacDot(q, J, seg); put(o, J); }
        else { KDL::Twist t; r = s.JntToJacDot(q, t, seg); put(o, t); }
        return r;
    }
    int free_joints = -1;
    int settings() const override { return 3; }
    int setsized() const override { return 1; }
    int set(int p, const std::vector<int>& dv) override {
        auto l = locks(N() + dvat(dv, 0), p); int r = s.setLockedJoints(l);
        if (r == 0) { free_joints = 0; for (bool b : l) free_joints += !b; }
        return r;
    }
    int setrows(const std::vector<int>& pat, int) override { inform(pat); return s.setLockedJoints(lockrows(pat)); }
    void inform(const std::vector<int>& pat) override { free_joints = 0; for (bool b : lockrows(pat)) free_joints += !b; }
};
template <class T> struct SIkVel : Solver {
    T s;
    SIkVel(const KDL::Chain& c, const char* n) : Solver(c, n), s(c) { calls = {{"CartToJnt", 2, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int, int p, const std::vector<int>& dv, int, D& o) override {
        KDL::JntArray r = outarr(N() + dvat(dv, 1)); int e = s.CartToJnt(arr(N() + dvat(dv, 0), pp(p)), aim(p), r); put(o, r); return e;
    }
};
struct SPinv : SIkVel<KDL::ChainIkSolverVel_pinv> { SPinv(const KDL::Chain& c) : SIkVel(c, "ChainIkSolverVel_pinv") {} };
struct SGivens : SIkVel<KDL::ChainIkSolverVel_pinv_givens> { SGivens(const KDL::Chain& c) : SIkVel(c, "ChainIkSolverVel_pinv_givens") {} };
struct SNso : SIkVel<KDL::ChainIkSolverVel_pinv_nso> {
    SNso(const KDL::Chain& c) : SIkVel(c, "ChainIkSolverVel_pinv_nso") { set(0, {}); }
    int settings() const override { return 3; }
    int setsized() const override { return 2; }
    int set(int p, const std::vector<int>& dv) override {
        KDL::JntArray w(clampn(N() + dvat(dv, 0))), o(clampn(N() + dvat(dv, 1)));
        for (unsigned i = 0; i < w.rows(); i++) w(i) = wt(i, p); for (unsigned i = 0; i < o.rows(); i++) o(i) = op(i, p);
        int e = s.setWeights(w); if (s.getError() != e) return 12345; int f = s.setOptPos(o); return e ? e : f;
    }
    static double wt(int i, int p) { return p ? 0.5 + 0.25 * ((i + p) % 3) : 1; }
    static double op(int i, int p) { return p ? 0.1 * i - 0.2 * p : 0; }
    int setrows(const std::vector<int>& pat, int) override {
        KDL::JntArray w(pat.size()), o(pat.size()); for (size_t i = 0; i < pat.size(); i++) { w(i) = wt((int)i, pat[i]); o(i) = op((int)i, pat[i]); }
        int e = s.setWeights(w), f = s.setOptPos(o); return e ? e : f;
    }
};
struct SWdls : SIkVel<KDL::ChainIkSolverVel_wdls> {
    SWdls(const KDL::Chain& c) : SIkVel(c, "ChainIkSolverVel_wdls") { s.setLambda(0.1); s.setEps(1e-3); }
    int settings() const override { return 3; }
    int setsized() const override { return 4; }
    int set(int p, const std::vector<int>& dv) override {
        Eigen::MatrixXd J = Eigen::MatrixXd::Identity(clampn(N() + dvat(dv, 0)), clampn(N() + dvat(dv, 1))), T = Eigen::MatrixXd::Identity(6 + dvat(dv, 2), 6 + dvat(dv, 3));
        if (p) { for (int i = 0; i < std::min(J.rows(), J.cols()); i++) { J(i, i) = 0.5 + 0.3 * ((i + p) % 3); if (i) J(i, i - 1) = 0.1 * p; } for (int i = 0; i < std::min(T.rows(), T.cols()); i++) T(i, i) = 1 + 0.2 * ((i * p) % 4); }
        int e = s.setWeightJS(J); if (s.getError() != e) return 12345; int f = s.setWeightTS(T); return e ? e : f;
    }
    int setrows(const std::vector<int>& pat, int ts) override {
        int n = (int)pat.size(); Eigen::MatrixXd J = Eigen::MatrixXd::Identity(n, n), T = Eigen::MatrixXd::Identity(6, 6);
        for (int i = 0; i < n; i++) if (int p = pat[i]) { J(i, i) = 0.5 + 0.3 * ((i + p) % 3); if (i) J(i, i - 1) = 0.1 * p; }
        if (ts) for (int i = 0; i < 6; i++) T(i, i) = 1 + 0.2 * ((i * ts) % 4);
        int e = s.setWeightJS(J), f = s.setWeightTS(T); return e ? e : f;
    }
    int call(int w, int p, const std::vector<int>& dv, int seg, D& o) override {
        if (w == 0) return SIkVel::call(w, p, dv, seg, o);
        Eigen::VectorXd v = Eigen::VectorXd::Zero(clampn(N() + dvat(dv, 0))); return s.getSigma(v);
    }
};
inline KDL::Frame goal(const KDL::Chain& c, int p) {
    KDL::ChainFkSolverPos_recursive f(c); KDL::JntArray q = arr(c.getNrOfJoints(), pp(p)); for (unsigned i = 0; i < q.rows(); i++) q(i) += 0.04 * (i % 3) - 0.05; KDL::Frame F; f.JntToCart(q, F); return F;
}
struct SNr : Solver {
    KDL::ChainFkSolverPos_recursive fk; KDL::ChainIkSolverVel_pinv iv; KDL::ChainIkSolverPos_NR s;
    SNr(const KDL::Chain& c) : Solver(c, "ChainIkSolverPos_NR"), fk(c), iv(c), s(c, fk, iv, 30, 1e-8) { calls = {{"CartToJnt", 2, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int, int p, const std::vector<int>& dv, int, D& o) override { KDL::JntArray r = outarr(N() + dvat(dv, 1)); int e = s.CartToJnt(arr(N() + dvat(dv, 0), pp(p)), goal(*c, p), r); put(o, r); return e; }
};
struct SNrJl : Solver {
    KDL::ChainFkSolverPos_recursive fk; KDL::ChainIkSolverVel_wdls iv; KDL::ChainIkSolverPos_NR_JL s;
    SNrJl(const KDL::Chain& c) : Solver(c, "ChainIkSolverPos_NR_JL"), fk(c), iv(c), s(c, fk, iv, 30, 1e-8) { iv.setLambda(0.01); calls = {{"CartToJnt", 2, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int, int p, const std::vector<int>& dv, int, D& o) override { KDL::JntArray r = outarr(N() + dvat(dv, 1)); int e = s.CartToJnt(arr(N() + dvat(dv, 0), pp(p)), goal(*c, p), r); put(o, r); return e; }
    int settings() const override { return 3; }
    int setsized() const override { return 2; }
    int set(int p, const std::vector<int>& dv) override {
        KDL::JntArray a(clampn(N() + dvat(dv, 0))), b(clampn(N() + dvat(dv, 1)));
        for (unsigned i = 0; i < a.rows(); i++) a(i) = lo(i, p); for (unsigned i = 0; i < b.rows(); i++) b(i) = hi(i, p);
        return s.setJointLimits(a, b);
    }
    static double lo(unsigned i, int p) { return p ? -1.1 - 0.5 * (i % p) : -std::numeric_limits<double>::max(); }
    static double hi(unsigned i, int p) { return p ? 1.2 + 0.3 * (i % p) : std::numeric_limits<double>::max(); }
    int setrows(const std::vector<int>& pat, int) override {
        KDL::JntArray a(pat.size()), b(pat.size()); for (size_t i = 0; i < pat.size(); i++) { a(i) = lo((unsigned)i, pat[i]); b(i) = hi((unsigned)i, pat[i]); }
        return s.setJointLimits(a, b);
    }
};
struct SLma : Solver {
    KDL::ChainIkSolverPos_LMA s;
    SLma(const KDL::Chain& c) : Solver(c, "ChainIkSolverPos_LMA"), s(c, 1e-6, 60) { calls = {{"CartToJnt", 2, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int, int p, const std::vector<int>& dv, int, D& o) override { KDL::JntArray r = outarr(N() + dvat(dv, 1)); int e = s.CartToJnt(arr(N() + dvat(dv, 0), pp(p)), goal(*c, p), r); put(o, r); return e; }
};
struct SDyn : Solver {
    KDL::ChainDynParam s;
    SDyn(const KDL::Chain& c) : Solver(c, "ChainDynParam"), s(c, KDL::Vector(1, -2, -9)) { calls = {{"JntToMass", 2, false}, {"JntToCoriolis", 3, false}, {"JntToGravity", 2, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int w, int p, const std::vector<int>& dv, int, D& o) override {
        KDL::JntArray q = arr(N() + dvat(dv, 0), pp(p)); int e;
        if (w == 0) { KDL::JntSpaceInertiaMatrix H(clampn(N() + dvat(dv, 1))); H.data.setConstant(77); e = s.JntToMass(q, H); for (unsigned i = 0; i < H.rows(); i++) for (unsigned j = 0; j < H.columns(); j++) o.push_back(H(i, j)); }
        else if (w == 1) { KDL::JntArray r = outarr(N() + dvat(dv, 2)); e = s.JntToCoriolis(q, arr(N() + dvat(dv, 1), 2), r); put(o, r); }
        else { KDL::JntArray r = outarr(N() + dvat(dv, 1)); e = s.JntToGravity(q, r); put(o, r); }
        return e;
    }
};
struct SId : Solver {
    KDL::ChainIdSolver_RNE s;
    SId(const KDL::Chain& c) : Solver(c, "ChainIdSolver_RNE"), s(c, KDL::Vector(1, -2, -9)) { calls = {{"CartToJnt", 5, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int, int p, const std::vector<int>& dv, int, D& o) override {
        KDL::JntArray r = outarr(N() + dvat(dv, 4)); int e = s.CartToJnt(arr(N() + dvat(dv, 0), pp(p)), arr(N() + dvat(dv, 1), 2), arr(N() + dvat(dv, 2), 4), pushes(S() + dvat(dv, 3), p), r); put(o, r); return e;
    }
};
struct SFd : Solver {
    KDL::ChainFdSolver_RNE s;
    SFd(const KDL::Chain& c) : Solver(c, "ChainFdSolver_RNE"), s(c, KDL::Vector(1, -2, -9)) { calls = {{"CartToJnt", 5, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int, int p, const std::vector<int>& dv, int, D& o) override {
        KDL::JntArray r = outarr(N() + dvat(dv, 4)); int e = s.CartToJnt(arr(N() + dvat(dv, 0), pp(p)), arr(N() + dvat(dv, 1), 2), arr(N() + dvat(dv, 2), 4), pushes(S() + dvat(dv, 3), p), r); put(o, r); return e;
    }
};
struct SHd : Solver {
    KDL::ChainHdSolver_Vereshchagin s;
    SHd(const KDL::Chain& c) : Solver(c, "ChainHdSolver_Vereshchagin"), s(c, KDL::Twist(KDL::Vector(0, 0, 9.81), KDL::Vector::Zero()), 2) { calls = {{"CartToJnt", 8, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int, int p, const std::vector<int>& dv, int, D& o) override {
        KDL::JntArray a = outarr(N() + dvat(dv, 2)), t = outarr(N() + dvat(dv, 7)), be(clampn(2 + dvat(dv, 4)));
        KDL::Jacobian al(clampn(2 + dvat(dv, 3))); if (al.columns() > 0) al.setColumn(0, KDL::Twist(KDL::Vector(0, 0, 1), KDL::Vector::Zero())); if (be.rows() > 0) be(0) = 0.3 * p;
        int e = s.CartToJnt(arr(N() + dvat(dv, 0), pp(p)), arr(N() + dvat(dv, 1), 2), a, al, be, pushes(S() + dvat(dv, 5), p), arr(N() + dvat(dv, 6), 4), t);
        put(o, a); put(o, t);
        if (e == 0) { KDL::JntArray T(N()); s.getTotalTorque(T); put(o, T); std::vector<KDL::Twist> X(S() + 1); s.getTransformedLinkAcceleration(X); for (auto& x : X) put(o, x); }
        return e;
    }
};
struct SEst : Solver {
    KDL::ChainExternalWrenchEstimator s;
    SEst(const KDL::Chain& c) : Solver(c, "ChainExternalWrenchEstimator"), s(c, KDL::Vector(1, -2, -9), 100, 30, 0.5) { calls = {{"JntToExtWrench", 5, false}, {"setInitialMomentum", 2, false}}; }
    KDL::SolverI& si() override { return s; }
    int call(int w, int p, const std::vector<int>& dv, int, D& o) override {
        KDL::JntArray q = arr(N() + dvat(dv, 0), pp(p)), b = arr(N() + dvat(dv, 1), 2);
        if (w == 1) return s.setInitialMomentum(q, b);
        // an observer has memory: restart it so that the answer depends on the arguments only
        int z = s.setInitialMomentum(arr(N() + dvat(dv, 3), 1), arr(N() + dvat(dv, 4), 2)); if (z) return z;
        KDL::Wrench W; int e = s.JntToExtWrench(q, b, arr(N() + dvat(dv, 2), 4), W); put(o, W); KDL::JntArray t(N()); s.getEstimatedJntTorque(t); put(o, t); return e;
    }
};
struct STreeId : Solver {
    KDL::Tree t; std::unique_ptr<KDL::TreeIdSolver_RNE> s; const KDL::Chain* made;
    STreeId(const KDL::Chain& c) : Solver(c, "TreeIdSolver_RNE"), t("root") { grow(); s.reset(new KDL::TreeIdSolver_RNE(t, KDL::Vector(1, -2, -9))); calls = {{"CartToJnt", 4, false}}; }
    KDL::SolverI& si() override { return *s; }
    void update() override { grow(); s->updateInternalDataStructures(); }
    void grow() { KDL::Tree n("root"); if (c->getNrOfSegments()) n.addChain(*c, "root"); t = n; }   // the tree follows the chain
    int call(int, int p, const std::vector<int>& dv, int, D& o) override {
        grow();
        KDL::JntArray r = outarr(N() + dvat(dv, 3)); KDL::WrenchMap m; for (int i = 0; i < S(); i += 2) m[c->getSegment(i).getName()] = pushes(1, p)[0];
        int e = s->CartToJnt(arr(N() + dvat(dv, 0), pp(p)), arr(N() + dvat(dv, 1), 2), arr(N() + dvat(dv, 2), 4), m, r); put(o, r); return e;
    }
};
inline int nsolvers() { return 16; }
inline std::unique_ptr<Solver> solver(int i, const KDL::Chain& c) {
    Solver* s = nullptr;
    switch (i) {
    case 0: s = new SFkPos(c); break; case 1: s = new SFkVel(c); break; case 2: s = new SJac(c); break; case 3: s = new SJacDot(c); break;
    case 4: s = new SPinv(c); break; case 5: s = new SGivens(c); break; case 6: s = new SNso(c); break; case 7: s = new SWdls(c); break;
    case 8: s = new SNr(c); break; case 9: s = new SNrJl(c); break; case 10: s = new SLma(c); break; case 11: s = new SDyn(c); break;
    case 12: s = new SId(c); break; case 13: s = new SFd(c); break; case 14: s = new SHd(c); break; case 15: s = new SEst(c); break; case 16: s = new STreeId(c); break;
    }
    return std::unique_ptr<Solver>(s);
}
}  // namespace kin
