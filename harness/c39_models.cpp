// C39: the robot models of the library are the robots of their tables.
#include "dyn.hpp"
#include <chainfksolverpos_recursive.hpp>
#include <chainidsolver_recursive_newton_euler.hpp>
#include <chaindynparam.hpp>
#include <../models/puma560.cpp>
#include <../models/kukaLWR_DHnew.cpp>
using namespace kin;
static const double H = 1.57079632679489661923;
static Fr trans(double x, double y, double z) { Fr r; r.p = V(x, y, z); return r; }
static Fr turnx(double a) { Fr r; r.R = ref::rotx(a); return r; }
static Seg link(const Fr& tip, double m, V c, std::initializer_list<double> in, bool fixed = false) { Seg g; g.type = fixed ? KDL::Joint::Fixed : KDL::Joint::RotZ; g.tip = tip; g.mass = m; g.cog = c; int i = 0; for (double x : in) g.in[i++] = x; g.name = "l"; return g; }
// the same body, given in the frame its joint turns instead of the one at its tip
static Seg inner(Seg g) { M Rt = ref::tr(g.tip.R), I = Rt * g.Ic() * g.tip.R; g.cog = Rt * (g.cog - g.tip.p); g.in[0] = I[0][0]; g.in[1] = I[1][1]; g.in[2] = I[2][2]; g.in[3] = I[0][1]; g.in[4] = I[0][2]; g.in[5] = I[1][2]; return g; }
static Spec puma() {   // a, alpha, d after the turn; mass, centre of mass, principal inertias about it, at the tip
    auto A = [](double a, double al, double d) { return trans(0, 0, d) * trans(a, 0, 0) * turnx(al); };
    return {link(A(0, H, 0), 0, V(), {0, 0.35, 0}), link(A(0.4318, 0, 0), 17.4, V(-.3638, .006, .2275), {0.13, 0.524, 0.539}), link(A(0.0203, -H, 0.15005), 4.8, V(-.0203, -.0141, .070), {0.066, 0.086, 0.0125}),
            link(A(0, H, 0.4318), 0.82, V(0, .019, 0), {1.8e-3, 1.3e-3, 1.8e-3}), link(A(0, -H, 0), 0.34, V(), {.3e-3, .4e-3, .3e-3}), link(A(0, 0, 0), 0.09, V(0, 0, .032), {.15e-3, .15e-3, .04e-3})};
}
static Spec kuka() {   // alpha and d of the next joint; centre of mass and inertia in the joint's own frame, Craig's convention
    auto B = [](double al, double d) { return turnx(al) * trans(0, 0, d); };
    return {link(B(0, .31), 0, V(), {}, true), inner(link(B(H, 0), 2, V(), {0, 0, .0115343})), inner(link(B(-H, .4), 2, V(0, -.3120511, -.0038871), {-.5471572, -.0000302, -.5423253, 0, 0, .0018828})),
            inner(link(B(-H, 0), 2, V(0, -.0015515, 0), {.0063507, 0, .0107804, 0, 0, -.0005147})), inner(link(B(H, .39), 2, V(0, .5216809, 0), {-1.0436952, 0, -1.0392780, 0, 0, .0005324})),
            inner(link(B(H, 0), 2, V(0, .0119891, 0), {.0036654, 0, .0060429, 0, 0, .0004226})), inner(link(B(-H, 0), 2, V(0, .0080787, 0), {.0010431, 0, .0036376, 0, 0, .0000101})), link(Fr(), 2, V(), {.000001, 0, .0001203})};
}
static const char* const NAME[] = {"Puma560", "KukaLWR_DHnew"};
static KDL::Chain model(int r) { return r ? KDL::KukaLWR_DHnew() : KDL::Puma560(); }
static double turn(int i) { static const double Q[] = {0, 1.1, -2.3, 3.14159265358979312, 0.4}; return Q[i]; }
SCENARIO_SPLIT(poses, 3) {
    int r = mc::choose(2, "robot"); Spec s = r ? kuka() : puma(); int N = nj(s); KDL::Chain c = model(r);
    if (!mc::check((int)c.getNrOfJoints() == N, "joints", "%s: %u", NAME[r], c.getNrOfJoints())) return;
    std::vector<double> q(N); for (int i = 0; i < N; i++) q[i] = turn(mc::choose(r ? mc::tiered(2, 4) : mc::tiered(3, 5), "angle")) * (r ? 1.2 - 0.07 * i : 1); mc::step();
    if (mc::flag("an earlier copy was changed")) { KDL::Chain d = model(r); d.addSegment(KDL::Segment(KDL::Joint(KDL::Joint::RotX), KDL::Frame(KDL::Vector(1, 2, 3)))); c = model(r); }
    KDL::Frame F; KDL::ChainFkSolverPos_recursive fk_(c); mc::check(fk_.JntToCart(ja(q), F) == 0, "code", "%s", NAME[r]); nearF(F, fk(s, q).back(), 1e-6, "pose of the tip", (std::string(NAME[r]) + " " + str(q)).c_str());
    { double x[12]; for (int i = 0; i < 9; i++) x[i] = F.M.data[i]; for (int i = 0; i < 3; i++) x[9 + i] = F.p(i); mc::state(x, 12, r); }
}
SCENARIO_SPLIT(forces, 3) {
    int r = mc::choose(2, "robot"); Spec s = r ? kuka() : puma(); int N = nj(s); KDL::Chain c = model(r); Dyn d = dyn(s); if ((int)c.getNrOfJoints() != N) return;
    std::vector<double> q(N), qd(N), qdd(N); int p = mc::choose(mc::tiered(8, 27), "posture"), v = mc::choose(N + 2, "moving"), a = mc::choose(N + 2, "accelerated"); V g = mc::pick(std::vector<V>{V(0, 0, -9.81), V(), V(3, -2, 1)}, "gravity"); mc::step();
    for (int i = 0; i < N; i++) { q[i] = turn((p * (i + 2) / 2 + i) % 5) - 0.1 * i; qd[i] = v == i ? 1.3 : v == N + 1 ? 0.5 - 0.3 * i : 0; qdd[i] = a == i ? -0.9 : a == N + 1 ? 0.2 * i - 0.7 : 0; }
    KDL::ChainIdSolver_RNE id(c, k(g)); KDL::JntArray t(N); KDL::Wrenches f(c.getNrOfSegments(), KDL::Wrench::Zero()); std::vector<double> want = d.tau(q, qd, qdd, V(-g[0], -g[1], -g[2]), V(), {});
    mc::check(id.CartToJnt(ja(q), ja(qd), ja(qdd), f, t) == 0, "code", "%s", NAME[r]); nearQ(t, want, 1e-5, "joint torques", (std::string(NAME[r]) + " " + str(q) + str(qd) + str(qdd)).c_str());
    KDL::ChainDynParam dp(c, k(g)); KDL::JntSpaceInertiaMatrix Hm(N); if (v == 0 && a == 0) { mc::check(dp.JntToMass(ja(q), Hm) == 0, "code", "%s", NAME[r]); Mat W = d.mass(q), G(N, N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) G(i, j) = Hm(i, j); nearMat(G, W, 1e-5, "inertia matrix", NAME[r]); }
    mc::state(vec(t).data(), N);
}
