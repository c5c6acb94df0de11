// C17: the Jacobian derivative is the time derivative of the Jacobian.
#include "kin.hpp"
#include <chainjnttojacdotsolver.hpp>
using namespace kin;

static const double TOL = 1e-9;
struct D2 { V p, pu, pv, puv; M R, Ru, Rv, Ruv; };
static ref::FJ along(const Spec& s, const std::vector<double>& q, const std::vector<double>& u, int nseg) {
    std::vector<Jet> x; for (size_t i = 0; i < q.size(); i++) x.push_back(Jet(q[i], u[i]));
    return nseg ? fk(s, x)[nseg - 1] : ref::FJ();
}
// derivative of the Jacobian (representation rep) of the first nseg segments along qd
static Mat jacdot(const Spec& s, const std::vector<double>& q, const std::vector<double>& qd, int nseg, int rep) {
    int N = (int)q.size(); Mat out(6, N);
    ref::FJ Fv = along(s, q, qd, nseg);
    M R = ref::m0(Fv.R), Rv = ref::m1(Fv.R); V p = ref::v0(Fv.p), pv = ref::v1(Fv.p);
    for (int j = 0; j < N; j++) {
        std::vector<double> u(N, 0.0), w = qd; u[j] = 1; w[j] += 1;
        ref::FJ Fu = along(s, q, u, nseg), Fw = along(s, q, w, nseg);
        M Ru = ref::m1(Fu.R), Ruv = 0.5 * (ref::m2(Fw.R) - ref::m2(Fu.R) - ref::m2(Fv.R));
        V pu = ref::v1(Fu.p), puv = 0.5 * (ref::v2(Fw.p) - ref::v2(Fu.p) - ref::v2(Fv.p));
        V vel = pu, rot = ref::unskew(Ru * ref::tr(R)), dvel = puv, drot = ref::unskew(Ruv * ref::tr(R) + Ru * ref::tr(Rv));
        if (rep == 1) { V a = ref::tr(Rv) * vel + ref::tr(R) * dvel, b = ref::tr(Rv) * rot + ref::tr(R) * drot; dvel = a; drot = b; }
        if (rep == 2) dvel = dvel + ref::cross(pv, rot) + ref::cross(p, drot);
        for (int i = 0; i < 3; i++) { out(i, j) = dvel[i]; out(3 + i, j) = drot[i]; }
    }
    return out;
}
static const char* REP[] = {"hybrid", "body-fixed", "inertial"};
static void all(const Spec& s, bool locks) {
    KDL::Chain c = chain(s);
    int n = (int)s.size(), N = nj(s);
    KDL::ChainJntToJacDotSolver solver(c);
    for (int p = 1; p < mc::tiered(5, 6); p++) {
        std::vector<double> q = qpat(N, p), qd = qpat(N, p == 2 ? 1 : p == 1 ? 4 : p == 4 ? 5 : 2);
        for (unsigned m = 0; m < (locks ? 1u << N : 1u); m++) {
            std::vector<bool> l(N); int U = 0; std::vector<double> qdl = qd;
            for (int i = 0; i < N; i++) { l[i] = m >> i & 1; U += !l[i]; if (l[i]) qdl[i] = 0; }
            if (locks) { mc::step(); mc::check(solver.setLockedJoints(l) == 0, "locking joints", "mask %u", m); }
            for (int rep = 0; rep < 3; rep++) {
                if (rep == 0) solver.setHybridRepresentation(); else if (rep == 1) solver.setBodyFixedRepresentation(); else solver.setInertialRepresentation();
                for (int k = -1; k <= n; k++) {
                    if (locks && k > 0 && k < n - 1) continue;
                    Mat full = jacdot(s, q, qdl, k < 0 ? n : k, rep), want(6, U);
                    int col = 0; V lin, ang;
                    for (int j = 0; j < N; j++) if (!l[j]) {
                        for (int i = 0; i < 6; i++) want(i, col) = full(i, j);
                        for (int i = 0; i < 3; i++) { lin[i] += full(i, j) * qd[j]; ang[i] += full(3 + i, j) * qd[j]; }
                        col++;
                    }
                    // compact: the columns of unlocked joints beyond the segment are zero and last in order
                    KDL::Jacobian J(U); for (int i = 0; i < 6; i++) for (int j = 0; j < U; j++) J(i, j) = 77;
                    KDL::JntArrayVel Q(ja(q), ja(qd));
                    mc::step(2);
                    int r = solver.JntToJacDot(Q, J, k);
                    std::string L = m ? " with locked joints" : "";
                    if (mc::check(r == 0 && solver.getError() == 0, "answer" + L, "segment %d: %d", k, r))
                        nearMat(mat(J), want, TOL, std::string(REP[rep]) + " jacobian derivative" + L, mc::fmt("segment %d, lock mask %u", k, m).c_str());
                    KDL::Twist t(KDL::Vector(7, 7, 7), KDL::Vector(7, 7, 7));
                    r = solver.JntToJacDot(Q, t, k);
                    if (mc::check(r == 0 && solver.getError() == 0, "answer for the twist" + L, "segment %d: %d", k, r))
                        nearT(t, lin, ang, TOL, std::string(REP[rep]) + " derivative twist" + L);
                    nearQ(Q.q, q, 0, "argument untouched"); nearQ(Q.qdot, qd, 0, "argument untouched");
                    if (U) { Mat x = mat(J); mc::state(x.a.data(), x.a.size(), rep); }
                }
            }
        }
    }
    // the representation of a new solver is the hybrid one; unknown representations are ignored
    KDL::ChainJntToJacDotSolver fresh(c); KDL::Jacobian J(N); std::vector<double> q = qpat(N, 1), qd = qpat(N, 4);
    for (int bad : {99, 3, -1}) {
        mc::check(fresh.JntToJacDot(KDL::JntArrayVel(ja(q), ja(qd)), J) == 0, "answer", " ");
        nearMat(mat(J), jacdot(s, q, qd, n, 0), TOL, "default representation");
        fresh.setRepresentation(bad);
    }
    fresh.setRepresentation(KDL::ChainJntToJacDotSolver::INERTIAL); fresh.setRepresentation(7);
    mc::check(fresh.JntToJacDot(KDL::JntArrayVel(ja(q), ja(qd)), J) == 0, "answer", " ");
    nearMat(mat(J), jacdot(s, q, qd, n, 2), TOL, "an unknown representation is ignored");
}
SCENARIO(small) {
    int n = mc::choose(mc::tiered(4, 5), "segments");
    all(choose_spec(n, n > 3 ? std::vector<int>{0, 1, 4, 5, 6, 8, 3} : n > 2 ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 8} : all_kinds()), mc::flag("locks"));
}
SCENARIO(large) {
    auto& L = long_shapes();
    Spec s = spec(L[mc::choose((int)L.size(), "shape")]);
    int cut = mc::choose((int)s.size(), "start"); s.erase(s.begin(), s.begin() + cut);
    all(s, nj(s) <= mc::tiered(4, 6) && mc::flag("locks"));
}
