// Newton-Euler mechanics by Kane's method on the reference kinematics: bodies hang on frames F_b(q(t)),
//   tau_j = sum_b [ m (a_c - g) . dc/dq_j + (I alpha + w x I w) . w_j - force . dp/dq_j - torque . w_j ] + ji_j qdd_j
// with the external wrench of a body given in its tip frame.
#pragma once
#include "treeref.hpp"
#include <chainidsolver.hpp>
namespace kin {
struct Wr { V f, t; };
struct Dyn {
    int N = 0;
    std::vector<const Seg*> body;
    std::vector<double> ji;                                   // joint inertias
    std::function<std::vector<ref::FJ>(const std::vector<Jet>&)> poses;
    std::vector<ref::FJ> at(const std::vector<double>& q, const std::vector<double>& qd, const std::vector<double>& qdd) const {
        std::vector<Jet> x(N); for (int i = 0; i < N; i++) { x[i] = Jet(q[i]); x[i].d = qd[i]; x[i].e = qdd[i]; }
        return poses(x);
    }
    static ref::VJ cogJ(const ref::FJ& F, const Seg& g) { return F.p + F.R * ref::jet(g.cog); }
    // a0: acceleration of the base (linear part at its origin), e.g. minus gravity; fext per body, in its tip frame
    std::vector<double> tau(const std::vector<double>& q, const std::vector<double>& qd, const std::vector<double>& qdd, const V& a0, const V& alpha0, const std::vector<Wr>& fext) const {
        std::vector<double> t(N, 0.0), zero(N, 0.0);
        auto A = at(q, qd, qdd);
        for (int j = 0; j < N; j++) {
            std::vector<double> e(N, 0.0); e[j] = 1;
            auto D = at(q, e, zero);
            for (size_t b = 0; b < body.size(); b++) {
                const Seg& g = *body[b];
                M R = ref::m0(A[b].R); V w = ref::omega(A[b].R), al = ref::alpha(A[b].R) + alpha0;
                ref::VJ c = cogJ(A[b], g);
                V ac = ref::v2(c) + a0 + ref::cross(alpha0, ref::v0(c));
                M I = R * g.Ic() * ref::tr(R);
                V dc = ref::v1(cogJ(D[b], g)), dp = ref::v1(D[b].p), dw = ref::omega(D[b].R);
                V Iw = I * w;
                t[j] += g.mass * ref::dot(ac, dc) + ref::dot(I * al + ref::cross(w, Iw), dw);
                if (b < fext.size()) t[j] -= ref::dot(R * fext[b].f, dp) + ref::dot(R * fext[b].t, dw);
            }
            t[j] += ji[j] * qdd[j];
        }
        return t;
    }
    Mat mass(const std::vector<double>& q) const {
        std::vector<double> zero(N, 0.0); Mat H(N, N);
        std::vector<std::vector<ref::FJ>> D;
        for (int j = 0; j < N; j++) { std::vector<double> e(N, 0.0); e[j] = 1; D.push_back(at(q, e, zero)); }
        for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) {
            double s = i == j ? ji[j] : 0;
            for (size_t b = 0; b < body.size(); b++) {
                const Seg& g = *body[b]; M R = ref::m0(D[i][b].R); M I = R * g.Ic() * ref::tr(R);
                s += g.mass * ref::dot(ref::v1(cogJ(D[i][b], g)), ref::v1(cogJ(D[j][b], g))) + ref::dot(I * ref::omega(D[i][b].R), ref::omega(D[j][b].R));
            }
            H(i, j) = s;
        }
        return H;
    }
    double kinetic(const std::vector<double>& q, const std::vector<double>& qd) const {
        auto A = at(q, qd, std::vector<double>(N, 0.0)); double T = 0;
        for (size_t b = 0; b < body.size(); b++) {
            const Seg& g = *body[b]; M R = ref::m0(A[b].R); V w = ref::omega(A[b].R), v = ref::v1(cogJ(A[b], g));
            T += 0.5 * g.mass * ref::dot(v, v) + 0.5 * ref::dot(R * (g.Ic() * (ref::tr(R) * w)), w);
        }
        for (int j = 0; j < N; j++) T += 0.5 * ji[j] * qd[j] * qd[j];
        return T;
    }
};
inline Dyn dyn(const Spec& s) {   // s must outlive the result
    Dyn d; d.N = nj(s); for (auto& g : s) { d.body.push_back(&g); if (g.moves()) d.ji.push_back(g.ji); }
    d.poses = [&s](const std::vector<Jet>& q) { return fk(s, q); };
    return d;
}
inline Dyn dyn(const TRef& m) {
    Dyn d; d.N = m.joints; d.ji.resize(m.joints);
    for (auto& x : m.n) { d.body.push_back(&x.g); if (x.q >= 0) d.ji[x.q] = x.g.ji; }
    d.poses = [&m](const std::vector<Jet>& q) { std::vector<ref::FJ> r; for (int i = 0; i < (int)m.n.size(); i++) r.push_back(m.pose(i, q)); return r; };
    return d;
}
inline KDL::Wrench w(const Wr& x) { return KDL::Wrench(k(x.f), k(x.t)); }
inline KDL::Wrenches ws(const std::vector<Wr>& x) { KDL::Wrenches r; for (auto& y : x) r.push_back(w(y)); return r; }
// the menu leaves zero inertia in places; give every body and joint something generic
inline Seg heavy(Seg g, int i) {
    if (g.mass == 0) { g.mass = 0.4 + 0.1 * i; g.cog = V(0.05, -0.1, 0.12); g.in[0] = 0.2; g.in[1] = 0.25; g.in[2] = 0.3; g.in[3] = 0.01; g.in[4] = -0.02; g.in[5] = 0.015; }
    return g;
}
}  // namespace kin
