// Bridges the library's types to the reference model, and the chain / tree alphabets.
#pragma once
#include "mc.hpp"
#include "ref.hpp"
#include <chain.hpp>
#include <frames.hpp>
#include <frames_io.hpp>
#include <jacobian.hpp>
#include <jntarray.hpp>
#include <memory>

namespace kin {
using ref::Fr; using ref::Jet; using ref::V; using ref::M; using ref::Mat;

inline V v(const KDL::Vector& a) { return V(a.data[0], a.data[1], a.data[2]); }
inline KDL::Vector k(const V& a) { return KDL::Vector(a[0], a[1], a[2]); }
inline M m(const KDL::Rotation& r) { M o; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o[i][j] = r.data[3 * i + j]; return o; }
inline KDL::Rotation k(const M& a) { return KDL::Rotation(a[0][0], a[0][1], a[0][2], a[1][0], a[1][1], a[1][2], a[2][0], a[2][1], a[2][2]); }
inline Fr f(const KDL::Frame& a) { Fr o; o.R = m(a.M); o.p = v(a.p); return o; }
inline KDL::Frame k(const Fr& a) { return KDL::Frame(k(a.R), k(a.p)); }

inline bool nearV(const KDL::Vector& a, const V& b, double tol, const std::string& key, const char* what = "vector") { return mc::nearv(a.data, b.v, 3, tol, key, what); }
inline bool nearM(const KDL::Rotation& a, const M& b, double tol, const std::string& key, const char* what = "rotation") { return mc::nearv(a.data, &b.m[0][0], 9, tol, key, what); }
inline bool nearF(const KDL::Frame& a, const Fr& b, double tol, const std::string& key, const char* what = "frame") {
    return nearM(a.M, b.R, tol, key, what) & nearV(a.p, b.p, tol, key, what);
}
inline bool nearT(const KDL::Twist& a, const V& lin, const V& ang, double tol, const std::string& key, const char* what = "twist") {
    double x[6] = {a.vel.data[0], a.vel.data[1], a.vel.data[2], a.rot.data[0], a.rot.data[1], a.rot.data[2]};
    double y[6] = {lin[0], lin[1], lin[2], ang[0], ang[1], ang[2]};
    return mc::nearv(x, y, 6, tol, key, what);
}
inline bool nearW(const KDL::Wrench& a, const V& lin, const V& ang, double tol, const std::string& key, const char* what = "wrench") {
    double x[6] = {a.force.data[0], a.force.data[1], a.force.data[2], a.torque.data[0], a.torque.data[1], a.torque.data[2]};
    double y[6] = {lin[0], lin[1], lin[2], ang[0], ang[1], ang[2]};
    return mc::nearv(x, y, 6, tol, key, what);
}

struct Seg {
    KDL::Joint::JointType type = KDL::Joint::Fixed;
    V origin, axis;                 // only for RotAxis / TransAxis
    double scale = 1, offset = 0, ji = 0, jd = 0, js = 0;
    Fr tip;                         // pose of the tip at q = 0
    double mass = 0; V cog; double in[6] = {0, 0, 0, 0, 0, 0};   // Ixx Iyy Izz Ixy Ixz Iyz about the cog
    std::string name;

    bool moves() const { return type != KDL::Joint::Fixed; }
    bool rot() const { return type == KDL::Joint::RotAxis || type == KDL::Joint::RotX || type == KDL::Joint::RotY || type == KDL::Joint::RotZ; }
    V dir() const {
        switch (type) {
            case KDL::Joint::RotX: case KDL::Joint::TransX: return V(1, 0, 0);
            case KDL::Joint::RotY: case KDL::Joint::TransY: return V(0, 1, 0);
            case KDL::Joint::RotZ: case KDL::Joint::TransZ: return V(0, 0, 1);
            case KDL::Joint::Fixed: return V();
            default: { double n = ref::norm(axis); return V(axis[0] / n, axis[1] / n, axis[2] / n); }
        }
    }
    V org() const { return type == KDL::Joint::RotAxis || type == KDL::Joint::TransAxis ? origin : V(); }
    template <class T> ref::F<T> jpose(T q) const {
        ref::F<T> r;
        if (!moves()) return r;
        T s = T(scale) * q + T(offset);
        V d = dir(), o = org();
        ref::V3<T> D{T(d[0]), T(d[1]), T(d[2])}, O{T(o[0]), T(o[1]), T(o[2])};
        if (rot()) { r.R = ref::rodrigues(D, s); r.p = O; }
        else r.p = O + s * D;
        return r;
    }
    template <class T> ref::F<T> pose(T q) const {
        ref::F<T> t;
        for (int i = 0; i < 3; i++) { t.p[i] = T(tip.p[i]); for (int j = 0; j < 3; j++) t.R[i][j] = T(tip.R[i][j]); }
        return jpose(q) * (ref::inv(jpose(T(0))) * t);
    }
    KDL::Joint joint() const {
        if (type == KDL::Joint::RotAxis || type == KDL::Joint::TransAxis)
            return KDL::Joint(name + "_j", k(origin), k(axis), type, scale, offset, ji, jd, js);
        return KDL::Joint(name + "_j", type, scale, offset, ji, jd, js);
    }
    KDL::RigidBodyInertia inertia() const {
        return KDL::RigidBodyInertia(mass, k(cog), KDL::RotationalInertia(in[0], in[1], in[2], in[3], in[4], in[5]));
    }
    KDL::Segment make() const { return KDL::Segment(name, joint(), k(tip), inertia()); }
    M Ic() const { M r; r[0][0] = in[0]; r[1][1] = in[1]; r[2][2] = in[2]; r[0][1] = r[1][0] = in[3]; r[0][2] = r[2][0] = in[4]; r[1][2] = r[2][1] = in[5]; return r; }
};

inline Fr frame(double rx, double ry, double rz, double x, double y, double z) {
    Fr r; r.R = ref::rotz(rz) * ref::roty(ry) * ref::rotx(rx); r.p = V(x, y, z); return r;
}
// the alphabet of segments: every joint type, scale/offset variants, fixed segments, coincident axes
inline const std::vector<Seg>& menu() {
    static std::vector<Seg> s;
    if (!s.empty()) return s;
    auto add = [&](KDL::Joint::JointType t, V o, V a, double sc, double off, Fr tip, double mass) {
        Seg g; g.type = t; g.origin = o; g.axis = a; g.scale = sc; g.offset = off; g.tip = tip; g.mass = mass;
        int n = (int)s.size();
        if (mass > 0) {
            g.cog = V(0.1 - 0.03 * n, 0.05 * (n % 3), -0.2 + 0.04 * n);
            g.in[0] = 0.3 + 0.02 * n; g.in[1] = 0.4 + 0.01 * n; g.in[2] = 0.5 - 0.01 * n; g.in[3] = 0.02; g.in[4] = -0.03; g.in[5] = 0.01;
        }
        g.ji = g.moves() ? 0.05 * (n % 4) : 0;
        g.name = mc::fmt("m%d", n);
        s.push_back(g);
    };
    typedef KDL::Joint J;
    V z;
    add(J::RotZ, z, z, 1, 0, frame(0, 0, 0, 0, 0, 0.5), 1.2);                                       // 0
    add(J::Fixed, z, z, 1, 0, frame(0.3, -0.2, 0.7, 0.1, -0.2, 0.3), 0.7);                          // 1
    add(J::RotX, z, z, 1, 0, frame(0, 0, 0, 0.4, 0.1, 0), 0.9);                                     // 2
    add(J::TransZ, z, z, 1, 0, frame(0.5, 0, 0, 0, 0.2, 0.1), 0.5);                                 // 3
    add(J::RotAxis, V(0.1, 0.2, -0.3), V(1, 2, -0.5), 1, 0, frame(0, 0.4, 0, 0.3, 0, 0.2), 1.5);    // 4
    add(J::TransAxis, V(-0.2, 0.1, 0.05), V(0.3, -1, 2), 1, 0, frame(0.2, 0, -0.4, 0, 0, 0.3), 0.8);// 5
    add(J::RotY, z, z, -1.5, 0.4, frame(0.1, 0.2, 0.3, 0.3, 0.1, -0.1), 1.1);                       // 6
    add(J::RotAxis, V(0, -0.4, 0.1), V(-1, 0.2, 3), 2, -0.3, frame(0, 0, 0.9, 0.1, 0.2, 0), 0.6);   // 7
    add(J::TransX, z, z, 0.5, 0.25, frame(0, -0.6, 0, 0.2, 0, 0), 0.4);                             // 8
    add(J::TransY, z, z, -2, 0, frame(0, 0, 0, 0, 0, 0), 0);                                        // 9
    add(J::TransAxis, V(0.3, 0, 0), V(2, 0, 1), 1.5, -0.2, frame(0, 0, 0, 0.1, 0, 0), 1.3);         // 10
    add(J::RotZ, z, z, 1, 0, frame(0, 0, 0, 0, 0, 0), 0.2);                                         // 11
    add(J::Fixed, z, z, 1, 0, frame(0, 0, 0, 0, 0, 0), 0);                                          // 12
    return s;
}
typedef std::vector<Seg> Spec;
inline int nj(const Spec& s) { int n = 0; for (auto& g : s) n += g.moves(); return n; }
inline KDL::Chain chain(const Spec& s) { KDL::Chain c; for (auto& g : s) c.addSegment(g.make()); return c; }
// an exhaustively chosen chain of exactly n segments over the given menu indices
inline Spec choose_spec(int n, const std::vector<int>& idx, const char* label = "segment kind") {
    Spec s;
    for (int i = 0; i < n; i++) { int c = idx[mc::choose((int)idx.size(), label)]; s.push_back(menu()[c]); s.back().name = mc::fmt("s%d", i); }
    return s;
}
inline Spec spec(const std::vector<int>& idx) {
    Spec s; int i = 0;
    for (int c : idx) { s.push_back(menu()[c]); s.back().name = mc::fmt("s%d", i++); }
    return s;
}
inline std::vector<int> all_kinds() { std::vector<int> r; for (size_t i = 0; i < menu().size(); i++) r.push_back((int)i); return r; }
// longer shapes that are visited as a whole: up to eight joints, fixed segments leading, between and trailing
inline const std::vector<std::vector<int>>& long_shapes() {
    static std::vector<std::vector<int>> s = {
        {0, 2, 4, 6, 7}, {1, 0, 1, 2, 1, 4, 1}, {0, 2, 0, 2, 0, 2}, {0, 6, 2, 7, 4, 0, 2},
        {4, 7, 5, 10, 0, 6, 8, 3}, {12, 3, 12, 12, 0, 12, 9}, {3, 8, 9, 5, 10}, {0, 11, 2, 11, 0, 6, 2}, {0, 2, 4, 6, 7, 0, 2, 4, 6}, {1, 1, 4, 1, 7}};
    return s;
}
template <class T> std::vector<ref::F<T>> fk(const Spec& s, const std::vector<T>& q) {
    std::vector<ref::F<T>> r; ref::F<T> c; size_t j = 0;
    for (auto& g : s) { T x = T(0); if (g.moves()) x = q[j++]; c = c * g.pose(x); r.push_back(c); }
    return r;
}
// geometric Jacobian (6 x nj) of segment index seg (-1: whole chain; result column j) at its tip, base coordinates
inline Mat jacobian(const Spec& s, const std::vector<double>& q, int nseg) {
    int n = nj(s); Mat J(6, n);
    for (int j = 0; j < n; j++) {
        std::vector<Jet> x(q.begin(), q.end()); x[j].d = 1;
        if (nseg == 0) continue;
        auto F = fk(s, x)[nseg - 1];
        V w = ref::omega(F.R), l = ref::v1(F.p);
        for (int i = 0; i < 3; i++) { J(i, j) = l[i]; J(3 + i, j) = w[i]; }
    }
    return J;
}
inline KDL::JntArray ja(const std::vector<double>& q) { KDL::JntArray r((unsigned)q.size()); for (size_t i = 0; i < q.size(); i++) r(i) = q[i]; return r; }
inline std::vector<double> vec(const KDL::JntArray& q) { std::vector<double> r(q.rows()); for (size_t i = 0; i < r.size(); i++) r[i] = q(i); return r; }
inline Mat mat(const KDL::Jacobian& J) { Mat r(6, J.columns()); for (int i = 0; i < 6; i++) for (unsigned j = 0; j < J.columns(); j++) r(i, j) = J(i, j); return r; }
inline bool nearMat(const Mat& a, const Mat& b, double tol, const std::string& key, const char* what = "matrix") {
    if (!mc::check(a.r == b.r && a.c == b.c, key, "%s: size %dx%d instead of %dx%d", what, a.r, a.c, b.r, b.c)) return false;
    if (a.a.empty()) return true;
    return mc::nearv(a.a.data(), b.a.data(), (int)a.a.size(), tol, key, what);
}
inline bool nearQ(const KDL::JntArray& a, const std::vector<double>& b, double tol, const std::string& key, const char* what = "joint array") {
    if (!mc::check(a.rows() == b.size(), key, "%s: %u rows instead of %zu", what, a.rows(), b.size())) return false;
    if (b.empty()) return true;
    std::vector<double> x = vec(a);
    return mc::nearv(x.data(), b.data(), (int)b.size(), tol, key, what);
}
// fixed, generic joint value patterns; p chooses one of them. Pattern 5 has small values of several magnitudes, for thresholds
inline std::vector<double> qpat(int n, int p) {
    std::vector<double> r(n, 0.0);
    static const double base[6][9] = {{0, 0, 0, 0, 0, 0, 0, 0, 0},
                                      {0.3, -0.7, 1.1, 0.5, -1.3, 0.9, 0.2, -0.4, 0.8},
                                      {-2.5, 1.6, 0.4, -3.0, 2.2, -0.1, 1.9, 0.7, -1.2},
                                      {1.5707963267948966, 0, -1.5707963267948966, 3.141592653589793, 0, 1.5707963267948966, 0, -1.5707963267948966, 0},
                                      {0.05, 0.9, -0.35, 1.7, 0.6, -0.8, -1.1, 2.4, 0.15},
                                      {-2e-3, 8e-4, 0.03, -5e-5, 3e-6, 1e-2, -4e-7, 6e-4, -0.08}};
    for (int i = 0; i < n; i++) r[i] = base[p % 6][i % 9];
    return r;
}
inline std::string str(const std::vector<double>& q) { std::string s = "["; for (size_t i = 0; i < q.size(); i++) s += mc::fmt("%s%.6g", i ? " " : "", q[i]); return s + "]"; }
inline std::string str(const Spec& s) {
    static const char* n[] = {"RotAxis", "RotX", "RotY", "RotZ", "TransAxis", "TransX", "TransY", "TransZ", "Fixed"};
    std::string o; for (auto& g : s) o += (o.empty() ? "" : " ") + mc::fmt("%s(scale %g, offset %g)", n[g.type], g.scale, g.offset); return o;
}
// generalized forces by Kane's method for bodies attached to frames F_b(q(t)):
//   tau_j = sum_b [ m (a_c - g) . dv_c/dqdot_j + (I alpha + w x I w) . dw/dqdot_j - fext . ] + ji_j * qdd_j
struct Body { const Seg* seg; };
}  // namespace kin
