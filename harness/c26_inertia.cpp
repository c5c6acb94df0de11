// C26: inertias are linear and transform by congruence.
#include "dyn.hpp"
#include <articulatedbodyinertia.hpp>
#include <rigidbodyinertia.hpp>
#include <rotationalinertia.hpp>
using namespace kin;
typedef std::vector<double> D;
static D flat(const M& a) { D r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.push_back(a[i][j]); return r; }
static M cross(const V& p) { M r = M::zero(); r[0][1] = -p[2]; r[0][2] = p[1]; r[1][0] = p[2]; r[1][2] = -p[0]; r[2][0] = -p[1]; r[2][1] = p[0]; return r; }
static M block(const Mat& G, int i, int j) { M r; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) r[a][b] = G(3 * i + a, 3 * j + b); return r; }
static void put(Mat& G, int i, int j, const M& x) { for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) G(3 * i + a, 3 * j + b) = x[a][b]; }
// how twists and wrenches (linear part first) move to frame T / about the point p
static Mat motion(const Fr& T) { Mat X(6, 6); put(X, 0, 0, T.R); put(X, 1, 1, T.R); put(X, 0, 1, cross(T.p) * T.R); return X; }
static Mat force(const Fr& T) { Mat X(6, 6); put(X, 0, 0, T.R); put(X, 1, 1, T.R); put(X, 1, 0, cross(T.p) * T.R); return X; }
static Mat moved(const Fr& T, const Mat& G) { return force(T) * G * ref::solve(motion(T), Mat::eye(6)); }
static Mat body(double m, const V& c, const double in[6]) {   // Ixx Iyy Izz Ixy Ixz Iyz about the centre
    Mat G(6, 6); M I; I[0][0] = in[0]; I[1][1] = in[1]; I[2][2] = in[2]; I[0][1] = I[1][0] = in[3]; I[0][2] = I[2][0] = in[4]; I[1][2] = I[2][1] = in[5];
    for (int i = 0; i < 3; i++) G(i, i) = m; put(G, 1, 1, I);
    Fr T; T.p = c; return moved(T, G);
}
static KDL::Twist tw(int i) { KDL::Twist t = KDL::Twist::Zero(); if (i < 6) t(i) = 1; else for (int j = 0; j < 6; j++) t(j) = 0.3 * j - 0.7; return t; }
static V lin(const Mat& G, int i) { V r; for (int a = 0; a < 3; a++) { double s = 0; KDL::Twist t = tw(i); for (int b = 0; b < 6; b++) s += G(a, b) * t(b); r[a] = s; } return r; }
static V ang(const Mat& G, int i) { V r; for (int a = 0; a < 3; a++) { double s = 0; KDL::Twist t = tw(i); for (int b = 0; b < 6; b++) s += G(3 + a, b) * t(b); r[a] = s; } return r; }
static double big(const Mat& G) { double m = 1; for (double x : G.a) m = std::max(m, std::fabs(x)); return m; }
template <class I> static void acts(const I& x, const Mat& G, const std::string& key, const char* at) { double t = 1e-12 * big(G); for (int i = 0; i < 7; i++) { mc::step(); nearW(x * tw(i), lin(G, i), ang(G, i), t * 4, key + ": momentum", at); } }
static void rigid(const KDL::RigidBodyInertia& x, const Mat& G, double m, const char* at) {
    acts(x, G, "rigid", at); double t = 1e-12 * big(G);
    mc::near(x.getMass(), m, t, "mass", at);
    V h(G(5, 1), G(3, 2), G(4, 0));      // mass times centre: the skew part couples
    nearV(x.getSpatialMomentum(), h, t, "first moment", at);
    if (m == 0) nearV(x.getCOG(), V(), 0, "centre of a massless body", at);
    else nearV(x.getCOG(), V(h[0] / m, h[1] / m, h[2] / m), t / std::fabs(m) * 4, "centre of mass", at);
    KDL::RotationalInertia R = x.getRotationalInertia(); D want = flat(block(G, 1, 1));
    mc::nearv(R.data, want.data(), 9, t * 4, "rotational inertia", at);
    KDL::ArticulatedBodyInertia a(x); acts(a, G, "articulated from rigid", at);
}
static D em(const Eigen::Matrix3d& m) { D r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.push_back(m(i, j)); return r; }
static void articulated(const KDL::ArticulatedBodyInertia& x, const Mat& G, const char* at) {
    acts(x, G, "articulated", at); double t = 4e-12 * big(G);
    D a = em(x.M), b = em(x.H), c = em(x.I), wa = flat(block(G, 0, 0)), wb = flat(block(G, 1, 0)), wc = flat(block(G, 1, 1));
    mc::nearv(a.data(), wa.data(), 9, t, "articulated: mass block", at); mc::nearv(b.data(), wb.data(), 9, t, "articulated: coupling block", at); mc::nearv(c.data(), wc.data(), 9, t, "articulated: rotation block", at);
}
static const double INS[][6] = {{0, 0, 0, 0, 0, 0}, {1, 1, 1, 0, 0, 0}, {0.2, 0.25, 0.3, 0.01, -0.02, 0.015}, {2, 3, 4.5, 0.6, -0.7, 0.8}, {0, 0, 0, 1, 0, 0}, {0, 0, 0, 0, 1, 0}, {0, 0, 0, 0, 0, 1}};
static const double MASS[] = {0, 1, 2.5, 40, -1.5};
static const V CS[] = {V(), V(1, 0, 0), V(0, -2, 0), V(0, 0, 0.5), V(0.3, -0.7, 1.1), V(-4, 5, 6)};
static std::vector<Fr> frames() {
    std::vector<Fr> r = {frame(0, 0, 0, 0, 0, 0), frame(0, 0, 0, 1, -2, 3), frame(M_PI / 2, 0, 0, 0, 0, 0), frame(0, M_PI / 2, 0, 0.5, 0, 0), frame(0, 0, M_PI, 0, 0, 2), frame(0.3, -0.8, 1.9, 0.4, -1.2, 0.7), frame(-2.2, 0.5, -1.1, -3, 2, 5), frame(0.7, 1.2, -0.4, 0, 0, 0)};
    return r;
}
static KDL::RotationalInertia ri(const double* in) { return KDL::RotationalInertia(in[0], in[1], in[2], in[3], in[4], in[5]); }
SCENARIO(rotational) {
    const double* a = INS[mc::choose(7, "inertia")]; const double* b = INS[mc::choose(7, "other")]; double x = MASS[mc::choose(5, "factor")];
    KDL::RotationalInertia A = ri(a), B = ri(b);
    M ma = block(body(0, V(), a), 1, 1), mb = block(body(0, V(), b), 1, 1);
    D w = flat(ma); mc::nearv(A.data, w.data(), 9, 0, "layout");
    for (const V& c : CS) { nearV(A * k(c), ma * c, 1e-13 * 30, "angular momentum"); }
    KDL::RotationalInertia S = A + B, P = x * A; D s = flat(ma), p = s; D fb = flat(mb); for (int i = 0; i < 9; i++) { s[i] += fb[i]; p[i] *= x; }
    mc::nearv(S.data, s.data(), 9, 1e-13 * 10, "sum"); mc::nearv(P.data, p.data(), 9, 1e-13 * 200, "multiple");
    KDL::RotationalInertia C = A; C = C + C; C = 0.5 * C; mc::nearv(C.data, w.data(), 9, 0, "sum with itself");
    KDL::RotationalInertia Z, Z2 = KDL::RotationalInertia::Zero(); for (int i = 0; i < 9; i++) mc::check(Z.data[i] == 0 && Z2.data[i] == 0, "zero", " ");
    mc::step(4);
}
SCENARIO(single) {
    double m = MASS[mc::choose(5, "mass")]; const V& c = CS[mc::choose(6, "centre")]; const double* in = INS[mc::choose(7, "inertia")];
    KDL::RigidBodyInertia A(m, k(c), ri(in)); Mat G = body(m, c, in);
    rigid(A, G, m, "built");
    KDL::ArticulatedBodyInertia E(m, k(c), ri(in)); articulated(E, G, "built");
    for (const Fr& T : frames()) {
        mc::step(4);
        rigid(k(T) * A, moved(T, G), m, "moved"); articulated(k(T) * E, moved(T, G), "moved");
        Fr Q; Q.R = T.R; rigid(k(T.R) * A, moved(Q, G), m, "turned"); articulated(k(T.R) * E, moved(Q, G), "turned");
        Fr P; P.p = -T.p; rigid(A.RefPoint(k(T.p)), moved(P, G), m, "other point"); articulated(E.RefPoint(k(T.p)), moved(P, G), "other point");
        rigid(k(T).Inverse() * (k(T) * A), G, m, "there and back");
        // the same energy in every frame
        for (int i = 0; i < 7; i++) mc::near(dot(k(T) * tw(i), (k(T) * A) * (k(T) * tw(i))), dot(tw(i), A * tw(i)), 1e-11 * big(moved(T, G)) * 400, "energy");
    }
    rigid(KDL::RigidBodyInertia::Zero(), Mat(6, 6), 0, "zero"); articulated(KDL::ArticulatedBodyInertia::Zero(), Mat(6, 6), "zero"); articulated(KDL::ArticulatedBodyInertia(), Mat(6, 6), "zero");
    rigid(KDL::RigidBodyInertia(), Mat(6, 6), 0, "zero"); rigid(KDL::RigidBodyInertia(m), body(m, V(), INS[0]), m, "mass only"); rigid(KDL::RigidBodyInertia(m, k(c)), body(m, c, INS[0]), m, "point mass");
    mc::state(G.a.data(), 36);
}
// ---- sequences of operations on two bodies, rigid and articulated side by side
SCENARIO_SPLIT(sequences, 2) {
    auto F = frames();
    Mat G[2], H[2]; double m[2]; KDL::RigidBodyInertia A[2]; KDL::ArticulatedBodyInertia E[2];
    int start = mc::choose(3, "start");
    for (int i = 0; i < 2; i++) {
        int x = (start + i) % 3; m[i] = MASS[x == 0 ? 2 : x == 1 ? 1 : 0]; V c = CS[4 - x]; const double* in = INS[2 + x];
        A[i] = KDL::RigidBodyInertia(m[i], k(c), ri(in)); G[i] = body(m[i], c, in);
        // a general articulated one
        Mat g(6, 6); for (int a = 0; a < 6; a++) for (int b = 0; b <= a; b++) g(a, b) = g(b, a) = (a == b ? 3 : 0) + std::sin(1.0 + 3 * a + 7 * b + 2 * x);
        Eigen::Matrix3d p, q, r; for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) { p(a, b) = g(a, b); q(a, b) = g(3 + a, b); r(a, b) = g(3 + a, 3 + b); }
        E[i] = KDL::ArticulatedBodyInertia(p, q, r); H[i] = g;
    }
    for (int n = 0; n < mc::tiered(4, 5); n++) {
        int op = mc::choose(11, "operation"); mc::step();
        Fr P, R; P.p = -F[5].p; R.R = F[5].R;
        switch (op) {
        case 0: A[0] = k(F[6]) * A[0]; G[0] = moved(F[6], G[0]); E[0] = k(F[6]) * E[0]; H[0] = moved(F[6], H[0]); break;
        case 1: A[0] = k(F[3]) * A[0]; G[0] = moved(F[3], G[0]); E[0] = k(F[3]) * E[0]; H[0] = moved(F[3], H[0]); break;
        case 2: A[0] = k(F[5].R) * A[0]; G[0] = moved(R, G[0]); E[0] = k(F[5].R) * E[0]; H[0] = moved(R, H[0]); break;
        case 3: A[0] = A[0].RefPoint(k(F[5].p)); G[0] = moved(P, G[0]); E[0] = E[0].RefPoint(k(F[5].p)); H[0] = moved(P, H[0]); break;
        case 4: A[0] = -1.5 * A[0]; G[0] = -1.5 * G[0]; m[0] *= -1.5; E[0] = -1.5 * E[0]; H[0] = -1.5 * H[0]; break;
        case 5: A[0] = A[0] + A[1]; G[0] = G[0] + G[1]; m[0] += m[1]; E[0] = E[0] + E[1]; H[0] = H[0] + H[1]; break;
        case 6: A[0] = A[0] + A[0]; G[0] = G[0] + G[0]; m[0] += m[0]; E[0] = E[0] - E[1]; H[0] = H[0] - H[1]; break;
        case 7: E[0] = E[0] + A[0]; H[0] = H[0] + G[0]; break;
        case 8: E[0] = E[0] - A[1]; H[0] = H[0] - G[1]; break;
        case 9: E[1] = A[1] + E[0]; H[1] = G[1] + H[0]; break;
        case 10: std::swap(A[0], A[1]); std::swap(G[0], G[1]); std::swap(m[0], m[1]); std::swap(E[0], E[1]); std::swap(H[0], H[1]); break;
        }
        double sc = big(G[0]); Mat g = G[0]; g(0, 0) += 0; (void)sc;
        rigid(A[0], G[0], m[0], "after a sequence"); articulated(E[0], H[0], "after a sequence"); articulated(E[1], H[1], "after a sequence");
        mc::state(H[0].a.data(), 36);
    }
}
