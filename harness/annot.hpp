// One body for the velocity- and the acceleration-annotated geometry; the reference is the same
// formula evaluated on jets (value, first and second derivative).
#pragma once
#include "kin.hpp"
#include <frameacc.hpp>
#include <framevel.hpp>
namespace annot {
using namespace kin;
using ref::VJ; using ref::MJ; using ref::FJ;
struct TJ { VJ vel, rot; };
inline VJ curve(const V& p, const V& v, const V& a) { VJ r; for (int i = 0; i < 3; i++) r[i] = Jet(p[i], v[i], a[i]); return r; }
inline MJ curve(const M& R, const V& w, const V& dw) {
    M d = ref::skew(w) * R, e = (ref::skew(dw) + ref::skew(w) * ref::skew(w)) * R; MJ r;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = Jet(R[i][j], d[i][j], e[i][j]);
    return r;
}
struct Vel {
    typedef KDL::VectorVel Vec; typedef KDL::RotationVel Rot; typedef KDL::FrameVel Frm; typedef KDL::TwistVel Twi; typedef KDL::doubleVel Dbl;
    static const int order = 1;
    static Vec mk(const VJ& a) { return Vec(k(ref::v0(a)), k(ref::v1(a))); }
    static Rot mk(const MJ& a) { return Rot(k(ref::m0(a)), k(ref::omega(a))); }
    static Frm mk(const FJ& a) { return Frm(mk(a.R), mk(a.p)); }
    static Twi mk(const TJ& a) { return Twi(mk(a.vel), mk(a.rot)); }
    static Dbl mk(const Jet& a) { return Dbl(a.x, a.d); }
    static void get(const Vec& a, double* o) { for (int i = 0; i < 3; i++) { o[i] = a.p(i); o[3 + i] = a.v(i); o[6 + i] = 0; } }
    static void get(const Dbl& a, double* o) { o[0] = a.t; o[1] = a.grad; o[2] = 0; }
    static void getR(const Rot& a, double* o) { for (int i = 0; i < 3; i++) { o[i] = a.w(i); o[3 + i] = 0; } }
};
struct Acc {
    typedef KDL::VectorAcc Vec; typedef KDL::RotationAcc Rot; typedef KDL::FrameAcc Frm; typedef KDL::TwistAcc Twi; typedef KDL::doubleAcc Dbl;
    static const int order = 2;
    static Vec mk(const VJ& a) { return Vec(k(ref::v0(a)), k(ref::v1(a)), k(ref::v2(a))); }
    static Rot mk(const MJ& a) { return Rot(k(ref::m0(a)), k(ref::omega(a)), k(ref::alpha(a))); }
    static Frm mk(const FJ& a) { return Frm(mk(a.R), mk(a.p)); }
    static Twi mk(const TJ& a) { return Twi(mk(a.vel), mk(a.rot)); }
    static Dbl mk(const Jet& a) { return Dbl(a.x, a.d, a.e); }
    static void get(const Vec& a, double* o) { for (int i = 0; i < 3; i++) { o[i] = a.p(i); o[3 + i] = a.v(i); o[6 + i] = a.dv(i); } }
    static void get(const Dbl& a, double* o) { o[0] = a.t; o[1] = a.d; o[2] = a.dd; }
    static void getR(const Rot& a, double* o) { for (int i = 0; i < 3; i++) { o[i] = a.w(i); o[3 + i] = a.dw(i); } }
};
static const double TOL = 2e-12;
template <class K> void eq(const typename K::Vec& a, const VJ& b, const std::string& key) {
    double x[9], y[9]; K::get(a, x);
    for (int i = 0; i < 3; i++) { y[i] = b[i].x; y[3 + i] = b[i].d; y[6 + i] = K::order > 1 ? b[i].e : 0; }
    mc::nearv(x, y, 9, TOL, key, "value, derivatives");
}
template <class K> void eq(const typename K::Dbl& a, const Jet& b, const std::string& key) {
    double x[3], y[3] = {b.x, b.d, K::order > 1 ? b.e : 0}; K::get(a, x);
    mc::nearv(x, y, 3, TOL, key, "value, derivatives");
}
template <class K> void eq(const typename K::Rot& a, const MJ& b, const std::string& key) {
    nearM(a.R, ref::m0(b), TOL, key, "rotation value");
    double x[6], y[6]; K::getR(a, x); V w = ref::omega(b), al = ref::alpha(b);
    for (int i = 0; i < 3; i++) { y[i] = w[i]; y[3 + i] = K::order > 1 ? al[i] : 0; }
    mc::nearv(x, y, 6, TOL, key, "angular velocity, acceleration");
}
template <class K> void eq(const typename K::Frm& a, const FJ& b, const std::string& key) { eq<K>(a.M, b.R, key); eq<K>(a.p, b.p, key); }
template <class K> void eq(const typename K::Twi& a, const TJ& b, const std::string& key) { eq<K>(a.vel, b.vel, key + ":vel"); eq<K>(a.rot, b.rot, key + ":rot"); }
inline TJ operator*(const MJ& R, const TJ& t) { return {R * t.vel, R * t.rot}; }
inline TJ operator*(const FJ& F, const TJ& t) { TJ r; r.rot = F.R * t.rot; r.vel = F.R * t.vel + ref::cross(F.p, r.rot); return r; }
using ref::inv; using ref::jet;
inline TJ inv(const FJ& F, const TJ& t) { TJ r; MJ T = ref::tr(F.R); r.rot = T * t.rot; r.vel = T * (t.vel - ref::cross(F.p, t.rot)); return r; }
inline TJ jet(const V& a, const V& b) { return {ref::jet(a), ref::jet(b)}; }

// ---- alphabets -------------------------------------------------------------------------------
inline const std::vector<V>& vecs() { static std::vector<V> s = {V(), V(1, 0, 0), V(0.3, -0.7, 0.5), V(-2, 0.4, 1.1), V(0, 0, -1), V(2e-3, -3e-5, 4e-4)}; return s; }
inline const std::vector<M>& rots() { static std::vector<M> s = {M(), ref::rodrigues(V(0.48, 0.6, 0.64), 0.9), ref::rotz(M_PI / 2), ref::rodrigues(V(0.6, 0, -0.8), 2.8)}; return s; }
inline VJ pickV(const char* n, int lim = 5) {
    (void)n; auto& s = vecs();
    V p = s[mc::choose(lim, n)], v = s[mc::choose(3, "velocity")], a = s[mc::choose(3, "acceleration")];
    return curve(p, V(v[1], v[2], v[0]), V(a[2] * 2, a[0] * -1, a[1]));
}
inline MJ pickR(const char* n) {
    M R = mc::pick(rots(), n); V w = vecs()[mc::choose(3, "w")], a = vecs()[mc::choose(3, "dw")];
    return curve(R, w, V(a[1], a[2] * -1.5, a[0]));
}
inline FJ pickF(const char* n) {   // a frame on one of a set of motions
    static const int R[] = {0, 1, 2, 3, 1, 3, 2, 1, 1}, W[] = {0, 2, 1, 3, 0, 2, 4, 1, 5}, D[] = {0, 3, 2, 0, 2, 4, 1, 0, 5}, P[] = {0, 2, 3, 1, 4, 2, 3, 2, 5}, S[] = {0, 3, 2, 0, 1, 2, 4, 3, 5}, A[] = {0, 1, 4, 2, 0, 3, 2, 2, 5};
    int i = mc::choose(9, n); FJ r;
    r.R = curve(rots()[R[i]], vecs()[W[i]], vecs()[D[i]]); r.p = curve(vecs()[P[i]], vecs()[S[i]], vecs()[A[i]]);
    return r;
}
inline Jet pickS(const char* n) { static const Jet s[] = {Jet(0), Jet(1), Jet(-0.4, 0.7, 0.3), Jet(2.5, -1, 4), Jet(0, 1, -2), Jet(3e-3, -2e-4, 1e-3)}; return mc::pick(s, n); }

template <class K> void vectors() {
    typedef typename K::Vec Vec;
    VJ a = pickV("a"), b = pickV("b"); mc::step(20);
    Vec A = K::mk(a), B = K::mk(b); KDL::Vector A0 = k(ref::v0(a)), B0 = k(ref::v0(b)); VJ a0 = ref::jet(ref::v0(a)), b0 = ref::jet(ref::v0(b));
    eq<K>(A, a, "vector constructor");
    eq<K>(A + B, a + b, "vector + vector"); eq<K>(A - B, a - b, "vector - vector");
    eq<K>(A0 + B, a0 + b, "plain + vector"); eq<K>(A0 - B, a0 - b, "plain - vector");
    eq<K>(A + B0, a + b0, "vector + plain"); eq<K>(A - B0, a - b0, "vector - plain");
    eq<K>(-A, -a, "negated vector");
    eq<K>(A * B, ref::cross(a, b), "vector cross vector"); eq<K>(A0 * B, ref::cross(a0, b), "plain cross vector"); eq<K>(A * B0, ref::cross(a, b0), "vector cross plain");
    eq<K>(dot(A, B), ref::dot(a, b), "vector dot vector"); eq<K>(dot(A0, B), ref::dot(a0, b), "plain dot vector"); eq<K>(dot(A, B0), ref::dot(a, b0), "vector dot plain");
    Vec c = A; c += B; eq<K>(c, a + b, "vector +="); c = A; c -= B; eq<K>(c, a - b, "vector -=");
    c = A; c += c; eq<K>(c, a + a, "vector += itself"); c = A; c = c * B; eq<K>(c, ref::cross(a, b), "vector = vector cross");
    c = A; c.ReverseSign(); eq<K>(c, -a, "vector ReverseSign");
    c = A; c = B0; eq<K>(c, b0, "vector = plain"); eq<K>(Vec(A0), a0, "vector from plain"); eq<K>(Vec(), VJ(), "default vector"); eq<K>(Vec::Zero(), VJ(), "zero vector");
    c = A; c = c; eq<K>(c, a, "vector self assignment"); Vec d(A); eq<K>(d, a, "vector copy");
    double x[9]; K::get(A * B, x); mc::state(x, 9);
}
template <class K> void scaled() {
    typedef typename K::Vec Vec; typedef typename K::Twi Twi;
    VJ a = pickV("a"); Jet s = pickS("s"); mc::step(14);
    Vec A = K::mk(a); typename K::Dbl S = K::mk(s); TJ t = {a, VJ(a[1], a[2] * Jet(2), a[0] - a[1])}; Twi T = K::mk(t);
    eq<K>(A * s.x, Jet(s.x) * a, "vector times double"); eq<K>(s.x * A, Jet(s.x) * a, "double times vector");
    eq<K>(S * A, s * a, "scalar times vector"); eq<K>(A * S, s * a, "vector times scalar");
    eq<K>(T * s.x, {Jet(s.x) * t.vel, Jet(s.x) * t.rot}, "twist times double"); eq<K>(s.x * T, {Jet(s.x) * t.vel, Jet(s.x) * t.rot}, "double times twist");
    eq<K>(S * T, {s * t.vel, s * t.rot}, "scalar times twist"); eq<K>(T * S, {s * t.vel, s * t.rot}, "twist times scalar");
    if (s.x != 0) {
        Jet i = ref::inv(s);
        eq<K>(A / s.x, Jet(1 / s.x) * a, "vector by double"); eq<K>(A / S, i * a, "vector by scalar");
        eq<K>(T / s.x, {Jet(1 / s.x) * t.vel, Jet(1 / s.x) * t.rot}, "twist by double"); eq<K>(T / S, {i * t.vel, i * t.rot}, "twist by scalar");
    }
    V p = ref::v0(a);
    if (ref::norm(p) > 0) eq<K>(A.Norm(), ref::norm(a), "norm");
    else { double x[3]; K::get(A.Norm(), x); mc::check(x[0] == 0 && std::isfinite(x[1]) && std::isfinite(x[2]), "norm of a zero vector", "(%g %g %g)", x[0], x[1], x[2]); }
    double x[9]; K::get(S * A, x); mc::state(x, 9);
}
template <class K> void rotations() {
    typedef typename K::Rot Rot; typedef typename K::Twi Twi;
    MJ a = pickR("a"); VJ v = pickV("v", mc::tiered(3, 5)); mc::step(14);
    Rot A = K::mk(a); typename K::Vec X = K::mk(v); KDL::Vector X0 = k(ref::v0(v)); VJ v0 = ref::jet(ref::v0(v)); KDL::Rotation A0 = k(ref::m0(a)); MJ a0 = ref::jet(ref::m0(a));
    TJ t = {v, VJ(v[2] * Jet(-1), v[0] + v[1], v[1] * Jet(3))}, t0 = {ref::jet(ref::v0(t.vel)), ref::jet(ref::v0(t.rot))}; Twi T = K::mk(t); KDL::Twist T0(k(ref::v0(t.vel)), k(ref::v0(t.rot)));
    eq<K>(A, a, "rotation constructor"); eq<K>(Rot(A0), a0, "rotation from plain"); eq<K>(Rot(), MJ(), "default rotation"); eq<K>(Rot::Identity(), MJ(), "identity rotation");
    eq<K>(A * X, a * v, "rotation times vector"); eq<K>(A * X0, a * v0, "rotation times plain vector"); eq<K>(A0 * X, a0 * v, "plain rotation times vector");
    MJ i = ref::tr(a);
    eq<K>(A.Inverse(), i, "rotation inverse"); eq<K>(A.Inverse(X), i * v, "rotation inverse of vector"); eq<K>(A.Inverse(X0), i * v0, "rotation inverse of plain vector");
    eq<K>(A * T, a * t, "rotation times twist"); eq<K>(A * T0, a * t0, "rotation times plain twist"); eq<K>(A.Inverse(T), i * t, "rotation inverse of twist"); eq<K>(A.Inverse(T0), i * t0, "rotation inverse of plain twist");
    Rot c = A; c = A0; eq<K>(c, a0, "rotation = plain"); c = A; c = c.Inverse(); eq<K>(c, i, "rotation = own inverse"); c = A; c = c; eq<K>(c, a, "rotation self assignment");
    double x[9]; K::get(A * X, x); mc::state(x, 9);
}
template <class K> void rotation_pairs() {
    MJ a = pickR("a"), b = pickR("b"); mc::step(4);
    typename K::Rot A = K::mk(a), B = K::mk(b), c = A;
    eq<K>(A * B, a * b, "rotation times rotation"); eq<K>(k(ref::m0(a)) * B, ref::jet(ref::m0(a)) * b, "plain rotation times rotation"); eq<K>(A * k(ref::m0(b)), a * ref::jet(ref::m0(b)), "rotation times plain rotation");
    c = c * B; eq<K>(c, a * b, "rotation = rotation times"); c = A; c = c * c; eq<K>(c, a * a, "rotation squared");
    mc::state((A * B).R.data, 9);
}
template <class K> void frames() {
    typedef typename K::Frm Frm;
    FJ a = pickF("a"), b = pickF("b"); int vi = mc::choose(mc::tiered(4, 5), "vector"); mc::step(20);
    VJ v = curve(vecs()[vi], vecs()[(vi + 2) % 5], vecs()[(vi + 3) % 5]), v0 = ref::jet(ref::v0(v)); Frm A = K::mk(a), B = K::mk(b); KDL::Frame A0 = k(ref::f0(a)), B0 = k(ref::f0(b)); FJ a0 = ref::jet(ref::f0(a)), b0 = ref::jet(ref::f0(b));
    typename K::Vec X = K::mk(v); KDL::Vector X0 = k(ref::v0(v));
    TJ t = {v, b.p + VJ(v[1], v[2], v[0])}, t0 = jet(ref::v0(t.vel), ref::v0(t.rot)); typename K::Twi T = K::mk(t); KDL::Twist T0(k(ref::v0(t.vel)), k(ref::v0(t.rot)));
    eq<K>(A, a, "frame constructor"); eq<K>(Frm(A0), a0, "frame from plain"); eq<K>(Frm::Identity(), FJ(), "identity frame"); eq<K>(Frm(), FJ(), "default frame");
    eq<K>(A * B, a * b, "frame times frame"); eq<K>(A0 * B, a0 * b, "plain frame times frame"); eq<K>(A * B0, a * b0, "frame times plain frame");
    FJ i = ref::inv(a);
    eq<K>(A.Inverse(), i, "frame inverse");
    eq<K>(A * X, a * v, "frame times vector"); eq<K>(A * X0, a * v0, "frame times plain vector"); eq<K>(A.Inverse(X), i * v, "frame inverse of vector"); eq<K>(A.Inverse(X0), i * v0, "frame inverse of plain vector");
    eq<K>(A * T, a * t, "frame times twist"); eq<K>(A * T0, a * t0, "frame times plain twist"); eq<K>(A.Inverse(T), inv(a, t), "frame inverse of twist"); eq<K>(A.Inverse(T0), inv(a, t0), "frame inverse of plain twist");
    Frm c = A; c = c * B; eq<K>(c, a * b, "frame = frame times"); c = A; c = c * c; eq<K>(c, a * a, "frame squared"); c = A; c = c.Inverse(); eq<K>(c, i, "frame = own inverse");
    c = A; c = B0; eq<K>(c, b0, "frame = plain"); c = A; c = c; eq<K>(c, a, "frame self assignment");
    nearF(A.GetFrame(), ref::f0(a), 0, "GetFrame"); nearT(A.GetTwist(), ref::v1(a.p), ref::omega(a.R), TOL, "GetTwist");
    // twists
    TJ u = {a.p, b.p}; typename K::Twi U = K::mk(u), w = T;
    eq<K>(T + U, {t.vel + u.vel, t.rot + u.rot}, "twist + twist"); eq<K>(T - U, {t.vel - u.vel, t.rot - u.rot}, "twist - twist"); eq<K>(-T, {-t.vel, -t.rot}, "negated twist");
    w += U; eq<K>(w, {t.vel + u.vel, t.rot + u.rot}, "twist +="); w = T; w -= U; eq<K>(w, {t.vel - u.vel, t.rot - u.rot}, "twist -="); w = T; w.ReverseSign(); eq<K>(w, {-t.vel, -t.rot}, "twist ReverseSign");
    eq<K>(T.RefPoint(X), {t.vel + ref::cross(t.rot, v), t.rot}, "twist RefPoint"); eq<K>(K::Twi::Zero(), TJ(), "zero twist"); eq<K>(typename K::Twi(), TJ(), "default twist");
    nearT(T.GetTwist(), ref::v0(t.vel), ref::v0(t.rot), 0, "twist value"); nearT(T.GetTwistDot(), ref::v1(t.vel), ref::v1(t.rot), 0, "twist derivative");
    double x[9]; K::get((A * B).p, x); mc::state(x, 9); K::getR((A * B).M, x); mc::state(x, 6, 1);
}
// all sequences of operations on two frame variables
template <class K> void sequences() {
    FJ a = pickF("a"), b = pickF("b"); typename K::Frm A = K::mk(a), B = K::mk(b); KDL::Frame C = KDL::Frame(k(rots()[1]), KDL::Vector(0.2, 0.1, -0.5)); FJ c = ref::jet(f(C));
    int depth = mc::tiered(3, 4);
    for (int n = 0; n < depth; n++) {
        mc::step();
        switch (mc::choose(7, "operation")) {
            case 0: A = A * B; a = a * b; break;
            case 1: A = A.Inverse(); a = ref::inv(a); break;
            case 2: A = B * A; a = b * a; break;
            case 3: std::swap(A, B); std::swap(a, b); break;
            case 4: A = C * A; a = c * a; break;
            case 5: B = B * C; b = b * c; break;
            case 6: A = A * A; a = a * a; break;
        }
        double m = 1; for (int i = 0; i < 3; i++) { m += fabs(a.p[i].e) + fabs(a.p[i].d); } (void)m;
        eq<K>(A.p, a.p, "sequence: origin"); eq<K>(A.M, a.R, "sequence: rotation"); eq<K>(B, b, "sequence: other frame");
        double x[9]; K::get(A.p, x); mc::state(x, 9); K::getR(A.M, x); mc::state(x, 6, 1);
    }
}
}  // namespace annot
