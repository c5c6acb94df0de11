#include "annot.hpp"
using namespace annot;
using KDL::diff; using KDL::addDelta; using KDL::Equal;
SCENARIO_SPLIT(vectors, 4) { annot::vectors<Vel>(); }
SCENARIO_SPLIT(scaled, 2) { annot::scaled<Vel>(); }
SCENARIO_SPLIT(rotations, 3) { annot::rotations<Vel>(); }
SCENARIO_SPLIT(rotation_pairs, 3) { annot::rotation_pairs<Vel>(); }
SCENARIO_SPLIT(frames, 2) { annot::frames<Vel>(); }
SCENARIO_SPLIT(sequences, 2) { annot::sequences<Vel>(); }
// rotations about coordinate and arbitrary axes by a changing angle
SCENARIO_SPLIT(elementary, 2) {
    static const double an[] = {0, 0.4, M_PI / 2, -2.1, M_PI, 7}; static const double sp[] = {0, 1, -2.3};
    Jet t(mc::pick(an, "angle"), mc::pick(sp, "speed")); KDL::doubleVel T(t.x, t.d); MJ a = pickR("start"); mc::step(8);
    eq<Vel>(KDL::RotationVel::RotX(T), ref::rotx(t), "RotX"); eq<Vel>(KDL::RotationVel::RotY(T), ref::roty(t), "RotY"); eq<Vel>(KDL::RotationVel::RotZ(T), ref::rotz(t), "RotZ");
    KDL::RotationVel r = Vel::mk(a); r.DoRotX(T); eq<Vel>(r, a * ref::rotx(t), "DoRotX"); r = Vel::mk(a); r.DoRotY(T); eq<Vel>(r, a * ref::roty(t), "DoRotY"); r = Vel::mk(a); r.DoRotZ(T); eq<Vel>(r, a * ref::rotz(t), "DoRotZ");
    static const V ax[] = {V(1, 0, 0), V(0, -3, 0), V(0.48, 0.6, 0.64), V(2, -1, 0.5), V(-1e-3, 2e-3, 5e-4)};
    V x = mc::pick(ax, "axis"); V u = (1 / ref::norm(x)) * x; VJ uj = ref::jet(u);
    eq<Vel>(KDL::RotationVel::Rot(k(x), T), ref::rodrigues(uj, t), "Rot"); eq<Vel>(KDL::RotationVel::Rot2(k(u), T), ref::rodrigues(uj, t), "Rot2");
    KDL::RotationVel z = KDL::RotationVel::Rot(KDL::Vector::Zero(), T);
    nearM(z.R, m(KDL::Rotation::Rot(KDL::Vector::Zero(), t.x)), 0, "Rot about a zero axis has the plain value"); nearV(z.w, V(), 0, "Rot about a zero axis does not turn");
    mc::state(r.R.data, 9);
}
SCENARIO_SPLIT(axes, 3) {
    MJ a = pickR("a"); KDL::RotationVel A = Vel::mk(a); mc::step(3);
    eq<Vel>(A.UnitX(), a * VJ(1, 0, 0), "UnitX"); eq<Vel>(A.UnitY(), a * VJ(0, 1, 0), "UnitY"); eq<Vel>(A.UnitZ(), a * VJ(0, 0, 1), "UnitZ");
    nearM(A.value(), ref::m0(a), 0, "rotation value()"); nearV(A.deriv(), ref::omega(a), TOL, "rotation deriv()"); mc::state(A.R.data, 9);
}
static void same(const KDL::RotationVel& a, const KDL::RotationVel& b, const char* key) { nearM(a.R, m(b.R), 1e-9, key, "rotation"); nearV(a.w, v(b.w), 1e-12, key, "angular velocity"); }
static void same(const KDL::VectorVel& a, const KDL::VectorVel& b, const char* key) { nearV(a.p, v(b.p), 1e-12, key, "value"); nearV(a.v, v(b.v), 1e-12, key, "derivative"); }
SCENARIO_SPLIT(differences, 2) {
    FJ a = pickF("a"), b = pickF("b"); static const double dts[] = {1, 0.01, 3}; double dt = mc::pick(dts, "dt"); mc::step(6);
    KDL::FrameVel A = Vel::mk(a), B = Vel::mk(b);
    KDL::VectorVel d = diff(A.p, B.p, dt); same(addDelta(A.p, d, dt), B.p, "addDelta(diff) of vectors"); nearV(d.p, (1 / dt) * (ref::v0(b.p) - ref::v0(a.p)), 1e-12, "diff of vectors"); nearV(d.v, (1 / dt) * (ref::v1(b.p) - ref::v1(a.p)), 1e-12, "diff of vectors");
    KDL::VectorVel r = diff(A.M, B.M, dt); same(addDelta(A.M, r, dt), B.M, "addDelta(diff) of rotations"); nearV(r.p, v(diff(A.M.R, B.M.R, dt)), 0, "diff of rotations has the plain value");
    KDL::TwistVel t = diff(A, B, dt); KDL::FrameVel C = addDelta(A, t, dt); same(C.M, B.M, "addDelta(diff) of frames"); same(C.p, B.p, "addDelta(diff) of frames");
    KDL::Twist pt = diff(A.GetFrame(), B.GetFrame(), dt); nearT(t.GetTwist(), v(pt.vel), v(pt.rot), 1e-12, "diff of frames has the plain value");
    KDL::doubleVel x(a.p[0].x, a.p[0].d), y(b.p[1].x, b.p[1].d), e = addDelta(x, diff(x, y, dt), dt); mc::near(e.t, y.t, 1e-12, "addDelta(diff) of scalars"); mc::near(e.grad, y.grad, 1e-12, "addDelta(diff) of scalars");
    mc::state(t.vel.p.data, 3); mc::state(t.rot.v.data, 3);
}
// constructors and read-outs from plain parts
SCENARIO_SPLIT(parts, 2) {
    FJ a = pickF("a"), b = pickF("b"); mc::step(6); KDL::Twist t(k(ref::v1(a.p)), k(ref::omega(a.R))), s(k(ref::v0(b.p)), k(ref::v1(b.p)));
    eq<Vel>(KDL::FrameVel(k(ref::f0(a)), t), a, "frame from frame and twist");
    KDL::TwistVel x(s, t); nearT(x.value(), v(s.vel), v(s.rot), 0, "twist value()"); nearT(x.deriv(), v(t.vel), v(t.rot), 0, "twist deriv()"); nearT(x.GetTwist(), v(s.vel), v(s.rot), 0, "twist GetTwist"); nearT(x.GetTwistDot(), v(t.vel), v(t.rot), 0, "twist GetTwistDot");
    KDL::TwistVel y(s); nearT(y.value(), v(s.vel), v(s.rot), 0, "twist from plain"); nearT(y.deriv(), V(), V(), 0, "twist from plain stands still");
    KDL::FrameVel F = Vel::mk(a); nearF(F.value(), ref::f0(a), 0, "frame value()"); nearT(F.deriv(), ref::v1(a.p), ref::omega(a.R), TOL, "frame deriv()");
    KDL::VectorVel p = F.p; nearV(p.value(), ref::v0(a.p), 0, "vector value()"); nearV(p.deriv(), ref::v1(a.p), 0, "vector deriv()");
    SetToZero(p); eq<Vel>(p, VJ(), "vector SetToZero"); SetToZero(x); eq<Vel>(x, TJ(), "twist SetToZero"); mc::state(F.M.R.data, 9);
}
// comparisons see every component of value and derivative, and mixed ones expect no motion
SCENARIO_SPLIT(comparisons, 2) {
    FJ a = pickF("a"); int c = mc::choose(18, "changed component"); static const double df[] = {0.5e-3, -0.5e-3, 2e-3, -2e-3, 100}; double d = mc::pick(df, "change"), eps = 1e-3; bool same = fabs(d) < eps; mc::step(6);
    KDL::FrameVel A = Vel::mk(a), B = A; int at = c;
    if (at < 9) B.M.R.data[at] += d; else if (at < 12) B.M.w(at - 9) += d; else if (at < 15) B.p.p(at - 12) += d; else B.p.v(at - 15) += d;
    mc::check(Equal(A, B, eps) == same && Equal(B, A, eps) == same, "Equal of frames", "component %d changed by %g", c, d);
    if (c < 12) mc::check(Equal(A.M, B.M, eps) == same, "Equal of rotations", "component %d changed by %g", c, d); else mc::check(Equal(A.p, B.p, eps) == same, "Equal of vectors", "component %d changed by %g", c, d);
    KDL::TwistVel s(A.p, Vel::mk(a.R * a.p)), t = s; if (c < 12) { KDL::Vector* q[] = {&t.vel.p, &t.vel.v, &t.rot.p, &t.rot.v}; (*q[c / 3])(c % 3) += d; mc::check(Equal(s, t, eps) == same && Equal(t, s, eps) == same, "Equal of twists", "component %d changed by %g", c, d); }
    KDL::FrameVel P(A.GetFrame()), Q = P; if (at < 9) Q.M.R.data[at] += d; else if (at < 12) Q.M.w(at - 9) += d; else if (at < 15) Q.p.p(at - 12) += d; else Q.p.v(at - 15) += d;
    KDL::Frame F = A.GetFrame();
    mc::check(Equal(F, Q, eps) == same && Equal(Q, F, eps) == same, "Equal of frame and plain frame", "component %d changed by %g", c, d);
    if (c < 12) mc::check(Equal(F.M, Q.M, eps) == same && Equal(Q.M, F.M, eps) == same, "Equal of rotation and plain rotation", "component %d changed by %g", c, d);
    else mc::check(Equal(F.p, Q.p, eps) == same && Equal(Q.p, F.p, eps) == same, "Equal of vector and plain vector", "component %d changed by %g", c, d);
    KDL::Twist ps = s.GetTwist(); KDL::TwistVel pt(ps), pu = pt; if (c < 12) { KDL::Vector* q[] = {&pu.vel.p, &pu.vel.v, &pu.rot.p, &pu.rot.v}; (*q[c / 3])(c % 3) += d; mc::check(Equal(ps, pu, eps) == same && Equal(pu, ps, eps) == same, "Equal of twist and plain twist", "component %d changed by %g", c, d); }
    mc::state(mc::fmt("%d %g", c, d));
}
