#include "annot.hpp"
using namespace annot;
using KDL::Equal;
SCENARIO_SPLIT(vectors, 4) { annot::vectors<Acc>(); }
SCENARIO_SPLIT(scaled, 2) { annot::scaled<Acc>(); }
SCENARIO_SPLIT(rotations, 3) { annot::rotations<Acc>(); }
SCENARIO_SPLIT(rotation_pairs, 3) { annot::rotation_pairs<Acc>(); }
SCENARIO_SPLIT(frames, 2) { annot::frames<Acc>(); }
SCENARIO_SPLIT(sequences, 2) { annot::sequences<Acc>(); }
SCENARIO_SPLIT(parts, 2) {
    FJ a = pickF("a"), b = pickF("b"); (void)b; mc::step(6);
    KDL::Twist t(k(ref::v1(a.p)), k(ref::omega(a.R))), dt(k(ref::v2(a.p)), k(ref::alpha(a.R)));
    KDL::FrameAcc F(k(ref::f0(a)), t, dt); eq<Acc>(F, a, "frame from frame, twist and acceleration twist");
    nearT(F.GetAccTwist(), ref::v2(a.p), ref::alpha(a.R), TOL, "GetAccTwist");
    KDL::VectorAcc p(k(ref::v0(a.p)), k(ref::v1(a.p))); VJ q = a.p; for (int i = 0; i < 3; i++) q[i].e = 0; eq<Acc>(p, q, "vector from position and velocity");
    // the derivative of the velocity read-out of a product is the acceleration read-out
    KDL::FrameAcc G = F * Acc::mk(b); FJ g = a * b; nearT(G.GetTwist(), ref::v1(g.p), ref::omega(g.R), TOL, "twist of a product"); nearT(G.GetAccTwist(), ref::v2(g.p), ref::alpha(g.R), TOL, "acceleration twist of a product");
    mc::state(G.p.dv.data, 3); mc::state(G.M.dw.data, 3);
}
SCENARIO_SPLIT(comparisons, 2) {
    FJ a = pickF("a"); int c = mc::choose(24, "changed component"); static const double df[] = {0.5e-3, -0.5e-3, 2e-3, -2e-3, 100}; double d = mc::pick(df, "change"), eps = 1e-3; bool same = fabs(d) < eps; mc::step(6);
    auto bump = [&](KDL::FrameAcc& B) { if (c < 9) B.M.R.data[c] += d; else { KDL::Vector* q[] = {&B.M.w, &B.M.dw, &B.p.p, &B.p.v, &B.p.dv}; (*q[(c - 9) / 3])((c - 9) % 3) += d; } };
    KDL::FrameAcc A = Acc::mk(a), B = A; bump(B);
    mc::check(Equal(A, B, eps) == same && Equal(B, A, eps) == same, "Equal of frames", "component %d changed by %g", c, d);
    if (c < 15) mc::check(Equal(A.M, B.M, eps) == same, "Equal of rotations", "component %d changed by %g", c, d); else mc::check(Equal(A.p, B.p, eps) == same, "Equal of vectors", "component %d changed by %g", c, d);
    KDL::Frame F = A.GetFrame(); KDL::FrameAcc Q(F); bump(Q);
    mc::check(Equal(F, Q, eps) == same && Equal(Q, F, eps) == same, "Equal of frame and plain frame", "component %d changed by %g", c, d);
    if (c < 15) mc::check(Equal(F.M, Q.M, eps) == same && Equal(Q.M, F.M, eps) == same, "Equal of rotation and plain rotation", "component %d", c); else mc::check(Equal(F.p, Q.p, eps) == same && Equal(Q.p, F.p, eps) == same, "Equal of vector and plain vector", "component %d", c);
    if (c < 18) {
        auto bt = [&](KDL::TwistAcc& t) { KDL::Vector* q[] = {&t.vel.p, &t.vel.v, &t.vel.dv, &t.rot.p, &t.rot.v, &t.rot.dv}; (*q[c / 3])(c % 3) += d; };
        KDL::TwistAcc s(A.p, Acc::mk(a.R * a.p)), t = s; bt(t); mc::check(Equal(s, t, eps) == same, "Equal of twists", "component %d", c);
    }
    mc::state(mc::fmt("%d %g", c, d));
}
