// C15: chain forward kinematics equals the product of its segments.
#include "kin.hpp"
#include <chainfksolverpos_recursive.hpp>
#include <chainfksolvervel_recursive.hpp>
using namespace kin;

static void all(const Spec& s) {
    KDL::Chain c = chain(s);
    int n = (int)s.size(), N = nj(s);
    KDL::ChainFkSolverPos_recursive fp(c); KDL::ChainFkSolverVel_recursive fv(c);
    double tol = 1e-11;
    for (int p = 0; p < 6; p++) for (int pv = 0; pv < 2; pv++) {
        std::vector<double> q = qpat(N, p), qd = qpat(N, pv && p == 1 ? 5 : pv || p != 2 ? 4 * pv : 1);
        std::vector<Jet> x; for (int i = 0; i < N; i++) x.push_back(Jet(q[i], qd[i]));
        auto want = fk(s, x);
        KDL::JntArray Q = ja(q); KDL::JntArrayVel QV(Q, ja(qd));
        std::vector<KDL::Frame> vp(n); std::vector<KDL::FrameVel> vv(n);
        for (int k = -1; k <= n; k++) {
            int idx = (k < 0 ? n : k) - 1;
            ref::FJ w; if (idx >= 0) w = want[idx];
            KDL::Frame f(KDL::Rotation::RotX(1), KDL::Vector(9, 9, 9)); KDL::FrameVel fw(f, KDL::Twist(KDL::Vector(1, 2, 3), KDL::Vector(4, 5, 6)));
            mc::step(2);
            int rp = fp.JntToCart(Q, f, k), rv = fv.JntToCart(QV, fw, k);
            mc::check(rp == 0 && fp.getError() == 0, "answer of the position solver", "segment %d: %d", k, rp);
            mc::check(rv == 0 && fv.getError() == 0, "answer of the velocity solver", "segment %d: %d", k, rv);
            nearF(f, ref::f0(w), tol, "pose of a segment");
            nearF(fw.GetFrame(), ref::f0(w), tol, "pose from the velocity solver");
            nearT(fw.GetTwist(), ref::v1(w.p), ref::omega(w.R), tol, "velocity of a segment");
            if (idx >= 0) {
                std::vector<KDL::Frame> a(idx + 1, f); std::vector<KDL::FrameVel> b(idx + 1, fw);
                rp = fp.JntToCart(Q, a, k); rv = fv.JntToCart(QV, b, k);
                mc::step(2);
                mc::check(rp == 0, "answer of the position solver for all segments", "segment %d: %d", k, rp);
                mc::check(rv == 0, "answer of the velocity solver for all segments", "segment %d: %d", k, rv);
                for (int i = 0; i <= idx; i++) {
                    nearF(a[i], ref::f0(want[i]), tol, "pose of every segment");
                    nearF(b[i].GetFrame(), ref::f0(want[i]), tol, "pose of every segment from the velocity solver");
                    nearT(b[i].GetTwist(), ref::v1(want[i].p), ref::omega(want[i].R), tol, "velocity of every segment");
                }
            }
            double st[3] = {f.p[0], f.p[1], f.M(1, 2)}; mc::state(st, 3);
        }
        nearQ(Q, q, 0, "argument untouched"); nearQ(QV.q, q, 0, "argument untouched"); nearQ(QV.qdot, qd, 0, "argument untouched");
        // default segment number
        KDL::Frame f; KDL::FrameVel fw;
        mc::check(fp.JntToCart(Q, f) == 0 && fv.JntToCart(QV, fw) == 0, "answer for the whole chain", " ");
        if (n) { nearF(f, ref::f0(want[n - 1]), tol, "pose of the tip"); nearT(fw.GetTwist(), ref::v1(want[n - 1].p), ref::omega(want[n - 1].R), tol, "velocity of the tip"); }
    }
}
SCENARIO(small) {
    int n = mc::choose(mc::tiered(4, 5), "segments");
    all(choose_spec(n, n > 3 ? std::vector<int>{0, 1, 3, 4, 5, 6, 7, 8, 10, 11} : all_kinds()));
}
SCENARIO(large) {
    auto& L = long_shapes();
    Spec s = spec(L[mc::choose((int)L.size(), "shape")]);
    int cut = mc::choose((int)s.size(), "start"); s.erase(s.begin(), s.begin() + cut);
    if (mc::flag("twice")) { Spec t = s; s.insert(s.end(), t.begin(), t.end()); }
    for (size_t i = 0; i < s.size(); i++) s[i].name = mc::fmt("s%zu", i);
    all(s);
}
// what is appended later does not change the prefix, not even in the last bit
SCENARIO_SPLIT(prefix, 3) {
    Spec s = choose_spec(mc::tiered(2, 3), all_kinds());
    int extra = mc::choose(13, "appended kind");
    KDL::Chain a = chain(s), b = chain(s);
    b.addSegment(menu()[extra].make());
    int N = nj(s), M = N + menu()[extra].moves();
    KDL::ChainFkSolverPos_recursive fa(a), fb(b);
    std::vector<double> qa = qpat(N, 2), qb = qpat(M, 2);
    for (double last : {0.0, 5.0}) {
        if (M > N) qb[N] = last;
        KDL::Frame x, y;
        int k = (int)s.size(); mc::step(2);
        mc::check(fa.JntToCart(ja(qa), x, k) == 0 && fb.JntToCart(ja(qb), y, k) == 0, "answer", " ");
        nearF(y, f(x), 1e-14, "pose of a prefix");
        mc::state(&x.p.data[0], 3, extra);
    }
}
