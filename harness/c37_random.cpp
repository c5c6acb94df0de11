// C37: random draws are valid objects whatever the random source returns. rand() is the checker's: every outcome of
// every draw over an alphabet with both ends of its range is explored.
#include "kin.hpp"
#include <frameacc.hpp>
#include <framevel.hpp>
#include <jntarray.hpp>
#include <stiffness.hpp>
#include <stdlib.h>
static int (*source)() = nullptr; static long draws = 0;
extern "C" int rand(void) noexcept { draws++; return source ? source() : 0; }
extern "C" long random(void) noexcept { draws++; return source ? source() : 0; }
using namespace kin;
static const double NAN_ = std::nan("");
typedef std::vector<double> D;
static D flat(const KDL::Vector& v) { return {v(0), v(1), v(2)}; }
static void put(D& a, const D& b) { a.insert(a.end(), b.begin(), b.end()); }
static D flat(const KDL::Twist& t) { D r = flat(t.vel); put(r, flat(t.rot)); return r; }
static D flat(const KDL::Wrench& t) { D r = flat(t.force); put(r, flat(t.torque)); return r; }
static D flat(const KDL::doubleVel& t) { return {t.t, t.grad}; }
static D flat(const KDL::VectorVel& t) { D r = flat(t.p); put(r, flat(t.v)); return r; }
static D flat(const KDL::TwistVel& t) { D r = flat(t.vel); put(r, flat(t.rot)); return r; }
static D flat(const KDL::Stiffness& s) { D r; for (int i = 0; i < 6; i++) r.push_back(s[i]); return r; }
static void proper(const KDL::Rotation& R, const char* at) {
    double m = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { double d = -(i == j); for (int l = 0; l < 3; l++) d += R(i, l) * R(j, l); m = std::max(m, std::isfinite(d) ? std::fabs(d) : 1e300); }
    double det = R(0, 0) * (R(1, 1) * R(2, 2) - R(1, 2) * R(2, 1)) - R(0, 1) * (R(1, 0) * R(2, 2) - R(1, 2) * R(2, 0)) + R(0, 2) * (R(1, 0) * R(2, 1) - R(1, 1) * R(2, 0));
    mc::check(m <= 1e-12, "a random rotation is a rotation", "%s: off by %g", at, m); mc::near(det, 1, 1e-12, "a random rotation is a rotation", at);
}
static void range(const D& x, bool pos, const char* at) {
    for (double v : x) if (pos) mc::check(v > 0 && v <= 1, "positive random coordinates are positive and bounded", "%s: %.17g", at, v); else mc::check(v >= -1 && v <= 1, "random coordinates lie between -1 and 1", "%s: %.17g", at, v);
}
// every coordinate is drawn on its own: from different outcomes come different coordinates, from others other ones
static int nth = 0, lift = 0;
static int distinct() { return (int)((long long)RAND_MAX * ((nth++ * 7) % 31 + 1 + lift) / 40); }
template <class T, class F, class G> static void drawn(const char* name, const T& dirty, F draw, G numbers) {
    source = distinct; nth = 0; lift = 0; long before = draws; T a = dirty; draw(a); D x = numbers(a); nth = 0; lift = 5; T b = dirty; draw(b); D y = numbers(b); bool mine = draws > before; source = nullptr;
    if (!mine) return;   // another source
    for (size_t i = 0; i < x.size(); i++) { mc::check(x[i] != y[i], "every coordinate is drawn", "%s: %zu is %g", name, i, x[i]); for (size_t j = 0; j < i; j++) mc::check(x[i] != x[j], "every coordinate is drawn on its own", "%s: %zu and %zu are %g", name, j, i, x[i]); }
}
static std::vector<int> outcomes; static int nothing() { return RAND_MAX / 3; } static int chosen() { size_t i = draws - 1; return i < outcomes.size() ? outcomes[i] : 0; }
// n draws: all combinations of outcomes
static void choose_outcomes(long n) {
    static const int V[] = {0, RAND_MAX, RAND_MAX / 3, 1, RAND_MAX - 1, RAND_MAX / 2};
    outcomes.clear(); for (long i = 0; i < n; i++) { int k = n > 6 ? (mc::thorough() && i < 8 ? 3 : 2) : n > 3 ? mc::tiered(3, 5) : 6; outcomes.push_back(V[mc::choose(k, "outcome")]); }
}
enum { DOUBLE, VECTOR, TWIST, WRENCH, ROTATION, FRAME, DVEL, VVEL, RVEL, FVEL, TVEL, STIFF, KINDS };
static const char* const NAME[] = {"double", "Vector", "Twist", "Wrench", "Rotation", "Frame", "doubleVel", "VectorVel", "RotationVel", "FrameVel", "TwistVel", "Stiffness"};
SCENARIO(draws_of_every_type) {
    using namespace KDL; int kind = mc::choose(KINDS, "type"); bool pos = mc::choose(2, "positive");
    std::string at = std::string(pos ? "positive " : "") + NAME[kind]; const char* A = at.c_str();
    KDL::Vector nv(NAN_, NAN_, NAN_); KDL::Rotation nr(NAN_, NAN_, NAN_, NAN_, NAN_, NAN_, NAN_, NAN_, NAN_);
    D got; mc::step();
#define DRAW(x) do { auto y = x; source = nothing; draws = 0; if (pos) posrandom(y); else random(y); choose_outcomes(draws); source = chosen; draws = 0; if (pos) posrandom(x); else random(x); source = nullptr; } while (0)
    switch (kind) {
    case DOUBLE: { double x = NAN_; DRAW(x); got = {x}; range(got, pos, A); break; }
    case VECTOR: { KDL::Vector x = nv; DRAW(x); got = flat(x); range(got, pos, A); break; }
    case TWIST: { KDL::Twist x(nv, nv); DRAW(x); got = flat(x); range(got, pos, A); break; }
    case WRENCH: { KDL::Wrench x(nv, nv); DRAW(x); got = flat(x); range(got, pos, A); break; }
    case ROTATION: { KDL::Rotation x = nr; DRAW(x); proper(x, A); got.assign(x.data, x.data + 9); break; }
    case FRAME: { KDL::Frame x(nr, nv); DRAW(x); proper(x.M, A); got = flat(x.p); range(got, pos, A); put(got, D(x.M.data, x.M.data + 9)); break; }
    case DVEL: { KDL::doubleVel x(NAN_, NAN_); DRAW(x); got = flat(x); range(got, pos, A); break; }
    case VVEL: { KDL::VectorVel x(nv, nv); DRAW(x); got = flat(x); range(got, pos, A); break; }
    case RVEL: { KDL::RotationVel x(nr, nv); DRAW(x); proper(x.R, A); got = flat(x.w); range(got, pos, A); put(got, D(x.R.data, x.R.data + 9)); break; }
    case FVEL: { KDL::FrameVel x(KDL::RotationVel(nr, nv), KDL::VectorVel(nv, nv)); DRAW(x); proper(x.M.R, A); got = flat(x.M.w); put(got, flat(x.p)); range(got, pos, A); put(got, D(x.M.R.data, x.M.R.data + 9)); break; }
    case TVEL: { KDL::TwistVel x(KDL::VectorVel(nv, nv), KDL::VectorVel(nv, nv)); DRAW(x); got = flat(x); range(got, pos, A); break; }
    case STIFF: { KDL::Stiffness x(NAN_, NAN_, NAN_, NAN_, NAN_, NAN_); DRAW(x); got = flat(x); range(got, true, A); break; }
    }
    source = nullptr; mc::state(got.data(), got.size(), kind * 2 + pos);
}
SCENARIO(every_coordinate) {
    using namespace KDL; int kind = mc::choose(KINDS, "type"); bool pos = mc::choose(2, "positive"); const char* A = NAME[kind]; mc::step();
    KDL::Vector nv(NAN_, NAN_, NAN_); KDL::Rotation I = KDL::Rotation::Identity();
#define BOTH(dirty, num) drawn(A, dirty, [&](auto& x) { if (pos) posrandom(x); else random(x); }, num)
    auto all = [](const auto& x) { return flat(x); };
    auto turn = [](const KDL::Rotation& R) { double a, b, c; R.GetEulerZYX(a, b, c); return D{a, b, c}; };
    switch (kind) {
    case DOUBLE: BOTH(NAN_, [](double x) { return D{x}; }); break;
    case VECTOR: BOTH(nv, all); break;
    case TWIST: BOTH(KDL::Twist(nv, nv), all); break;
    case WRENCH: BOTH(KDL::Wrench(nv, nv), all); break;
    case ROTATION: BOTH(I, turn); break;
    case FRAME: BOTH(KDL::Frame(I, nv), [&](const KDL::Frame& x) { D r = turn(x.M); put(r, flat(x.p)); return r; }); break;
    case DVEL: BOTH(KDL::doubleVel(NAN_, NAN_), all); break;
    case VVEL: BOTH(KDL::VectorVel(nv, nv), all); break;
    case RVEL: BOTH(KDL::RotationVel(I, nv), [&](const KDL::RotationVel& x) { D r = turn(x.R); put(r, flat(x.w)); return r; }); break;
    case FVEL: BOTH(KDL::FrameVel(KDL::RotationVel(I, nv), KDL::VectorVel(nv, nv)), [&](const KDL::FrameVel& x) { D r = turn(x.M.R); put(r, flat(x.M.w)); put(r, flat(x.p)); return r; }); break;
    case TVEL: BOTH(KDL::TwistVel(KDL::VectorVel(nv, nv), KDL::VectorVel(nv, nv)), all); break;
    case STIFF: BOTH(KDL::Stiffness(NAN_, NAN_, NAN_, NAN_, NAN_, NAN_), all); break;
    }
    mc::state(mc::fmt("%d %d", kind, pos));
}
