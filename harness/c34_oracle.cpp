// The library called directly, for comparison with the Python module: a table of operations, each
// with the Python code and the C++ code, the arguments and results passed as flat lists of doubles.
#include <cstring>
#include <deque>
#include <functional>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <kdl/frames.hpp>
#include <kdl/frames_io.hpp>
#include <kdl/framevel.hpp>
#include <kdl/framevel_io.hpp>
#include <kdl/kinfam_io.hpp>
#include <kdl/chaindynparam.hpp>
#include <kdl/chainfksolverpos_recursive.hpp>
#include <kdl/chainfksolvervel_recursive.hpp>
#include <kdl/chainidsolver_recursive_newton_euler.hpp>
#include <kdl/chainiksolverpos_lma.hpp>
#include <kdl/chainiksolverpos_nr.hpp>
#include <kdl/chainiksolverpos_nr_jl.hpp>
#include <kdl/chainiksolvervel_pinv.hpp>
#include <kdl/chainiksolvervel_pinv_givens.hpp>
#include <kdl/chainiksolvervel_pinv_nso.hpp>
#include <kdl/chainiksolvervel_wdls.hpp>
#include <kdl/chainjnttojacdotsolver.hpp>
#include <kdl/chainjnttojacsolver.hpp>
#include <kdl/tree.hpp>
using namespace KDL;
typedef double D; typedef int I; typedef Vector V; typedef Rotation R; typedef Frame F; typedef Twist T; typedef Wrench W;
typedef doubleVel dV; typedef VectorVel VV; typedef TwistVel TV; typedef RotationVel RV; typedef FrameVel FV;
typedef RotationalInertia RI; typedef RigidBodyInertia RB; typedef Joint J; typedef Segment S; typedef Chain C;
typedef JntArray JA; typedef JntArrayVel JV; typedef Jacobian JC; typedef JntSpaceInertiaMatrix JM;
// the same types, with values that fit the chain given as the first argument
struct QA : JntArray { QA(const JntArray& a) : JntArray(a) {} };
struct QV : JntArrayVel { QV(const JntArrayVel& a) : JntArrayVel(a) {} };
struct U { double v; operator double() const { return v; } };     // a non-zero number
struct N { unsigned v; operator unsigned() const { return v; } }; // a size
struct SI { int v; operator int() const { return v; } };          // a segment number for the chain, -1 included
struct Text { std::string s; };

typedef const double*& P;
template <class X> struct Get;
#define GET(X, ...) template <> struct Get<X> { static X get(P p) __VA_ARGS__ };
template <class X> X take(P p) { return Get<X>::get(p); }
GET(D, { return *p++; })
GET(I, { return (int)*p++; })
GET(U, { return U{*p++}; })
GET(N, { return N{(unsigned)*p++}; })
GET(SI, { return SI{(int)*p++}; })
GET(V, { double x = *p++, y = *p++, z = *p++; return V(x, y, z); })
GET(R, { R r; for (int i = 0; i < 9; i++) r.data[i] = *p++; return r; })
GET(F, { R r = take<R>(p); V v = take<V>(p); return F(r, v); })
GET(T, { V a = take<V>(p), b = take<V>(p); return T(a, b); })
GET(W, { V a = take<V>(p), b = take<V>(p); return W(a, b); })
GET(dV, { double a = *p++, b = *p++; return dV(a, b); })
GET(VV, { V a = take<V>(p), b = take<V>(p); return VV(a, b); })
GET(TV, { VV a = take<VV>(p), b = take<VV>(p); return TV(a, b); })
GET(RV, { R a = take<R>(p); V b = take<V>(p); return RV(a, b); })
GET(FV, { RV a = take<RV>(p); VV b = take<VV>(p); return FV(a, b); })
GET(RI, { RI r; for (int i = 0; i < 9; i++) r.data[i] = *p++; return r; })
GET(RB, { double m = *p++; V c = take<V>(p); double x[6]; for (double& e : x) e = *p++; return RB(m, c, RI(x[0], x[1], x[2], x[3], x[4], x[5])); })
static J joint(P p, const std::string& n) {
    int kind = (int)*p++; J::JointType t = (J::JointType)(int)*p++;
    double x[5]; for (double& e : x) e = *p++;
    V o = take<V>(p), a = take<V>(p);
    switch (kind) {
        case 0: return J(n, t, x[0], x[1], x[2], x[3], x[4]);
        case 1: return J(t, x[0], x[1], x[2], x[3], x[4]);
        case 2: return J(n, o, a, t, x[0], x[1], x[2], x[3], x[4]);
        default: return J(o, a, t, x[0], x[1], x[2], x[3], x[4]);
    }
}
GET(J, { return joint(p, "jn"); })
static S segment(P p, const std::string& n) { J j = joint(p, "j" + n); F f = take<F>(p); RB i = take<RB>(p); return S(n, j, f, i); }
GET(S, { return segment(p, "sg"); })
GET(C, { int n = (int)*p++; C c; for (int i = 0; i < n; i++) c.addSegment(segment(p, "s" + std::to_string(i))); return c; })
GET(JA, { int n = (int)*p++; JA a(n); for (int i = 0; i < n; i++) a(i) = *p++; return a; })
GET(JV, { JA a = take<JA>(p), b = take<JA>(p); return JV(a, b); })
GET(QA, { return take<JA>(p); })
GET(QV, { return take<JV>(p); })
GET(JC, { int n = (int)*p++; JC a(n); for (int i = 0; i < 6; i++) for (int k = 0; k < n; k++) a(i, k) = *p++; return a; })
GET(JM, { int n = (int)*p++; JM a(n); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) a(i, k) = *p++; return a; })
GET(J::JointType, { return (J::JointType)(int)*p++; })

struct Out { std::vector<double> d; std::string s; };
static void put(Out& o, double x) { o.d.push_back(x); }
static void put(Out& o, int x) { o.d.push_back(x); }
static void put(Out& o, unsigned x) { o.d.push_back(x); }
static void put(Out& o, bool x) { o.d.push_back(x); }
static void put(Out& o, const Text& x) { o.s += x.s; }
static void put(Out& o, const std::string& x) { o.s += x; }
static void put(Out& o, const V& x) { for (double e : x.data) put(o, e); }
static void put(Out& o, const R& x) { for (double e : x.data) put(o, e); }
static void put(Out& o, const F& x) { put(o, x.M); put(o, x.p); }
static void put(Out& o, const T& x) { put(o, x.vel); put(o, x.rot); }
static void put(Out& o, const W& x) { put(o, x.force); put(o, x.torque); }
static void put(Out& o, const dV& x) { put(o, x.t); put(o, x.grad); }
static void put(Out& o, const VV& x) { put(o, x.p); put(o, x.v); }
static void put(Out& o, const TV& x) { put(o, x.vel); put(o, x.rot); }
static void put(Out& o, const RV& x) { put(o, x.R); put(o, x.w); }
static void put(Out& o, const FV& x) { put(o, x.M); put(o, x.p); }
static void put(Out& o, const RI& x) { for (double e : x.data) put(o, e); }
static void put(Out& o, const RB& x) { put(o, x.getMass()); put(o, x.getCOG()); put(o, x.getRotationalInertia()); }
static void put(Out& o, const J& x) {
    o.s += x.getName() + "/" + x.getTypeName() + ";";
    put(o, (int)x.getType()); put(o, x.JointAxis()); put(o, x.JointOrigin());
    for (double q : {0.0, 0.7}) put(o, x.pose(q));
    put(o, x.twist(1.3));
}
static void put(Out& o, const S& x) {
    o.s += x.getName() + "|";
    put(o, x.getJoint()); put(o, x.getFrameToTip()); put(o, x.pose(0.3)); put(o, x.twist(0.3, 1.1)); put(o, x.getInertia());
}
static void put(Out& o, const C& x) { put(o, x.getNrOfJoints()); put(o, x.getNrOfSegments()); for (unsigned i = 0; i < x.getNrOfSegments(); i++) put(o, x.getSegment(i)); }
static void put(Out& o, const Tree& x) { put(o, x.getNrOfJoints()); put(o, x.getNrOfSegments()); std::ostringstream s; s << x; o.s += s.str(); }
static void put(Out& o, const JA& x) { put(o, x.rows()); put(o, x.columns()); for (unsigned i = 0; i < x.rows(); i++) put(o, x(i)); }
static void put(Out& o, const JV& x) { put(o, x.q); put(o, x.qdot); }
static void put(Out& o, const JC& x) { put(o, x.rows()); put(o, x.columns()); for (int i = 0; i < 6; i++) for (unsigned k = 0; k < x.columns(); k++) put(o, x(i, k)); }
static void put(Out& o, const JM& x) { put(o, x.rows()); put(o, x.columns()); for (unsigned i = 0; i < x.rows(); i++) for (unsigned k = 0; k < x.columns(); k++) put(o, x(i, k)); }
static void put(Out& o, const Eigen::MatrixXd& x) { for (int i = 0; i < x.rows(); i++) for (int k = 0; k < x.cols(); k++) put(o, x(i, k)); }
static void put(Out& o, const Eigen::VectorXd& x) { for (int i = 0; i < x.rows(); i++) put(o, x(i)); }
template <class A, class B> static void put(Out& o, const std::pair<A, B>& x) { put(o, x.first); put(o, x.second); }
template <class X> Out one(const X& x) { Out o; put(o, x); return o; }
static void putall(Out&) {}
template <class A, class... B> static void putall(Out& o, const A& a, const B&... b) { put(o, a); putall(o, b...); }
template <class... A> Out all(const A&... a) { Out o; putall(o, a...); return o; }
template <class X> Text text(const X& x) { std::ostringstream s; s << x; return Text{s.str()}; }

struct Op { std::string name; std::function<Out(const double*)> f; };
static std::deque<Op>& ops() { static std::deque<Op> o; return o; }
template <class Ret, class... A> struct Reg {
    static void add(const char* n, Ret (*f)(A...)) {
        ops().push_back({n, [f](const double* p) {
            const double* q = p;
            std::tuple<A...> t{take<A>(q)...};
            return conv(std::apply(f, t));
        }});
    }
    static Out conv(const Out& o) { return o; }
    template <class X> static Out conv(const X& x) { return one(x); }
};
template <class Ret, class... A> void reg(const char* n, Ret (*f)(A...)) { Reg<Ret, A...>::add(n, f); }
// E<k>: an expression; X<k>: with different C++ text; M<k>: a statement that changes a; B<k>: blocks that set out
#define E0(e) reg(":" #e, +[]() { return e; });
#define E1(A, e) reg(#A ":" #e, +[](A a) { return e; });
#define E2(A, B_, e) reg(#A "," #B_ ":" #e, +[](A a, B_ b) { return e; });
#define E3(A, B_, C_, e) reg(#A "," #B_ "," #C_ ":" #e, +[](A a, B_ b, C_ c) { return e; });
#define X0(py, e) reg(":" py, +[]() { return e; });
#define X1(A, py, e) reg(#A ":" py, +[](A a) { return e; });
#define X2(A, B_, py, e) reg(#A "," #B_ ":" py, +[](A a, B_ b) { return e; });
#define X3(A, B_, C_, py, e) reg(#A "," #B_ "," #C_ ":" py, +[](A a, B_ b, C_ c) { return e; });
#define X4(A, B_, C_, D_, py, e) reg(#A "," #B_ "," #C_ "," #D_ ":" py, +[](A a, B_ b, C_ c, D_ d) { return e; });
#define M1(A, e) reg(#A "!a:" #e, +[](A a) { e; return a; });
#define M2(A, B_, e) reg(#A "," #B_ "!a:" #e, +[](A a, B_ b) { e; return a; });
#define M3(A, B_, C_, e) reg(#A "," #B_ "," #C_ "!a:" #e, +[](A a, B_ b, C_ c) { e; return a; });
#define MX2(A, B_, py, ...) reg(#A "," #B_ "!a:" py, +[](A a, B_ b) { __VA_ARGS__; return a; });
#define MX3(A, B_, C_, py, ...) reg(#A "," #B_ "," #C_ "!a:" py, +[](A a, B_ b, C_ c) { __VA_ARGS__; return a; });
#define MC3(A, B_, C_, e) reg(#A "," #B_ "," #C_ "!c:" #e, +[](A a, B_ b, C_ c) { e; return c; });
// blocks: py sets out; the C++ body returns an Out
#define B1(A, py, ...) reg(#A "#:" py, +[](A a) -> Out { __VA_ARGS__ });
#define B2(A, B_, py, ...) reg(#A "," #B_ "#:" py, +[](A a, B_ b) -> Out { __VA_ARGS__ });
#define B3(A, B_, C_, py, ...) reg(#A "," #B_ "," #C_ "#:" py, +[](A a, B_ b, C_ c) -> Out { __VA_ARGS__ });
#define B4(A, B_, C_, D_, py, ...) reg(#A "," #B_ "," #C_ "," #D_ "#:" py, +[](A a, B_ b, C_ c, D_ d) -> Out { __VA_ARGS__ });
#define B5(A, B_, C_, D_, E_, py, ...) reg(#A "," #B_ "," #C_ "," #D_ "," #E_ "#:" py, +[](A a, B_ b, C_ c, D_ d, E_ e) -> Out { __VA_ARGS__ });

static void setup_frames() {
    // vectors
    X0("Vector()", V()) X0("Vector.Zero()", V::Zero()) X3(D, D, D, "Vector(a,b,c)", V(a, b, c)) X3(D, D, D, "Vector(x=a,y=b,z=c)", V(a, b, c)) X1(V, "Vector(a)", V(a))
    E1(V, a.x()) E1(V, a.y()) E1(V, a.z()) M2(V, D, a.x(b)) M2(V, D, a.y(b)) M2(V, D, a.z(b))
    X1(V, "a[0]", a(0)) X1(V, "a[1]", a(1)) X1(V, "a[2]", a(2))
    MX2(V, D, "a[0]=b", a(0) = b) MX2(V, D, "a[1]=b", a(1) = b) MX2(V, D, "a[2]=b", a(2) = b)
    X1(V, "repr(a)", text(a)) X1(V, "str(a)", text(a)) M1(V, a.ReverseSign()) M2(V, V, a -= b) M2(V, V, a += b)
    E2(V, V, a + b) E2(V, V, a - b) E2(V, D, a * b) E2(D, V, a * b) E2(V, U, a / b) E2(V, V, a * b) E2(V, V, a == b) E2(V, V, a != b) E1(V, -a)
    E1(V, a.Norm()) E2(V, U, a.Norm(b)) X2(V, U, "a.Norm(eps=b)", a.Norm(b))
    B1(V, "r=a.Normalize(); out=(r,a)", double r = a.Normalize(); return all(r, a);)
    B2(V, U, "r=a.Normalize(b); out=(r,a)", double r = a.Normalize(b); return all(r, a);)
    M1(V, SetToZero(a)) E2(V, V, dot(a, b)) E2(V, V, Equal(a, b)) E3(V, V, U, Equal(a, b, c))
    // wrenches, twists
    X0("Wrench()", W()) X0("Wrench.Zero()", W::Zero()) X2(V, V, "Wrench(a,b)", W(a, b)) X2(V, V, "Wrench(torque=b,force=a)", W(a, b)) X1(W, "Wrench(a)", W(a))
    X0("Twist()", T()) X0("Twist.Zero()", T::Zero()) X2(V, V, "Twist(a,b)", T(a, b)) X2(V, V, "Twist(rot=b,vel=a)", T(a, b)) X1(T, "Twist(a)", T(a))
    E1(W, a.force) E1(W, a.torque) E1(T, a.vel) E1(T, a.rot) M2(W, V, a.force = b) M2(W, V, a.torque = b) M2(T, V, a.vel = b) M2(T, V, a.rot = b)
#define IDX6(X, i) X1(X, "a[" #i "]", a(i)) MX2(X, D, "a[" #i "]=b", a(i) = b)
#define SIX(X) IDX6(X, 0) IDX6(X, 1) IDX6(X, 2) IDX6(X, 3) IDX6(X, 4) IDX6(X, 5) X1(X, "repr(a)", text(a)) M1(X, a.ReverseSign()) E2(X, V, a.RefPoint(b)) \
    M2(X, X, a -= b) M2(X, X, a += b) E2(X, D, a * b) E2(D, X, a * b) E2(X, U, a / b) E2(X, X, a + b) E2(X, X, a - b) E2(X, X, a == b) E2(X, X, a != b) E1(X, -a) \
    M1(X, SetToZero(a)) E2(X, X, Equal(a, b)) E3(X, X, U, Equal(a, b, c)) E2(X, X, diff(a, b)) E3(X, X, U, diff(a, b, c)) E2(X, X, addDelta(a, b)) E3(X, X, U, addDelta(a, b, c))
    SIX(W) SIX(T) E2(T, W, dot(a, b)) E2(W, T, dot(a, b))
    // rotations
    X0("Rotation()", R()) X0("Rotation.Identity()", R::Identity()) X1(R, "Rotation(a)", R(a)) X3(V, V, V, "Rotation(a,b,c)", R(a, b, c)) X3(V, V, V, "Rotation(z=c,x=a,y=b)", R(a, b, c))
    X1(R, "Rotation(a[0,0],a[0,1],a[0,2],a[1,0],a[1,1],a[1,2],a[2,0],a[2,1],a[2,2])", R(a(0, 0), a(0, 1), a(0, 2), a(1, 0), a(1, 1), a(1, 2), a(2, 0), a(2, 1), a(2, 2)))
#define IDXR(i, j) X1(R, "a[" #i "," #j "]", a(i, j)) MX2(R, D, "a[" #i "," #j "]=b", a(i, j) = b)
    IDXR(0, 0) IDXR(0, 1) IDXR(0, 2) IDXR(1, 0) IDXR(1, 1) IDXR(1, 2) IDXR(2, 0) IDXR(2, 1) IDXR(2, 2)
    X1(R, "repr(a)", text(a)) M1(R, a.SetInverse()) E1(R, a.Inverse()) E2(R, V, a.Inverse(b)) E2(R, W, a.Inverse(b)) E2(R, T, a.Inverse(b))
    X1(D, "Rotation.RotX(a)", R::RotX(a)) X1(D, "Rotation.RotY(a)", R::RotY(a)) X1(D, "Rotation.RotZ(a)", R::RotZ(a))
    X2(V, D, "Rotation.Rot(a,b)", R::Rot(a, b)) X2(V, D, "Rotation.Rot2(a,b)", R::Rot2(a, b)) X2(V, D, "Rotation.Rot(angle=b,rotvec=a)", R::Rot(a, b))
    X3(D, D, D, "Rotation.EulerZYZ(a,b,c)", R::EulerZYZ(a, b, c)) X3(D, D, D, "Rotation.RPY(a,b,c)", R::RPY(a, b, c)) X3(D, D, D, "Rotation.EulerZYX(a,b,c)", R::EulerZYX(a, b, c))
    X3(D, D, D, "Rotation.RPY(yaw=c,roll=a,pitch=b)", R::RPY(a, b, c)) X3(D, D, D, "Rotation.EulerZYX(gamma=c,beta=b,alpha=a)", R::EulerZYX(a, b, c)) X3(D, D, D, "Rotation.EulerZYZ(gamma=c,beta=b,alpha=a)", R::EulerZYZ(a, b, c))
    X4(D, D, D, D, "Rotation.Quaternion(a,b,c,d)", R::Quaternion(a, b, c, d)) X4(D, D, D, D, "Rotation.Quaternion(w=d,x=a,y=b,z=c)", R::Quaternion(a, b, c, d))
    M2(R, D, a.DoRotX(b)) M2(R, D, a.DoRotY(b)) M2(R, D, a.DoRotZ(b)) E1(R, a.GetRot())
    B1(R, "out=a.GetRotAngle()", V x; double r = a.GetRotAngle(x); return all(r, x);)
    B2(R, U, "out=a.GetRotAngle(b)", V x; double r = a.GetRotAngle(x, b); return all(r, x);)
    B1(R, "out=a.GetEulerZYZ()", double x, y, z; a.GetEulerZYZ(x, y, z); return all(x, y, z);)
    B1(R, "out=a.GetEulerZYX()", double x, y, z; a.GetEulerZYX(x, y, z); return all(x, y, z);)
    B1(R, "out=a.GetRPY()", double x, y, z; a.GetRPY(x, y, z); return all(x, y, z);)
    B1(R, "out=a.GetQuaternion()", double x, y, z, w; a.GetQuaternion(x, y, z, w); return all(x, y, z, w);)
    E1(R, a.UnitX()) E1(R, a.UnitY()) E1(R, a.UnitZ()) M2(R, V, a.UnitX(b)) M2(R, V, a.UnitY(b)) M2(R, V, a.UnitZ(b))
    E2(R, V, a * b) E2(R, T, a * b) E2(R, W, a * b) E2(R, R, a == b) E2(R, R, a != b) E2(R, R, a * b) E2(R, R, Equal(a, b)) E3(R, R, U, Equal(a, b, c))
    // frames
    X0("Frame()", F()) X0("Frame.Identity()", F::Identity()) X1(F, "Frame(a)", F(a)) X1(R, "Frame(a)", F(a)) X1(V, "Frame(a)", F(a)) X2(R, V, "Frame(a,b)", F(a, b)) X2(R, V, "Frame(V=b,R=a)", F(a, b))
    E1(F, a.M) E1(F, a.p) M2(F, R, a.M = b) M2(F, V, a.p = b)
#define IDXF(i, j) X1(F, "a[" #i "," #j "]", a(i, j)) MX2(F, D, "a[" #i "," #j "]=b", if (j == 3) a.p(i) = b; else a.M(i, j < 3 ? j : 0) = b)
    IDXF(0, 0) IDXF(0, 1) IDXF(0, 2) IDXF(0, 3) IDXF(1, 0) IDXF(1, 1) IDXF(1, 2) IDXF(1, 3) IDXF(2, 0) IDXF(2, 1) IDXF(2, 2) IDXF(2, 3)
    X1(F, "repr(a)", text(a)) X4(D, D, D, D, "Frame.DH_Craig1989(a,b,c,d)", F::DH_Craig1989(a, b, c, d)) X4(D, D, D, D, "Frame.DH(a,b,c,d)", F::DH(a, b, c, d))
    X4(D, D, D, D, "Frame.DH_Craig1989(theta=d,d=c,alpha=b,a=a)", F::DH_Craig1989(a, b, c, d)) X4(D, D, D, D, "Frame.DH(theta=d,d=c,alpha=b,a=a)", F::DH(a, b, c, d))
    E1(F, a.Inverse()) E2(F, V, a.Inverse(b)) E2(F, W, a.Inverse(b)) E2(F, T, a.Inverse(b)) M3(F, T, U, a.Integrate(b, c))
    E2(F, V, a * b) E2(F, W, a * b) E2(F, T, a * b) E2(F, F, a * b) E2(F, F, a == b) E2(F, F, a != b) E2(F, F, Equal(a, b)) E3(F, F, U, Equal(a, b, c))
    E2(V, V, diff(a, b)) E3(V, V, U, diff(a, b, c)) E2(R, R, diff(a, b)) E3(R, R, U, diff(a, b, c)) E2(F, F, diff(a, b)) E3(F, F, U, diff(a, b, c))
    E2(V, V, addDelta(a, b)) E3(V, V, U, addDelta(a, b, c)) E2(R, V, addDelta(a, b)) E3(R, V, U, addDelta(a, b, c)) E2(F, T, addDelta(a, b)) E3(F, T, U, addDelta(a, b, c))
    X3(F, T, U, "addDelta(dt=c,da=b,a=a)", addDelta(a, b, c)) X3(F, F, U, "diff(dt=c,b=b,a=a)", diff(a, b, c))
}
static void setup_vel() {
    X1(D, "doubleVel(a)", dV(a)) X2(D, D, "doubleVel(a,b)", dV(a, b)) X1(dV, "doubleVel(a)", dV(a)) E1(dV, a.t) E1(dV, a.grad) M2(dV, D, a.t = b) M2(dV, D, a.grad = b)
    E1(dV, a.value()) E1(dV, a.deriv()) X1(dV, "repr(a)", text(a)) E2(dV, dV, a == b) E2(dV, dV, a != b) E1(dV, -a)
    E2(dV, dV, diff(a, b)) E3(dV, dV, U, diff(a, b, c)) E2(dV, dV, addDelta(a, b)) E3(dV, dV, U, addDelta(a, b, c)) E2(dV, dV, Equal(a, b)) E3(dV, dV, U, Equal(a, b, c))
    // vectors
    X0("VectorVel()", VV()) X0("VectorVel.Zero()", VV::Zero()) X2(V, V, "VectorVel(a,b)", VV(a, b)) X2(V, V, "VectorVel(v=b,p=a)", VV(a, b)) X1(V, "VectorVel(a)", VV(a)) X1(VV, "VectorVel(a)", VV(a))
    E1(VV, a.p) E1(VV, a.v) M2(VV, V, a.p = b) M2(VV, V, a.v = b) E1(VV, a.value()) E1(VV, a.deriv()) X1(VV, "repr(a)", text(a)) M1(VV, a.ReverseSign()) E1(VV, a.Norm()) E2(VV, U, a.Norm(b))
    M2(VV, VV, a += b) M2(VV, VV, a -= b) E2(VV, VV, a + b) E2(VV, VV, a - b) E2(V, VV, a + b) E2(V, VV, a - b) E2(VV, V, a + b) E2(VV, V, a - b)
    E2(VV, VV, a * b) E2(VV, V, a * b) E2(V, VV, a * b) E2(D, VV, a * b) E2(VV, D, a * b) E2(dV, VV, a * b) E2(VV, dV, a * b) E2(R, VV, a * b) E2(VV, U, a / b)
    reg("VV,dV:a/b", +[](VV a, dV b) { return a / b; });
#define EQ(X, Y) E2(X, X, a == b) E2(X, X, a != b) E2(Y, X, a == b) E2(Y, X, a != b) E2(X, Y, a == b) E2(X, Y, a != b) \
    E2(X, X, Equal(a, b)) E3(X, X, U, Equal(a, b, c)) E2(Y, X, Equal(a, b)) E3(Y, X, U, Equal(a, b, c)) E2(X, Y, Equal(a, b)) E3(X, Y, U, Equal(a, b, c))
    EQ(VV, V) E1(VV, -a) M1(VV, SetToZero(a)) E2(VV, VV, dot(a, b)) E2(VV, V, dot(a, b)) E2(V, VV, dot(a, b))
    // twists
    X0("TwistVel()", TV()) X0("TwistVel.Zero()", TV::Zero()) X2(VV, VV, "TwistVel(a,b)", TV(a, b)) X2(VV, VV, "TwistVel(rot=b,vel=a)", TV(a, b)) X2(T, T, "TwistVel(a,b)", TV(a, b)) X2(T, T, "TwistVel(v=b,p=a)", TV(a, b)) X1(T, "TwistVel(a)", TV(a)) X1(TV, "TwistVel(a)", TV(a))
    E1(TV, a.vel) E1(TV, a.rot) M2(TV, VV, a.vel = b) M2(TV, VV, a.rot = b) E1(TV, a.value()) E1(TV, a.deriv()) X1(TV, "repr(a)", text(a)) M1(TV, a.ReverseSign()) E2(TV, VV, a.RefPoint(b)) E1(TV, a.GetTwist()) E1(TV, a.GetTwistDot())
    M2(TV, TV, a -= b) M2(TV, TV, a += b) E2(TV, D, a * b) E2(D, TV, a * b) E2(TV, U, a / b) E2(TV, dV, a * b) E2(dV, TV, a * b) E2(TV, TV, a + b) E2(TV, TV, a - b) E1(TV, -a) M1(TV, SetToZero(a))
    reg("TV,dV:a/b", +[](TV a, dV b) { return a / b; });
    EQ(TV, T)
    // rotations
    X0("RotationVel()", RV()) X0("RotationVel.Identity()", RV::Identity()) X1(R, "RotationVel(a)", RV(a)) X2(R, V, "RotationVel(a,b)", RV(a, b)) X2(R, V, "RotationVel(w=b,R=a)", RV(a, b)) X1(RV, "RotationVel(a)", RV(a))
    E1(RV, a.R) E1(RV, a.w) M2(RV, R, a.R = b) M2(RV, V, a.w = b) E1(RV, a.value()) E1(RV, a.deriv()) X1(RV, "repr(a)", text(a)) E1(RV, a.UnitX()) E1(RV, a.UnitY()) E1(RV, a.UnitZ())
    E1(RV, a.Inverse()) E2(RV, VV, a.Inverse(b)) E2(RV, V, a.Inverse(b)) E2(RV, TV, a.Inverse(b)) E2(RV, T, a.Inverse(b)) M2(RV, dV, a.DoRotX(b)) M2(RV, dV, a.DoRotY(b)) M2(RV, dV, a.DoRotZ(b))
    X1(dV, "RotationVel.RotX(a)", RV::RotX(a)) X1(dV, "RotationVel.RotY(a)", RV::RotY(a)) X1(dV, "RotationVel.RotZ(a)", RV::RotZ(a)) X2(V, dV, "RotationVel.Rot(a,b)", RV::Rot(a, b)) X2(V, dV, "RotationVel.Rot2(a,b)", RV::Rot2(a, b))
    E2(RV, VV, a * b) E2(RV, V, a * b) E2(RV, TV, a * b) E2(RV, T, a * b) E2(RV, RV, a * b) E2(R, RV, a * b) E2(RV, R, a * b) EQ(RV, R)
    // frames
    X0("FrameVel()", FV()) X0("FrameVel.Identity()", FV::Identity()) X1(F, "FrameVel(a)", FV(a)) X2(F, T, "FrameVel(a,b)", FV(a, b)) X2(F, T, "FrameVel(t=b,T=a)", FV(a, b)) X2(RV, VV, "FrameVel(a,b)", FV(a, b)) X2(RV, VV, "FrameVel(p=b,M=a)", FV(a, b)) X1(FV, "FrameVel(a)", FV(a))
    E1(FV, a.M) E1(FV, a.p) M2(FV, RV, a.M = b) M2(FV, VV, a.p = b) E1(FV, a.value()) E1(FV, a.deriv()) X1(FV, "repr(a)", text(a)) E1(FV, a.Inverse()) E2(FV, VV, a.Inverse(b)) E2(FV, V, a.Inverse(b)) E2(FV, TV, a.Inverse(b)) E2(FV, T, a.Inverse(b))
    E2(FV, VV, a * b) E2(FV, V, a * b) E1(FV, a.GetFrame()) E1(FV, a.GetTwist()) E2(FV, TV, a * b) E2(FV, T, a * b) E2(FV, FV, a * b) E2(F, FV, a * b) E2(FV, F, a * b) EQ(FV, F)
    E2(VV, VV, diff(a, b)) E3(VV, VV, U, diff(a, b, c)) E2(RV, RV, diff(a, b)) E3(RV, RV, U, diff(a, b, c)) E2(FV, FV, diff(a, b)) E3(FV, FV, U, diff(a, b, c))
    E2(VV, VV, addDelta(a, b)) E3(VV, VV, U, addDelta(a, b, c)) E2(RV, VV, addDelta(a, b)) E3(RV, VV, U, addDelta(a, b, c)) E2(FV, TV, addDelta(a, b)) E3(FV, TV, U, addDelta(a, b, c))
}
static void setup_kinfam() {
    typedef J::JointType JT;
    X0("Joint()", J()) X1(J, "Joint(a)", J(a)) X1(J, "a", a)
    X1(JT, "Joint('n')", J("n")) X1(JT, "Joint('n',a)", J("n", a)) X1(JT, "Joint(a)", J(a)) X2(JT, D, "Joint(a,b)", J(a, b)) X2(JT, D, "Joint('n',a,b)", J("n", a, b)) X2(JT, D, "Joint('n',a,offset=b)", J("n", a, 1, b)) X2(JT, D, "Joint(type=a,offset=b)", J(a, 1, b)) X2(JT, D, "Joint(name='n',scale=b,type=a)", J("n", a, b))
    X3(JT, V, V, "Joint('n',b,c,a)", J("n", b, c, a)) X3(JT, V, V, "Joint(b,c,a)", J(b, c, a)) X3(JT, V, V, "Joint(type=a,axis=c,origin=b)", J(b, c, a)) X3(JT, V, V, "Joint(name='n',type=a,axis=c,origin=b,offset=.5)", J("n", b, c, a, 1, .5))
    E2(J, D, a.pose(b)) E2(J, D, a.twist(b)) E1(J, a.JointAxis()) E1(J, a.JointOrigin()) E1(J, a.getName()) X1(J, "a.getType()", (int)a.getType()) E1(J, a.getTypeName()) X1(J, "repr(a)", text(a))
    // inertias
    X0("RotationalInertia()", RI()) X0("RotationalInertia.Zero()", RI::Zero()) X1(RI, "RotationalInertia(a[0],a[4],a[8],a[1],a[2],a[5])", RI(a.data[0], a.data[4], a.data[8], a.data[1], a.data[2], a.data[5]))
    X1(RI, "RotationalInertia(Iyz=a[5],Ixz=a[2],Ixy=a[1],Izz=a[8],Iyy=a[4],Ixx=a[0])", RI(a.data[0], a.data[4], a.data[8], a.data[1], a.data[2], a.data[5])) X1(D, "RotationalInertia(a)", RI(a)) X2(D, D, "RotationalInertia(a,b)", RI(a, b))
#define IDXI(i) X1(RI, "a[" #i "]", a.data[i]) MX2(RI, D, "a[" #i "]=b", a.data[i] = b)
    IDXI(0) IDXI(1) IDXI(2) IDXI(3) IDXI(4) IDXI(5) IDXI(6) IDXI(7) IDXI(8) E2(D, RI, a * b) E2(RI, RI, a + b) E2(RI, V, a * b)
    X0("RigidBodyInertia()", RB()) X0("RigidBodyInertia.Zero()", RB::Zero()) X1(RB, "a", a) X1(D, "RigidBodyInertia(a)", RB(a)) X2(D, V, "RigidBodyInertia(a,b)", RB(a, b)) X3(D, V, RI, "RigidBodyInertia(a,b,c)", RB(a, b, c)) X3(D, V, RI, "RigidBodyInertia(Ic=c,oc=b,m=a)", RB(a, b, c)) X2(D, RI, "RigidBodyInertia(a,Ic=b)", RB(a, V::Zero(), b))
    E2(RB, V, a.RefPoint(b)) E1(RB, a.getMass()) E1(RB, a.getCOG()) E1(RB, a.getRotationalInertia()) E2(D, RB, a * b) E2(RB, RB, a + b) E2(RB, T, a * b) E2(F, RB, a * b) E2(R, RB, a * b)
    // segments
    X0("Segment('n')", S("n")) X0("Segment()", S()) X1(J, "Segment('n',a)", S("n", a)) X1(J, "Segment(a)", S(a)) X2(J, F, "Segment('n',a,b)", S("n", a, b)) X2(J, F, "Segment(a,b)", S(a, b)) X3(J, F, RB, "Segment('n',a,b,c)", S("n", a, b, c)) X3(J, F, RB, "Segment(a,b,c)", S(a, b, c))
    X3(J, F, RB, "Segment(name='n',I=c,f_tip=b,joint=a)", S("n", a, b, c)) X1(F, "Segment(f_tip=a)", S(J(), a)) X1(RB, "Segment('n',I=a)", S("n", J(), F::Identity(), a)) X1(S, "Segment(a)", S(a)) X1(S, "a", a)
    E1(S, a.getFrameToTip()) E2(S, D, a.pose(b)) E3(S, D, D, a.twist(b, c)) E1(S, a.getName()) E1(S, a.getJoint()) E1(S, a.getInertia()) M2(S, RB, a.setInertia(b))
    // chains and trees
    X0("Chain()", C()) X1(C, "a", a) X1(C, "Chain(a)", C(a)) M2(C, S, a.addSegment(b)) M2(C, C, a.addChain(b)) E1(C, a.getNrOfJoints()) E1(C, a.getNrOfSegments()) X1(C, "repr(a)", text(a))
    B1(C, "out=[a.getSegment(i) for i in range(a.getNrOfSegments())]", Out o; for (unsigned i = 0; i < a.getNrOfSegments(); i++) put(o, a.getSegment(i)); return o;)
    B1(C, "c=Chain(a); c.addSegment(Segment('x',Joint(Joint.RotX))); out=(a,c)", C c(a); c.addSegment(S("x", J(J::RotX))); return all(a, c);)
    X0("Tree()", Tree()) X0("Tree('q')", Tree("q")) X0("Tree(root_name='q')", Tree("q"))
    B1(C, "t=Tree('b'); r=t.addChain(a,'b'); n=a.getNrOfSegments(); r2=t.addChain(a,'nohook'); out=(r,r2,t,t.getChain('b','s%d'%(n-1) if n else 'b'),t.getChain('s%d'%(n-1) if n else 'b','b'))",
       Tree t("b"); bool r = t.addChain(a, "b"); int n = a.getNrOfSegments(); bool r2 = t.addChain(a, "nohook"); std::string tip = n ? "s" + std::to_string(n - 1) : "b"; C c, d; t.getChain("b", tip, c); t.getChain(tip, "b", d); return all(r, r2, t, c, d);)
    B2(C, S, "t=Tree('b'); r=[t.addSegment(b,'b'),t.addSegment(b,'b'),t.addSegment(b,'none'),t.addChain(a,'sg')]; out=(r,t,t.getNrOfJoints(),t.getNrOfSegments(),t.getChain('b','sg'),t.getChain('sg','b'))",
       Tree t("b"); bool r = t.addSegment(b, "b"), r2 = t.addSegment(b, "b"), r3 = t.addSegment(b, "none"), r4 = t.addChain(a, "sg"); C c, d; t.getChain("b", "sg", c); t.getChain("sg", "b", d); return all(r, r2, r3, r4, t, t.getNrOfJoints(), t.getNrOfSegments(), c, d);)
    B2(C, S, "t=Tree('b'); t.addSegment(b,'b'); u=Tree('u'); u.addChain(a,'u'); r=t.addTree(u,'sg'); r2=t.addTree(u,'none'); out=(r,r2,t,u)",
       Tree t("b"); t.addSegment(b, "b"); Tree u("u"); u.addChain(a, "u"); bool r = t.addTree(u, "sg"); bool r2 = t.addTree(u, "none"); return all(r, r2, t, u);)
    // Jacobians
    X0("Jacobian()", JC()) X1(N, "Jacobian(a)", JC(a)) X1(N, "Jacobian(nr_columns=a)", JC(a)) X1(JC, "Jacobian(a)", JC(a)) X1(JC, "a", a) E1(JC, a.rows()) E1(JC, a.columns())
    B2(JC, N, "a.resize(b); out=(a.rows(),a.columns())", a.resize(b); return all(a.rows(), a.columns());)
    B1(JC, "out=[a.getColumn(i) for i in range(a.columns())]", Out o; for (unsigned i = 0; i < a.columns(); i++) put(o, a.getColumn(i)); return o;)
    B2(JC, T, "n=a.columns(); [a.setColumn(i,b*(i+1.0)) for i in range(n)]; out=a", for (unsigned i = 0; i < a.columns(); i++) a.setColumn(i, b * (i + 1.0)); return one(a);)
    B2(JC, T, "n=a.columns(); [a.setColumn(index=i,t=b) for i in range(n-1)]; out=a", for (unsigned i = 0; i + 1 < a.columns(); i++) a.setColumn(i, b); return one(a);)
    M2(JC, V, a.changeRefPoint(b)) M2(JC, R, a.changeBase(b)) M2(JC, F, a.changeRefFrame(b)) M1(JC, SetToZero(a)) X1(JC, "repr(a)", text(a))
    B2(JC, D, "for i in range(6):\n  for j in range(a.columns()): a[i,j]=b+a[i,j]*2+i-j*7\nout=a", for (int i = 0; i < 6; i++) for (unsigned j = 0; j < a.columns(); j++) a(i, j) = b + a(i, j) * 2 + i - (int)j * 7; return one(a);)
    B2(JC, V, "d=Jacobian(a.columns()); r=changeRefPoint(a,b,d); out=(r,d)", JC d(a.columns()); bool r = changeRefPoint(a, b, d); return all(r, d);)
    B2(JC, R, "d=Jacobian(a.columns()); r=changeBase(a,b,d); out=(r,d)", JC d(a.columns()); bool r = changeBase(a, b, d); return all(r, d);)
    B2(JC, F, "d=Jacobian(a.columns()); r=changeRefFrame(a,b,d); out=(r,d)", JC d(a.columns()); bool r = changeRefFrame(a, b, d); return all(r, d);)
    B2(JC, V, "d=Jacobian(a.columns()+1); r=changeRefPoint(dest=d,base=b,src=a); out=r", JC d(a.columns() + 1); return one(changeRefPoint(a, b, d));)
    B2(JC, R, "d=Jacobian(a.columns()+1); r=changeBase(dest=d,rot=b,src=a); out=r", JC d(a.columns() + 1); return one(changeBase(a, b, d));)
    B2(JC, F, "d=Jacobian(a.columns()+1); r=changeRefFrame(dest=d,frame=b,src=a); out=r", JC d(a.columns() + 1); return one(changeRefFrame(a, b, d));)
    // joint arrays
    X0("JntArray()", JA()) X1(N, "JntArray(a)", JA(a)) X1(N, "JntArray(size=a)", JA(a)) X1(JA, "JntArray(a)", JA(a)) X1(JA, "a", a) X1(JA, "list(a)", a.data) X1(JA, "repr(a)", text(a))
    B2(JA, N, "a.resize(b); out=(a.rows(),a.columns())", a.resize(b); return all(a.rows(), a.columns());)
    B2(JA, D, "for i in range(a.rows()): a[i]=b-a[i]*3+i\nout=a", for (unsigned i = 0; i < a.rows(); i++) a(i) = b - a(i) * 3 + i; return one(a);)
    B2(JA, D, "s=JntArray(a)\nfor i in range(a.rows()): s[i]=b+i\nd=JntArray(a.rows()); Add(a,s,d); e=JntArray(a.rows()); Subtract(a,s,e); Add(dest=s,src2=s,src1=a); out=(a,d,e,s,a==d,a==a,a!=d)",
       JA s(a); for (unsigned i = 0; i < a.rows(); i++) s(i) = b + i; JA d(a.rows()); Add(a, s, d); JA e(a.rows()); Subtract(a, s, e); Add(a, s, s); return all(a, d, e, s, a == d, a == a, !(a == d));)
    B2(JA, D, "s=JntArray(a)\nfor i in range(a.rows()): s[i]=b+i\nSubtract(src1=a,src2=s,dest=s); out=(a,s,Equal(a,s),Equal(a,s,10.),Equal(src1=s,src2=a,eps=1.),Equal(a,JntArray(a)))",
       JA s(a); for (unsigned i = 0; i < a.rows(); i++) s(i) = b + i; Subtract(a, s, s); return all(a, s, Equal(a, s), Equal(a, s, 10.), Equal(s, a, 1.), Equal(a, JA(a)));)
    B2(JA, U, "d=JntArray(a.rows()); Multiply(a,b,d); e=JntArray(a.rows()); Divide(a,b,e); Multiply(dest=a,factor=b,src=a); out=(d,e,a)", JA d(a.rows()); Multiply(a, b, d); JA e(a.rows()); Divide(a, b, e); Multiply(a, b, a); return all(d, e, a);)
    B1(JC, "s=JntArray(a.columns())\nfor i in range(s.rows()): s[i]=.5*i-1\nt=Twist(Vector(7,7,7),Vector(7,7,7)); MultiplyJacobian(a,s,t); out=(t,a,s)", JA s(a.columns()); for (unsigned i = 0; i < s.rows(); i++) s(i) = .5 * i - 1; T t(V(7, 7, 7), V(7, 7, 7)); MultiplyJacobian(a, s, t); return all(t, a, s);)
    M1(JA, SetToZero(a))
    // with velocities
    X1(N, "JntArrayVel(a)", JV(a)) X1(JA, "JntArrayVel(a,a)", JV(a, a)) X1(JA, "JntArrayVel(a)", JV(a)) X1(JV, "a", a) E1(JV, a.q) E1(JV, a.qdot) E1(JV, a.value()) E1(JV, a.deriv())
    X1(JV, "JntArrayVel(a.q,a.qdot)", JV(a.q, a.qdot)) X1(JV, "JntArrayVel(q_dot=a.qdot,q=a.q)", JV(a.q, a.qdot)) B1(JV, "a.q,a.qdot=JntArray(a.qdot),JntArray(a.q); out=a", std::swap(a.q, a.qdot); return one(a);)
    B2(JV, N, "a.resize(b); out=(a.q.rows(),a.qdot.rows())", a.resize(b); return all(a.q.rows(), a.qdot.rows());)
    B2(JV, D, "n=a.q.rows(); s=JntArrayVel(n)\nfor i in range(n): s.q[i]=b+i; s.qdot[i]=b*2-i\nd=JntArrayVel(n); Add(a,s,d); e=JntArrayVel(n); Subtract(a,s,e); f=JntArrayVel(n); Add(a,s.q,f); g=JntArrayVel(n); Subtract(a,s.q,g); out=(d,e,f,g,a,s,Equal(a,s),Equal(a,s,10.),Equal(a,a))",
       unsigned n = a.q.rows(); JV s(n); for (unsigned i = 0; i < n; i++) { s.q(i) = b + i; s.qdot(i) = b * 2 - i; } JV d(n), e(n), f(n), g(n); Add(a, s, d); Subtract(a, s, e); Add(a, s.q, f); Subtract(a, s.q, g); return all(d, e, f, g, a, s, Equal(a, s), Equal(a, s, 10.), Equal(a, a));)
    B2(JV, U, "n=a.q.rows(); d=JntArrayVel(n); Multiply(a,b,d); e=JntArrayVel(n); Divide(a,b,e); out=(d,e)", unsigned n = a.q.rows(); JV d(n), e(n); Multiply(a, (double)b, d); Divide(a, (double)b, e); return all(d, e);)
    B3(JV, U, D, "n=a.q.rows(); f=doubleVel(b,c); d=JntArrayVel(n); Multiply(a,f,d); e=JntArrayVel(n); Divide(a,f,e); out=(d,e)", unsigned n = a.q.rows(); dV f(b, c); JV d(n), e(n); Multiply(a, f, d); Divide(a, f, e); return all(d, e);)
    M1(JV, SetToZero(a))
    // joint-space inertia
    X0("JntSpaceInertiaMatrix()", JM()) X1(N, "JntSpaceInertiaMatrix(a)", JM((int)a.v)) X1(JM, "JntSpaceInertiaMatrix(a)", JM(a)) X1(JM, "a", a) X1(JM, "repr(a)", text(a)) M1(JM, SetToZero(a))
    B2(JM, N, "a.resize(b); out=(a.rows(),a.columns())", a.resize(b); return all(a.rows(), a.columns());)
    B2(JM, D, "n=a.rows()\nfor i in range(n):\n  for j in range(n): a[i,j]=b+a[i,j]*2+i-j*7\nout=a", int n = a.rows(); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = b + a(i, j) * 2 + i - j * 7; return one(a);)
    B2(JM, U, "n=a.rows(); s=JntSpaceInertiaMatrix(n); Multiply(a,b,s); d=JntSpaceInertiaMatrix(n); Add(a,s,d); e=JntSpaceInertiaMatrix(n); Subtract(a,s,e); f=JntSpaceInertiaMatrix(n); Divide(a,b,f); v=JntArray(n)\nfor i in range(n): v[i]=i-.5\nw=JntArray(n); Multiply(a,v,w); out=(s,d,e,f,v,w,a==s,a==a,Equal(a,s),Equal(a,s,10.),Equal(a,a))",
       int n = a.rows(); JM s(n), d(n), e(n), f(n); Multiply(a, (double)b, s); Add(a, s, d); Subtract(a, s, e); Divide(a, (double)b, f); JA v(n), w(n); for (int i = 0; i < n; i++) v(i) = i - .5; Multiply(a, v, w); return all(s, d, e, f, v, w, a == s, a == a, Equal(a, s), Equal(a, s, 10.), Equal(a, a));)
}
#define REST s.getError(), Text{s.strError(-4)}
static void setup_solvers() {
    // each call twice on one solver, with segment numbers, wrong sizes included
    B3(C, QA, SI, "s=ChainFkSolverPos_recursive(a); f=Frame(); r=s.JntToCart(b,f,c); g=Frame(); q=s.JntToCart(q_in=b,p_out=g); out=(r,f,q,g,s.getError(),s.strError(-4))",
       ChainFkSolverPos_recursive s(a); F f, g; int r = s.JntToCart(b, f, c), q = s.JntToCart(b, g); return all(r, f, q, g, REST);)
    B3(C, QV, SI, "s=ChainFkSolverVel_recursive(chain=a); f=FrameVel(); r=s.JntToCart(b,f,c); g=FrameVel(); q=s.JntToCart(q_in=b,p_out=g); out=(r,f,q,g,s.getError(),s.strError(-4))",
       ChainFkSolverVel_recursive s(a); FV f, g; int r = s.JntToCart(b, f, c), q = s.JntToCart(b, g); return all(r, f, q, g, REST);)
    B3(C, QA, SI, "s=ChainJntToJacSolver(a); j=Jacobian(a.getNrOfJoints()); r=s.JntToJac(b,j,c); k=Jacobian(a.getNrOfJoints()); q=s.JntToJac(jac=k,q_in=b); out=(r,j,q,k,s.getError(),s.strError(-4))",
       ChainJntToJacSolver s(a); JC j(a.getNrOfJoints()), k(a.getNrOfJoints()); int r = s.JntToJac(b, j, c), q = s.JntToJac(b, k); return all(r, j, q, k, REST);)
    B2(C, QA, "n=a.getNrOfJoints(); s=ChainJntToJacSolver(a); l=s.setLockedJoints([i==0 for i in range(n)]); j=Jacobian(n); r=s.JntToJac(b,j); m=s.setLockedJoints([True]*(n+1)); out=(l,r,j,m)",
       int n = a.getNrOfJoints(); ChainJntToJacSolver s(a); std::vector<bool> lk(n); if (n) lk[0] = true; int l = s.setLockedJoints(lk); JC j(n); int r = s.JntToJac(b, j); int m = s.setLockedJoints(std::vector<bool>(n + 1, true)); return all(l, r, j, m);)
    B3(C, QV, SI, "n=a.getNrOfJoints(); s=ChainJntToJacDotSolver(a); out=[]\nfor p in (ChainJntToJacDotSolver.HYBRID,ChainJntToJacDotSolver.BODYFIXED,ChainJntToJacDotSolver.INERTIAL):\n  s.setRepresentation(p); j=Jacobian(n); t=Twist(); out+=[s.JntToJacDot(b,j,c),j,s.JntToJacDot(q_in=b,jac_dot_q_dot=t),t,p]\nout+=[s.getError(),s.strError(-4)]",
       int n = a.getNrOfJoints(); ChainJntToJacDotSolver s(a); Out o; for (int p : {ChainJntToJacDotSolver::HYBRID, ChainJntToJacDotSolver::BODYFIXED, ChainJntToJacDotSolver::INERTIAL}) { s.setRepresentation(p); JC j(n); T t; int r = s.JntToJacDot(b, j, c), q = s.JntToJacDot(b, t); putall(o, r, j, q, t, p); } putall(o, REST); return o;)
    B2(C, QV, "n=a.getNrOfJoints(); s=ChainJntToJacDotSolver(a); out=[s.E_JAC_DOT_FAILED,s.E_JACSOLVER_FAILED,s.E_FKSOLVERPOS_FAILED]\nfor p in (s.setInertialRepresentation,s.setBodyFixedRepresentation,s.setHybridRepresentation):\n  p(); j=Jacobian(n); out+=[s.JntToJacDot(b,j),j]\nl=s.setLockedJoints([i==n-1 for i in range(n)]); j=Jacobian(n); out+=[l,s.JntToJacDot(b,j),j]",
       int n = a.getNrOfJoints(); ChainJntToJacDotSolver s(a); Out o; putall(o, ChainJntToJacDotSolver::E_JAC_DOT_FAILED + 0, ChainJntToJacDotSolver::E_JACSOLVER_FAILED + 0, ChainJntToJacDotSolver::E_FKSOLVERPOS_FAILED + 0);
       for (int p = 0; p < 3; p++) { if (p == 0) s.setInertialRepresentation(); else if (p == 1) s.setBodyFixedRepresentation(); else s.setHybridRepresentation(); JC j(n); int r = s.JntToJacDot(b, j); putall(o, r, j); }
       std::vector<bool> lk(n); if (n) lk[n - 1] = true; int l = s.setLockedJoints(lk); JC j(n); int r = s.JntToJacDot(b, j); putall(o, l, r, j); return o;)
    // inverse velocity
#define IKV(PY, CPP, POST, ...) B3(C, QA, T, "s=" PY "; n=a.getNrOfJoints(); d=JntArray(n); r=s.CartToJnt(b,c,d); e=JntArray(n); q=s.CartToJnt(q_in=b,v_in=c,q_dot_out=e); out=[r,d,q,e,s.getError(),s.strError(-4)" POST "]", \
       CPP; int n = a.getNrOfJoints(); JA d(n), e(n); int r = s.CartToJnt(b, c, d), q = s.CartToJnt(b, c, e); return all(r, d, q, e, REST __VA_ARGS__);)
#define COMMA ,
    IKV("ChainIkSolverVel_pinv(a)", ChainIkSolverVel_pinv s(a), "", ) IKV("ChainIkSolverVel_pinv(a,.3,7)", ChainIkSolverVel_pinv s(a COMMA .3 COMMA 7), "", ) IKV("ChainIkSolverVel_pinv(chain=a,maxiter=7)", ChainIkSolverVel_pinv s(a COMMA 0.00001 COMMA 7), "", )
    IKV("ChainIkSolverVel_pinv_givens(a)", ChainIkSolverVel_pinv_givens s(a), "", )
    IKV("ChainIkSolverVel_pinv_nso(a)", ChainIkSolverVel_pinv_nso s(a), ",s.getAlpha()", , s.getAlpha())
    IKV("ChainIkSolverVel_pinv_nso(a,.2,9,.5)", ChainIkSolverVel_pinv_nso s(a COMMA .2 COMMA 9 COMMA .5), ",s.getAlpha()", , s.getAlpha())
    B3(C, QA, T, "n=a.getNrOfJoints(); s=ChainIkSolverVel_pinv_nso(a); w=JntArray(n); o=JntArray(n)\nfor i in range(n): w[i]=i+.5; o[i]=.1*i-.2\nz=[s.setWeights(w),s.setOptPos(o),s.setAlpha(-.4)]; d=JntArray(n); r=s.CartToJnt(b,c,d); out=z+[r,d,s.getWeights(),s.getOptPos(),s.getAlpha()]",
       int n = a.getNrOfJoints(); ChainIkSolverVel_pinv_nso s(a); JA w(n), o(n); for (int i = 0; i < n; i++) { w(i) = i + .5; o(i) = .1 * i - .2; } int z1 = s.setWeights(w), z2 = s.setOptPos(o), z3 = s.setAlpha(-.4); JA d(n); int r = s.CartToJnt(b, c, d); return all(z1, z2, z3, r, d, s.getWeights(), s.getOptPos(), s.getAlpha());)
#define WS s.getNrZeroSigmas(), s.getSigmaMin(), s.getEps(), s.getLambda(), s.getLambdaScaled(), s.getSVDResult()
    IKV("ChainIkSolverVel_wdls(a)", ChainIkSolverVel_wdls s(a), ",s.getNrZeroSigmas(),s.getSigmaMin(),s.getEps(),s.getLambda(),s.getLambdaScaled(),s.getSVDResult()", , WS)
    B3(C, QA, T, "n=a.getNrOfJoints(); s=ChainIkSolverVel_wdls(a,.1,50); s.setLambda(.3); s.setEps(.4); s.setMaxIter(60); d=JntArray(n); r=s.CartToJnt(b,c,d); out=[r,d,s.getNrZeroSigmas(),s.getSigmaMin(),s.getEps(),s.getLambda(),s.getLambdaScaled(),s.getSVDResult(),s.getError()]",
       int n = a.getNrOfJoints(); ChainIkSolverVel_wdls s(a, .1, 50); s.setLambda(.3); s.setEps(.4); s.setMaxIter(60); JA d(n); int r = s.CartToJnt(b, c, d); return all(r, d, WS, s.getError());)
    // inverse position (what takes an Eigen matrix cannot be called: the installed pybind11 does not work with the installed numpy)
#define IKP(PY, ...) B3(C, QA, QA, "n=a.getNrOfJoints(); fk=ChainFkSolverPos_recursive(a); f=Frame(); x=fk.JntToCart(c,f); v=ChainIkSolverVel_pinv(a); lo=JntArray(n); hi=JntArray(n)\nfor i in range(n): lo[i]=-.6+.1*i; hi[i]=.9-.1*i\ns=" PY "; d=JntArray(n); r=s.CartToJnt(b,f,d); e=JntArray(n); q=s.CartToJnt(q_init=b,p_in=f,q_out=e); out=[x,r,d,q,e,s.getError(),s.strError(-4)]", \
       int n = a.getNrOfJoints(); ChainFkSolverPos_recursive fk(a); F f; int x = fk.JntToCart(c, f); ChainIkSolverVel_pinv v(a); JA lo(n), hi(n); for (int i = 0; i < n; i++) { lo(i) = -.6 + .1 * i; hi(i) = .9 - .1 * i; } __VA_ARGS__; JA d(n), e(n); int r = s.CartToJnt(b, f, d), q = s.CartToJnt(b, f, e); return all(x, r, d, q, e, REST);)
    IKP("ChainIkSolverPos_NR(a,fk,v)", ChainIkSolverPos_NR s(a, fk, v)) IKP("ChainIkSolverPos_NR(a,fk,v,3,1e-3)", ChainIkSolverPos_NR s(a, fk, v, 3, 1e-3)) IKP("ChainIkSolverPos_NR(chain=a,iksolver=v,fksolver=fk,eps=.1)", ChainIkSolverPos_NR s(a, fk, v, 100, .1))
    IKP("ChainIkSolverPos_NR_JL(a,lo,hi,fk,v)", ChainIkSolverPos_NR_JL s(a, lo, hi, fk, v)) IKP("ChainIkSolverPos_NR_JL(a,q_max=hi,q_min=lo,fksolver=fk,iksolver=v,maxiter=4,eps=1e-3)", ChainIkSolverPos_NR_JL s(a, lo, hi, fk, v, 4, 1e-3))
    IKP("ChainIkSolverPos_LMA(a)", ChainIkSolverPos_LMA s(a)) IKP("ChainIkSolverPos_LMA(a,eps=1e-3,maxiter=5,eps_joints=1e-9)", ChainIkSolverPos_LMA s(a, 1e-3, 5, 1e-9)) IKP("ChainIkSolverPos_LMA(chain=a,maxiter=6)", ChainIkSolverPos_LMA s(a, 1e-5, 6))
    // dynamics
    B4(C, QV, V, U, "n=a.getNrOfJoints(); m=a.getNrOfSegments(); s=ChainIdSolver_RNE(a,c); w=[Wrench(Vector(i,1,-d),Vector(.5,d,i)) for i in range(m)]; t=JntArray(n); r=s.CartToJnt(b.q,b.qdot,b.qdot,w,t); u=JntArray(n); q=s.CartToJnt(q=b.q,q_dot=b.qdot,q_dot_dot=b.q,torques=u,f_ext=w+[Wrench()]); out=(r,t,q,s.getError(),s.strError(-4))",
       int n = a.getNrOfJoints(), m = a.getNrOfSegments(); ChainIdSolver_RNE s(a, c); Wrenches w; for (int i = 0; i < m; i++) w.push_back(W(V(i, 1, -d), V(.5, d, i))); JA t(n), u(n); int r = s.CartToJnt(b.q, b.qdot, b.qdot, w, t); w.push_back(W()); int q = s.CartToJnt(b.q, b.qdot, b.q, w, u); return all(r, t, q, REST);)
    B3(C, QV, V, "n=a.getNrOfJoints(); s=ChainDynParam(a,c); t=JntArray(n); g=JntArray(n); m=JntSpaceInertiaMatrix(n); r=[s.JntToCoriolis(b.q,b.qdot,t),s.JntToGravity(b.q,g),s.JntToMass(b.q,m)]; x=s.JntToMass(H=m,q=b.qdot); out=r+[x,t,g,m]",
       int n = a.getNrOfJoints(); ChainDynParam s(a, c); JA t(n), g(n); JM m(n); int r1 = s.JntToCoriolis(b.q, b.qdot, t), r2 = s.JntToGravity(b.q, g), r3 = s.JntToMass(b.q, m), x = s.JntToMass(b.qdot, m); return all(r1, r2, r3, x, t, g, m);)
    // a chain that grows while solvers exist
    B2(C, QA, "s=ChainFkSolverPos_recursive(a); j=ChainJntToJacSolver(a); a.addSegment(Segment('x',Joint(Joint.RotX),Frame(Vector(.1,.2,.3)))); q=JntArray(a.getNrOfJoints())\nfor i in range(b.rows()): q[i]=b[i]\nq[q.rows()-1]=.4\nf=Frame(); k=Jacobian(q.rows()); r=[s.JntToCart(q,f),j.JntToJac(q,k)]; s.updateInternalDataStructures(); j.updateInternalDataStructures(); r+=[s.JntToCart(q,f),j.JntToJac(q,k)]; out=r+[f,k]",
       ChainFkSolverPos_recursive s(a); ChainJntToJacSolver j(a); a.addSegment(S("x", J(J::RotX), F(V(.1, .2, .3)))); JA q(a.getNrOfJoints()); for (unsigned i = 0; i < b.rows(); i++) q(i) = b(i); q(q.rows() - 1) = .4;
       F f; JC k(q.rows()); int r1 = s.JntToCart(q, f), r2 = j.JntToJac(q, k); s.updateInternalDataStructures(); j.updateInternalDataStructures(); int r3 = s.JntToCart(q, f), r4 = j.JntToJac(q, k); return all(r1, r2, r3, r4, f, k);)
}
extern "C" {
int orc_n() {
    if (ops().empty()) { setup_frames(); setup_vel(); setup_kinfam(); setup_solvers(); }
    return (int)ops().size();
}
const char* orc_name(int i) { return ops()[i].name.c_str(); }
static std::string txt;
const char* orc_text() { return txt.c_str(); }
// number of doubles written, -1 when the library throws
int orc_call(int i, const double* in, double* out, int cap) {
    txt.clear();
    try {
        Out o = ops()[i].f(in);
        if ((int)o.d.size() > cap) abort();
        std::copy(o.d.begin(), o.d.end(), out);
        txt = o.s;
        return (int)o.d.size();
    } catch (...) { return -1; }
}
}
