#include "kin.hpp"
#include <sstream>
#include <iomanip>
#include <utilities/error.h>
#include <utilities/error_stack.h>
#include <utilities/utility_io.h>
using namespace kin;
static const double D2R = M_PI / 180;
// one object of any readable type, as its list of components
enum T { VEC, TWIST, WRENCH, ROT, FRAME, VEC2, ROT2, FRAME2, NT };
static const char* TN[NT] = {"vector", "twist", "wrench", "rotation", "frame", "planar vector", "planar rotation", "planar frame"};
typedef std::vector<double> C;
static void add(C& o, const V& a) { for (int i = 0; i < 3; i++) o.push_back(a[i]); }
static void add(C& o, const M& a) { for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) o.push_back(a[i][j]); }
static C rd(std::istream& is, int t) {
    C o;
    switch (t) {
        case VEC: { KDL::Vector a(9, 9, 9); is >> a; add(o, v(a)); break; }
        case TWIST: { KDL::Twist a; is >> a; add(o, v(a.vel)); add(o, v(a.rot)); break; }
        case WRENCH: { KDL::Wrench a; is >> a; add(o, v(a.force)); add(o, v(a.torque)); break; }
        case ROT: { KDL::Rotation a; is >> a; add(o, m(a)); break; }
        case FRAME: { KDL::Frame a; is >> a; add(o, m(a.M)); add(o, v(a.p)); break; }
        case VEC2: { KDL::Vector2 a; is >> a; o = {a(0), a(1)}; break; }
        case ROT2: { KDL::Rotation2 a(1.234); is >> a; o = {std::cos(a.GetRot()), std::sin(a.GetRot())}; break; }
        case FRAME2: { KDL::Frame2 a; is >> a; o = {std::cos(a.M.GetRot()), std::sin(a.M.GetRot()), a.p(0), a.p(1)}; break; }
    }
    return o;
}
struct Text { int t; std::string s; C want; };
static void cmp(const C& got, const C& want, double tol, const std::string& key, const std::string& s) {
    double d = got.size() == want.size() ? 0 : 1e300; for (size_t i = 0; i < want.size() && i < got.size(); i++) if (!(fabs(got[i] - want[i]) <= d)) d = fabs(got[i] - want[i]);
    mc::check(d <= tol, key, "text \"%s\" read with error %g", s.c_str(), d);
}
static const double VAL[] = {0, 1, -2.5, 1e-9, 12345.678901234567, -0.1, 3.0e17, 1.0 / 3};
static V vec(int i) { return V(VAL[i % 8], VAL[(i + 3) % 8], VAL[(i * 5 + 6) % 8]); }
static std::vector<M> rots() { return {M(), ref::rodrigues(V(0.48, 0.6, 0.64), 0.9), ref::rotx(M_PI), ref::rodrigues(V(0.6, 0, -0.8), -2.2), ref::rotz(M_PI / 2)}; }
static Text object(int t, int i, int prec) {
    std::ostringstream os; os << std::setprecision(prec); Text x; x.t = t; M R = rots()[i % 5]; V a = vec(i), b = vec(i + 2); double an = (i - 3) * 0.77;
    switch (t) {
        case VEC: os << k(a); add(x.want, a); break;
        case TWIST: os << KDL::Twist(k(a), k(b)); add(x.want, a); add(x.want, b); break;
        case WRENCH: os << KDL::Wrench(k(a), k(b)); add(x.want, a); add(x.want, b); break;
        case ROT: os << k(R); add(x.want, R); break;
        case FRAME: os << KDL::Frame(k(R), k(a)); add(x.want, R); add(x.want, a); break;
        case VEC2: os << KDL::Vector2(a[0], a[1]); x.want = {a[0], a[1]}; break;
        case ROT2: os << KDL::Rotation2(an); x.want = {std::cos(an), std::sin(an)}; break;
        case FRAME2: os << KDL::Frame2(KDL::Rotation2(an), KDL::Vector2(a[0], a[1])); x.want = {std::cos(an), std::sin(an), a[0], a[1]}; break;
    }
    x.s = os.str(); return x;
}
// printed with full precision and read again, several objects after each other in one stream
SCENARIO_SPLIT(round_trip, 3) {
    int n = mc::tiered(3, 3); std::string s; std::vector<Text> x; int pool = mc::tiered(3, 5); static const char* sep[] = {"", " ", "\n\t "};
    for (int i = 0; i < n; i++) { int t = mc::choose(NT, "type"); x.push_back(object(t, mc::choose(i ? pool - 1 : 8, "object") + i, 17)); s += x.back().s; if (i + 1 < n) s += sep[mc::choose(i == 0 ? 3 : 2, "separator")]; }
    bool tail = mc::flag("text behind"); if (tail) s += "TAIL";
    std::istringstream is(s); mc::step(n);
    try {
        for (auto& y : x) { C g = rd(is, y.t); double m = 1; for (double w : y.want) m = std::max(m, fabs(w)); mc::check(!is.fail(), std::string("stream is good after reading a printed ") + TN[y.t], "text \"%s\"", s.c_str()); cmp(g, y.want, 4e-16 * m, std::string("printed object is read back: ") + TN[y.t], y.s); }
        std::string rest; std::getline(is, rest); mc::check(rest == (tail ? "TAIL" : ""), "stream is left right behind the object", "left \"%s\" of \"%s\"", rest.c_str(), s.c_str());
    } catch (KDL::Error& e) { mc::fail("printed object is refused", "\"%s\" for \"%s\"", e.Description(), s.c_str()); }
    mc::state(s);
}
// at default precision the components agree to the printed digits
SCENARIO_SPLIT(short_print, 1) {
    int t = mc::choose(NT, "type"); Text x = object(t, mc::choose(8, "object"), 6); std::istringstream is(x.s); mc::step();
    try { C g = rd(is, t); double m = 1; for (double w : x.want) m = std::max(m, fabs(w)); cmp(g, x.want, 6e-6 * m, std::string("shortly printed object: ") + TN[t], x.s); }
    catch (KDL::Error& e) { mc::fail("printed object is refused", "\"%s\" for \"%s\"", e.Description(), x.s.c_str()); }
    mc::state(x.s);
}
// the documented notations, as token lists
struct Note { int t; std::vector<std::string> tok; C want; };
static const std::vector<Note>& notes() {
    static std::vector<Note> n; if (!n.empty()) return n;
    auto R = [](const M& a) { C o; add(o, a); return o; };
    auto F = [](const M& a, const V& p) { C o; add(o, a); add(o, p); return o; };
    n.push_back({VEC, {"[", "10", ",", "-20.5", ",", "3e1", "]"}, {10, -20.5, 30}});
    n.push_back({VEC, {"Zero"}, {0, 0, 0}});
    n.push_back({TWIST, {"[", "1", ",", "2", ",", "3", ",", "4", ",", "5", ",", "6", "]"}, {1, 2, 3, 4, 5, 6}});
    n.push_back({WRENCH, {"[", "1", ",", "-2", ",", "3", ",", "4", ",", "5", ",", "6", "]"}, {1, -2, 3, 4, 5, 6}});
    n.push_back({ROT, {"[", "1", ",", "0", ",", "0", ";", "0", ",", "0", ",", "-1", ";", "0", ",", "1", ",", "0", "]"}, {1, 0, 0, 0, 0, -1, 0, 1, 0}});
    n.push_back({ROT, {"Eulerzyx", "[", "10", ",", "20", ",", "30", "]"}, R(ref::rotz(10 * D2R) * ref::roty(20 * D2R) * ref::rotx(30 * D2R))});
    n.push_back({ROT, {"EulerZYZ", "[", "10", ",", "20", ",", "30", "]"}, R(ref::rotz(10 * D2R) * ref::roty(20 * D2R) * ref::rotz(30 * D2R))});
    n.push_back({ROT, {"RPY", "[", "10", ",", "20", ",", "30", "]"}, R(ref::rotz(30 * D2R) * ref::roty(20 * D2R) * ref::rotx(10 * D2R))});
    n.push_back({ROT, {"Rot", "[", "1", ",", "2", ",", "2", "]", "[", "20", "]"}, R(ref::rodrigues(V(1.0 / 3, 2.0 / 3, 2.0 / 3), 20 * D2R))});
    n.push_back({ROT, {"identity"}, R(M())});
    n.push_back({ROT, {"RPY", " ", "Zero"}, R(M())});
    n.push_back({FRAME, {"[", "[", "1", ",", "0", ",", "0", ";", "0", ",", "1", ",", "0", ";", "0", ",", "0", ",", "1", "]", "[", "1", ",", "2", ",", "3", "]", "]"}, F(M(), V(1, 2, 3))});
    n.push_back({FRAME, {"[", "Identity", " ", "Zero", "]"}, F(M(), V())});
    n.push_back({FRAME, {"[", "rpy", "[", "90", ",", "0", ",", "0", "]", "[", "1", ",", "2", ",", "3", "]", "]"}, F(ref::rotx(M_PI / 2), V(1, 2, 3))});
    Fr dh; dh.R = ref::rotz(30 * D2R) * ref::rotx(10 * D2R); dh.p = V(10 * std::cos(30 * D2R), 10 * std::sin(30 * D2R), 50);
    n.push_back({FRAME, {"DH", "[", "10", ",", "10", ",", "50", ",", "30", "]"}, F(dh.R, dh.p)});
    n.push_back({VEC2, {"[", "1.5", ",", "-2", "]"}, {1.5, -2}});
    n.push_back({ROT2, {"[", "30", "]"}, {std::cos(30 * D2R), 0.5}});
    n.push_back({FRAME2, {"[", "-90", "]", "[", "3", ",", "4", "]"}, {std::cos(-90 * D2R), -1, 3, 4}});
    return n;
}
static std::string plain(const Note& n) { std::string s; for (auto& t : n.tok) s += t; return s; }
static void good(const Note& n, const std::string& s, const char* rest, const char* what) {
    std::istringstream is(s); mc::step();
    try {
        C g = rd(is, n.t); mc::check(!is.fail(), std::string("stream is good after ") + what, "text \"%s\"", s.c_str()); cmp(g, n.want, 1e-12, std::string("notation is read: ") + what + ": " + TN[n.t], s);
        std::string w; is >> w; mc::check(w == rest, std::string("stream is left behind ") + what, "left \"%s\" of \"%s\"", w.c_str(), s.c_str());
    } catch (KDL::Error& e) { mc::fail(std::string("notation is refused: ") + what + ": " + TN[n.t], "\"%s\" for \"%s\"", e.Description(), s.c_str()); }
    mc::state(s);
}
// spaces, newlines and comments of all three styles at every gap, keywords in any case, followed by anything or nothing
SCENARIO_SPLIT(notations, 2) {
    const Note& n = notes()[mc::choose((int)notes().size(), "notation")]; int gap = mc::choose((int)n.tok.size() + 1, "gap");
    static const char* fill[] = {"", " ", "\n", "\t", " \n\t ", "/* c */", " /**/ ", "// c ]\n", "# 1,[\n", "/*a*/ /*b*/", "/*a*//*b*/", "#x\n#y\n", "/* * / */", "//\n//\n", "/***/"};
    std::string f = mc::pick(fill, "filler"); int letters = mc::choose(3, "case"); static const char* after[] = {"", " ", "\n", " NEXT", "\nNEXT", " [7,7]", "/*c*/ NEXT"}; std::string tail = mc::pick(after, "followed by");
    std::string s; for (size_t i = 0; i < n.tok.size(); i++) { if ((int)i == gap) s += f; std::string t = n.tok[i]; if (letters) for (char& ch : t) ch = letters == 1 ? (char)toupper(ch) : (char)tolower(ch); s += t; }
    if (gap == (int)n.tok.size()) { if (f.find_first_of("/#") != std::string::npos) return; s += f; }
    bool word = n.tok.back() != "]"; bool comment = tail[0] == '/'; if (comment && !word) return;   // what follows a bracket is not looked at
    std::string rest = tail.find("NEXT") != std::string::npos ? "NEXT" : tail.find('[') != std::string::npos ? "[7,7]" : "";
    good(n, s + tail, rest.c_str(), tail.empty() ? "text at the end" : "text followed by more");
}
// ---- malformed texts -------------------------------------------------------------------------
static void bad(int t, const std::string& s, const char* what) {
    std::istringstream is(s); mc::step(); std::string shown; for (char ch : s) shown += isprint((unsigned char)ch) ? std::string(1, ch) : mc::fmt("\\x%02x", (unsigned char)ch);
    try { rd(is, t); }
    catch (KDL::Error_IO& e) {
        const char* d = e.Description(); mc::check(d && *d, "exception has a description", "%s", what);
        std::ostringstream os; KDL::IOTraceOutput(os); mc::check(!os.str().empty(), "error trace is available after a refusal", "text \"%s\"", shown.c_str());
    } catch (KDL::Error& e) { mc::fail("refusal is an I/O error", "\"%s\" for \"%s\"", e.Description(), shown.c_str()); }
    catch (std::exception& e) { mc::fail("refusal is the documented exception", "%s for \"%s\"", e.what(), shown.c_str()); }
    // reading goes on working
    std::istringstream ok("[1,2,3]"); KDL::Vector a; try { ok >> a; mc::check(a == KDL::Vector(1, 2, 3), "next text is read after a refusal", "%s", shown.c_str()); } catch (...) { mc::fail("next text is read after a refusal", "%s", shown.c_str()); }
    mc::state(mc::fmt("%d ", t) + s);
}
// every truncation and every single-character change, insertion and deletion of every notation
SCENARIO_SPLIT(damaged, 2) {
    const Note& n = notes()[mc::choose((int)notes().size(), "notation")]; std::string s = plain(n); int at = mc::choose((int)s.size() + 1, "place"); static const char repl[] = "[],;1-.eEzZ/#* \n\0\xff\r+";
    int op = mc::choose(4, "damage"); std::string d = s;
    if (op == 0) d = s.substr(0, at); else if (op == 1) { if (at == (int)s.size()) return; d.erase(at, 1); }
    else { char ch = repl[mc::choose(20, "character")]; if (op == 2) d.insert(at, 1, ch); else { if (at == (int)s.size()) return; d[at] = ch; } }
    bad(n.t, d, "damaged text");
}
// all short token strings for every reader
SCENARIO_SPLIT(tokens, 3) {
    static const std::string tok[] = {"[", "]", ",", "1", "-2.5e3", "ZERO", "IDENTITY", "RPY", "ROT", "DH", ";", " ", "\n", "/*c*/", "//c\n", "/", "/*", "#c", "x", "1e999", "ABCDEFGH", "ABCDEFGHI", "ABCDEFGHIJ", "ABCDEFGHIJK", "EULERZYXQ", std::string(100, 'A'), std::string(1, '\0'), "\xff"};
    int t = mc::choose(NT, "type"), n = 1 + mc::choose(mc::tiered(3, 4), "tokens"); std::string s; for (int i = 0; i < n; i++) s += tok[mc::choose(n < 4 ? 28 : 16, "token")];
    bad(t, s, "token string");
}
// words up to and beyond the buffer, for the word reader itself with every buffer size
SCENARIO_SPLIT(words, 1) {
    int size = 1 + mc::choose(12, "buffer size"), len = mc::choose(16, "word length"); static const char* end[] = {"[", " [", "", "\n", "/*c*/[", "]", "["}; std::string e = mc::pick(end, "end"); mc::step();
    std::string w; for (int i = 0; i < len; i++) w += (char)('a' + i); std::istringstream is(w + e); std::vector<char> buf(size + 1, 0x7f); char* heap = (char*)malloc(size); memset(heap, 0x7f, size);
    bool threw = false; int type = 0;
    try { KDL::EatWord(is, "[]", heap, size); } catch (KDL::Error_IO& x) { threw = true; type = x.GetType(); }
    if (len > size - 1) mc::check(threw, "over-long word is refused", "length %d, buffer %d", len, size);
    else if (len > 0) { mc::check(!threw, "word that fits is read", "length %d, buffer %d, error %d", len, size, type); std::string up = w; for (char& ch : up) ch = (char)toupper(ch); if (!threw) mc::check(up == heap, "word is stored in capitals", "length %d", len); }
    free(heap); (void)type; mc::state(w + e);
}
// the trace may be emptied at any time
SCENARIO_SPLIT(trace, 1) {
    std::ostringstream os; KDL::IOTraceOutput(os); std::vector<std::string> st; int n = mc::tiered(4, 6);
    for (int i = 0; i < n; i++) {
        mc::step();
        switch (mc::choose(4, "operation")) {
            case 0: { std::string s = mc::fmt("level %d", i); KDL::IOTrace(s); st.push_back(s); break; }
            case 1: KDL::IOTracePop(); if (!st.empty()) st.pop_back(); break;
            case 2: { int z = 1 + 4 * mc::choose(3, "buffer"); char* b = (char*)malloc(z); KDL::IOTracePopStr(b, z); std::string w = st.empty() ? "" : st.back().substr(0, z - 1); if (!st.empty()) st.pop_back(); mc::check(w == b, "popped trace text", "\"%s\" instead of \"%s\"", b, w.c_str()); free(b); break; }
            case 3: { std::ostringstream o; KDL::IOTraceOutput(o); std::string w; while (!st.empty()) { w += st.back() + "\n"; st.pop_back(); } mc::check(o.str() == w, "trace output", "\"%s\" instead of \"%s\"", o.str().c_str(), w.c_str()); break; }
        }
        std::string k; for (auto& s : st) k += s + ";"; mc::state(k);
    }
    KDL::IOTraceOutput(os);
}
// an expected wording: letters in any case, at least one space or comment for every space of the wording, nothing where it has none
SCENARIO_SPLIT(wordings, 3) {
    static const char* L[] = {"A", "b", "z"}; static const char* TX[] = {"a", "A", "B", "Z", " ", "\n", "\t", "/*c*/", "// a\n", "#b\n"}; std::string d, s; std::vector<std::string> tok;
    int nd = mc::choose(mc::tiered(4, 5), "wording length"), nt = mc::choose(mc::tiered(4, 6), "text length"); bool space = true;
    for (int i = 0; i < nd; i++) { int c = mc::choose(space ? 3 : 4, "wording"); space = c == 3; d += space ? " " : L[c]; }
    for (int i = 0; i < nt; i++) { tok.push_back(TX[mc::choose(i < 3 ? 10 : 6, "text")]); s += tok.back(); }
    auto filler = [&](size_t i) { return i < tok.size() && !isalpha((unsigned char)tok[i][0]); }; size_t at = 0; while (filler(at)) at++; int want = 0;
    for (char ch : d) {
        if (ch == ' ') { if (!filler(at)) { want = 1; break; } while (filler(at)) at++; }
        else { if (at >= tok.size() || filler(at) || toupper(tok[at][0]) != toupper(ch)) { want = 2; break; } at++; }
    }
    std::istringstream is(s); mc::step(); std::string shown; for (char ch : s) shown += ch == '\n' ? std::string("\\n") : std::string(1, ch); int got = 0;
    try { KDL::Eat(is, d.c_str()); } catch (KDL::Error_IO& e) { got = 1; mc::check(e.Description() && *e.Description(), "exception has a description", "wording \"%s\"", d.c_str()); }
    catch (KDL::Error& e) { mc::fail("refusal is an I/O error", "\"%s\" for \"%s\"", e.Description(), shown.c_str()); return; }
    mc::check((got != 0) == (want != 0), "an expected wording is taken, any other refused", "wording \"%s\", text \"%s\": %s", d.c_str(), shown.c_str(), got ? "refused" : "taken");
    if (!got && !want) { std::string rest, w; is.clear(); std::getline(is, rest, '\0'); for (size_t i = at; i < tok.size(); i++) w += tok[i]; mc::check(rest == w, "stream is left right behind the wording", "wording \"%s\", text \"%s\"", d.c_str(), shown.c_str()); }
    mc::state(d + "|" + s);
}
// every error says what it is, and no two of them the same
template <class E, class... A> static void told(std::map<int, std::string>& seen, bool io, A... a) {
    try { throw E(a...); } catch (KDL::Error& e) {
        mc::step(); const char* d = e.Description(); int t = e.GetType(); mc::check(d && *d, "exception has a description", "type %d", t); mc::check(t > 0, "exception has a type", "%d", t);
        bool fresh = !seen.count(t); mc::check(fresh, "errors of different kinds have different types", "%d: %s", t, d ? d : ""); seen[t] = d ? d : "";
        mc::check((dynamic_cast<KDL::Error_IO*>(&e) != nullptr) == io, "an error belongs to its family", "type %d", t); mc::state(seen[t]);
    }
}
SCENARIO(error_kinds) {
    using namespace KDL; std::map<int, std::string> s;
    told<Error_BasicIO_File>(s, true); told<Error_BasicIO_Exp_Delim>(s, true); told<Error_BasicIO_Not_A_Space>(s, true); told<Error_BasicIO_Unexpected>(s, true); told<Error_BasicIO_ToBig>(s, true); told<Error_BasicIO_Not_Opened>(s, true);
    told<Error_Frame_Vector_Unexpected_id>(s, true); told<Error_Frame_Frame_Unexpected_id>(s, true); told<Error_Frame_Rotation_Unexpected_id>(s, true); told<Error_Redundancy_Illegal_Resolutiontype>(s, true);
    told<Error_Chain_Unexpected_id>(s, false); told<Error_Redundancy_Unavoidable>(s, false); told<Error_MotionIO_Unexpected_MotProf>(s, false); told<Error_MotionIO_Unexpected_Traj>(s, false);
    told<Error_MotionPlanning_Circle_ToSmall>(s, false); told<Error_MotionPlanning_Circle_No_Plane>(s, false); told<Error_MotionPlanning_Incompatible>(s, false); told<Error_MotionPlanning_Not_Applicable>(s, false);
    told<Error_Stepsize_Underflow>(s, false); told<Error_To_Many_Steps>(s, false); told<Error_Stepsize_To_Small>(s, false); told<Error_Criterium_Unexpected_id>(s, false); told<Error_Limits_Unexpected_id>(s, false); told<Error_Not_Implemented>(s, false);
    for (int t : {0, 7, 42}) { mc::step(); try { throw Error_IO("a message", t); } catch (Error& e) { mc::check(e.GetType() == t && std::string(e.Description()) == "a message", "an I/O error holds its message and its type", "%d: %d, %s", t, e.GetType(), e.Description()); } }
    for (int r = 0; r < 4; r++) try { throw Error_MotionPlanning_Not_Feasible(r); } catch (Error& e) { mc::check(e.GetType() == 3100 + r, "a reason is part of the type", "%d: %d", r, e.GetType()); mc::check(e.Description() && *e.Description(), "exception has a description", "%d", r); }
}
