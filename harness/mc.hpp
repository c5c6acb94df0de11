// A small stateless model checker: a scenario body is executed once for every sequence of
// choices it can make (depth first, exhaustively), always on the real library code.
//   mc::choose(n)   branches n ways; the explorer enumerates all of them
//   mc::state(s)    records a canonical state (distinct states are counted)
//   mc::step()      records one operation of the implementation (a transition)
//   mc::fail(key,.) records a violation of this execution; the choice sequence is its replay
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <exception>
#include <typeinfo>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

namespace mc {

struct Skip {};
struct Stop {};   // end of this execution after a violation

struct Scenario {
    std::string name;
    std::function<void()> body;
    int split;   // number of leading choices that decide the shard
};
inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
struct Reg { Reg(const char* n, void (*f)(), int split = 3) { scenarios().push_back({n, f, split}); } };
#define SCENARIO(name) static void name(); static mc::Reg reg_##name(#name, name); static void name()
#define SCENARIO_SPLIT(name, k) static void name(); static mc::Reg reg_##name(#name, name, k); static void name()

struct Crash {            // mapped file read by the driver when the process dies
    volatile uint32_t depth;
    volatile uint32_t scenario;
    volatile uint32_t status;   // 0 running, 1 finished, 2 watchdog
    uint32_t pad;
    volatile uint16_t choice[4096];
};

struct Violation { std::string scenario, key, msg, choices; uint64_t count; };

struct Engine {
    bool thorough = false, replay = false;
    int shard = 0, nshards = 1;
    int cur = 0;                      // scenario index
    std::vector<std::pair<int,int>> trail;   // (choice, arity)
    size_t depth = 0;
    bool mine_checked = false;
    uint64_t executions = 0, transitions = 0, checks = 0;
    std::unordered_set<uint64_t> states;
    std::map<std::string, Violation> viol;
    uint64_t nviol = 0;
    std::vector<std::string> notes;   // of the current execution
    std::vector<std::string> samples;
    Crash* crash = nullptr;
    bool sampling = false;
    std::map<std::string, uint64_t> counters;
};
inline Engine& E() { static Engine e; return e; }

inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}

inline bool thorough() { return E().thorough; }
inline int tiered(int q, int t) { return E().thorough ? t : q; }

inline std::string vfmt(const char* f, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, f, ap);
    return buf;
}
inline std::string fmt(const char* f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s;
}
inline bool tracing() { return E().replay || E().sampling; }
inline void note(const char* f, ...) {
    if (!tracing()) return;
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    E().notes.push_back(s);
    if (E().replay) { fprintf(stdout, "  %s\n", s.c_str()); fflush(stdout); }
}

inline void shard_test() {
    Engine& e = E();
    if (e.replay || e.nshards <= 1) return;
    uint64_t h = 7;
    for (size_t i = 0; i < e.depth; i++) h = h * 1000003 + e.trail[i].first + 1;
    h ^= h >> 17; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31;
    e.mine_checked = true;
    if ((int)(h % (uint64_t)e.nshards) != e.shard) throw Skip();
}

inline int choose(int n, const char* label = "") {
    Engine& e = E();
    if (n <= 0) { fprintf(stderr, "mc: choose(%d) at %s\n", n, label); abort(); }
    if (e.depth == e.trail.size()) {
        if (e.replay) { fprintf(stderr, "mc: replay ran out of choices at %s\n", label); exit(4); }
        e.trail.push_back({0, n});
    } else if (e.replay) {
        e.trail[e.depth].second = n;
        if (e.trail[e.depth].first >= n) { fprintf(stderr, "mc: replay diverged at %s\n", label); exit(4); }
    } else if (e.trail[e.depth].second != n) {
        fprintf(stderr, "mc: nondeterministic harness: arity %d became %d at %s\n", e.trail[e.depth].second, n, label);
        exit(4);
    }
    int c = e.trail[e.depth].first;
    if (e.crash && e.depth < 4096) { e.crash->choice[e.depth] = (uint16_t)c; e.crash->depth = e.depth + 1; }
    e.depth++;
    if (!e.mine_checked && (int)e.depth == scenarios()[e.cur].split) shard_test();
    if (*label) note("choose %s = %d of %d", label, c, n);
    return c;
}
inline bool flag(const char* label = "") { return choose(2, label) != 0; }
template <class T> inline const T& pick(const std::vector<T>& v, const char* label = "") { return v[choose((int)v.size(), label)]; }
template <class T, size_t N> inline const T& pick(const T (&v)[N], const char* label = "") { return v[choose((int)N, label)]; }

inline void step(uint64_t n = 1) { E().transitions += n; }
inline void state(const std::string& s) {
    Engine& e = E();
    e.states.insert(hash(s.data(), s.size(), 1469598103934665603ull + e.cur));
}
inline void state(const double* d, size_t n, uint64_t tag = 0) {
    // doubles rounded so that last-bit noise does not make distinct states
    uint64_t h = 1469598103934665603ull + E().cur + 31 * tag;
    for (size_t i = 0; i < n; i++) {
        double v = d[i]; float f = (float)v; if (f == 0) f = 0;
        h = hash(&f, sizeof f, h);
    }
    E().states.insert(h);
}
inline void count(const char* what, uint64_t n = 1) { E().counters[what] += n; }

inline std::string choices() {
    std::string s;
    for (size_t i = 0; i < E().depth; i++) { if (i) s += ","; s += std::to_string(E().trail[i].first); }
    return s;
}
// records a violation; the execution goes on
inline void report(const std::string& key, const std::string& msg) {
    Engine& e = E();
    e.nviol++;
    std::string k = scenarios()[e.cur].name + "|" + key;
    auto it = e.viol.find(k);
    if (it != e.viol.end()) it->second.count++;
    else if (e.viol.size() < 200) e.viol[k] = Violation{scenarios()[e.cur].name, key, msg, choices(), 1};
    if (e.replay) { printf("VIOLATED [%s] %s\n", key.c_str(), msg.c_str()); fflush(stdout); }
}
inline void fail(const std::string& key, const char* f, ...) {
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    report(key, s);
    throw Stop();
}
inline bool check(bool ok, const std::string& key, const char* f, ...) {
    E().checks++;
    if (ok) return true;
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    report(key, s);
    return false;
}
// |a-b| <= tol*(1+max(|a|,|b|)); NaN never passes
inline bool close(double a, double b, double tol) {
    double m = std::fabs(a) > std::fabs(b) ? std::fabs(a) : std::fabs(b);
    return std::fabs(a - b) <= tol * (1 + m);
}
inline bool near(double a, double b, double tol, const std::string& key, const char* what = "") {
    E().checks++;
    if (close(a, b, tol)) return true;
    report(key, fmt("%s: got %.17g, expected %.17g (tolerance %g)", what, a, b, tol));
    return false;
}
inline bool nearv(const double* a, const double* b, int n, double tol, const std::string& key, const char* what = "") {
    E().checks++;
    double m = 0;
    for (int i = 0; i < n; i++) { if (std::fabs(a[i]) > m) m = std::fabs(a[i]); if (std::fabs(b[i]) > m) m = std::fabs(b[i]); }
    for (int i = 0; i < n; i++)
        if (!(std::fabs(a[i] - b[i]) <= tol * (1 + m))) {
            std::string s = fmt("%s: got [", what);
            for (int k = 0; k < n; k++) s += fmt("%s%.12g", k ? " " : "", a[k]);
            s += "], expected [";
            for (int k = 0; k < n; k++) s += fmt("%s%.12g", k ? " " : "", b[k]);
            report(key, s + fmt("] (tolerance %g)", tol));
            return false;
        }
    return true;
}

inline std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

inline uint64_t& tick_seen() { static uint64_t t = ~0ull; return t; }
inline int& tick_stuck() { static int t = 0; return t; }
inline int& tick_limit() { static int t = 60; return t; }
inline void on_tick(int) {
    static volatile uint64_t last = ~0ull;
    static volatile int stuck = 0;
    uint64_t now = E().executions;
    if (now != last) { last = now; stuck = 0; return; }
    if (++stuck >= tick_limit()) {
        if (E().crash) E().crash->status = 2;
        const char m[] = "mc: WATCHDOG one execution does not terminate\n";
        if (write(2, m, sizeof m - 1)) {}
        _exit(5);
    }
}

inline void run_once(const Scenario& sc) {
    Engine& e = E();
    e.depth = 0; e.mine_checked = false; e.notes.clear();
    if (e.crash) e.crash->depth = 0;
    bool counted = true;
    try {
        sc.body();
    } catch (Skip&) { counted = false; }
    catch (Stop&) {}
    catch (std::exception& x) { report("exception", fmt("unexpected exception %s: %s", typeid(x).name(), x.what())); }
    catch (...) { report("exception", "unexpected exception"); }
    if (counted && !e.mine_checked) {
        // fewer choices than the split depth: this execution belongs to one shard only
        uint64_t h = 7;
        for (size_t i = 0; i < e.depth; i++) h = h * 1000003 + e.trail[i].first + 1;
        h ^= h >> 17; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 31;
        if (!e.replay && (int)(h % (uint64_t)e.nshards) != e.shard) counted = false;
    }
    if (counted) e.executions++;
}

inline int main(int argc, char** argv) {
    Engine& e = E();
    std::string only, out, crashf, rep;
    int limit = 60;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { if (i + 1 >= argc) exit(4); return argv[++i]; };
        if (a == "--thorough") e.thorough = true;
        else if (a == "--shard") { std::string s = val(); sscanf(s.c_str(), "%d/%d", &e.shard, &e.nshards); }
        else if (a == "--scenario") only = val();
        else if (a == "--out") out = val();
        else if (a == "--crash") crashf = val();
        else if (a == "--replay") { rep = val(); e.replay = true; }
        else if (a == "--limit") limit = atoi(val().c_str());
        else if (a == "--list") { for (auto& s : scenarios()) printf("%s\n", s.name.c_str()); return 0; }
    }
    if (!crashf.empty()) {
        int fd = open(crashf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Crash))) return 4;
        e.crash = (Crash*)mmap(0, sizeof(Crash), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        ::close(fd);
    }
    tick_limit() = limit;
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART;
    sigaction(SIGALRM, &sa, 0);
    itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_REAL, &it, 0);

    if (e.replay) {
        e.trail.clear();
        for (size_t p = 0; p < rep.size();) {
            size_t q = rep.find(',', p); if (q == std::string::npos) q = rep.size();
            if (q > p) e.trail.push_back({atoi(rep.substr(p, q - p).c_str()), 1 << 30});
            p = q + 1;
        }
        for (size_t i = 0; i < scenarios().size(); i++)
            if (scenarios()[i].name == only) { e.cur = (int)i; run_once(scenarios()[i]); if (e.crash) e.crash->status = 1; return e.nviol ? 1 : 0; }
        return 4;
    }
    std::map<std::string, uint64_t> per;
    for (size_t i = 0; i < scenarios().size(); i++) {
        if (!only.empty() && scenarios()[i].name != only) continue;
        e.cur = (int)i;
        if (e.crash) e.crash->scenario = (uint32_t)i;
        e.trail.clear();
        uint64_t before = e.executions;
        int kept = 0;
        for (;;) {
            uint64_t n0 = e.executions;
            e.sampling = kept < 1;
            run_once(scenarios()[i]);
            if (e.sampling && e.executions > n0 && e.shard == 0) {
                kept++;
                std::string s = scenarios()[i].name + " choices=[" + choices() + "]";
                for (size_t k = 0; k < e.notes.size() && k < 12; k++) s += "; " + e.notes[k];
                e.samples.push_back(s.substr(0, 600));
            }
            // after an early end, deeper stale choices are gone
            e.trail.resize(e.depth);
            while (!e.trail.empty() && e.trail.back().first + 1 >= e.trail.back().second) e.trail.pop_back();
            if (e.trail.empty()) break;
            e.trail.back().first++;
        }
        per[scenarios()[i].name] = e.executions - before;
    }
    if (e.crash) e.crash->status = 1;
    FILE* f = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!f) return 4;
    fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"checks\":%llu,\"violating\":%llu,",
            (unsigned long long)e.executions, (unsigned long long)e.transitions, (unsigned long long)e.checks, (unsigned long long)e.nviol);
    if (!out.empty()) {
        FILE* g = fopen((out + ".states").c_str(), "wb");
        if (!g) return 4;
        for (uint64_t h : e.states) fwrite(&h, 8, 1, g);
        fclose(g);
    }
    bool first = true;
    fprintf(f, "\n\"scenarios\":{");
    for (auto& p : per) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n\"counters\":{");
    first = true;
    for (auto& p : e.counters) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    first = true;
    for (auto& s : e.samples) { fprintf(f, "%s%s", first ? "" : ",\n", js(s).c_str()); first = false; }
    fprintf(f, "],\n\"violations\":[");
    first = true;
    for (auto& p : e.viol) {
        fprintf(f, "%s{\"scenario\":%s,\"key\":%s,\"msg\":%s,\"choices\":%s,\"count\":%llu}", first ? "" : ",\n",
                js(p.second.scenario).c_str(), js(p.second.key).c_str(), js(p.second.msg).c_str(), js(p.second.choices).c_str(), (unsigned long long)p.second.count);
        first = false;
    }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return 0;
}
}  // namespace mc
#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::main(argc, argv); }
#endif
