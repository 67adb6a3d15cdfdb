// Concrete replay harness: drives the real code in /repo on generated inputs and compares with an independent oracle.
// It replays failed obligations and validates the assumed library contracts; it is a bounded exploration, never a proof.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <memory>
#include <algorithm>
#include <stdexcept>
#include <signal.h>
#include <unistd.h>
#include <sys/stat.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void));
namespace h {
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool coin(double p = 0.5) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double m = 2.0) { return (unit() * 2 - 1) * m; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};
struct Fail { std::string what; };
inline std::string& cur() { static std::string s; return s; }       // description of the current case
inline uint64_t& seed() { static uint64_t s = 1; return s; }
inline bool& thorough() { static bool t = false; return t; }
inline long& count() { static long c = 0; return c; }
inline std::set<uint64_t>& distinct() { static std::set<uint64_t> s; return s; }
inline std::vector<std::string>& samples() { static std::vector<std::string> s; return s; }
inline std::string& prop() { static std::string s; return s; }
inline long& caseno() { static long c = 0; return c; }
inline std::string& test() { static std::string s; return s; }
inline void death() {
    std::string m = "CRASH test=" + test() + " case=" + std::to_string(caseno()) + " input: " + cur() + "\n";
    (void)!write(2, m.data(), m.size());
}
inline void on_alarm(int) { std::string m = "HANG test=" + test() + " case=" + std::to_string(caseno()) + " input: " + cur() + "\n"; (void)!write(2, m.data(), m.size()); _exit(7); }
inline void on_abort(int) { death(); _exit(8); }
[[noreturn]] inline void fail(const std::string& w) { throw Fail{w}; }
inline void check(bool c, const std::string& w) { if (!c) fail(w); }
inline uint64_t hash(const std::string& s) { uint64_t x = 1469598103934665603ull; for (unsigned char c : s) { x ^= c; x *= 1099511628211ull; } return x; }
inline void desc(const std::string& s) {
    cur() = s;
    distinct().insert(hash(test() + "|" + s));
    if (samples().size() < 6 && caseno() % 7 == 0) samples().push_back(test() + ": " + s.substr(0, 300));
}
template <class A, class B> void eq(const A& got, const B& want, const std::string& w) {
    if (!(got == want)) { std::ostringstream o; o.precision(17); o << w << ": got " << got << ", expected " << want; fail(o.str()); }
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool close(double a, double b, double rel = 1e-9, double abs = 1e-12) { return same(a, b) || std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b)); }
inline void near(double got, double want, const std::string& w, double rel = 1e-9, double abs = 1e-12) {
    if (!close(got, want, rel, abs)) { std::ostringstream o; o.precision(17); o << w << ": got " << got << ", expected " << want; fail(o.str()); }
}
inline std::string show(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) { char b[8]; if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); r += b; } else r += (char)c; }
    return r + "\"";
}
template <class T> std::string show(const std::vector<T>& v) {
    std::ostringstream o; o.precision(17); o << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << v[i]; if (i > 60) { o << "..."; break; } } o << "]"; return o.str();
}
inline std::string show(const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + show(v[i]); return r + "]"; }
inline void dirty_stack(unsigned char pat) { volatile unsigned char buf[16384]; for (size_t i = 0; i < sizeof buf; ++i) buf[i] = pat; }
struct Test { std::string name; long quick, thorough; std::function<void(Rng&, long)> fn; };
inline std::vector<Test>& tests() { static std::vector<Test> t; return t; }
struct Reg { Reg(const std::string& n, long q, long t, std::function<void(Rng&, long)> f) { tests().push_back({n, q, t, f}); } };
inline int run(int argc, char** argv) {
    // args: property seed tier [test case]
    prop() = argc > 1 ? argv[1] : ""; seed() = argc > 2 ? strtoull(argv[2], 0, 10) : 1; thorough() = argc > 3 && !strcmp(argv[3], "thorough");
    std::string only = argc > 4 ? argv[4] : ""; long onlycase = argc > 5 ? atol(argv[5]) : -1;
    __sanitizer_set_death_callback(death);
    signal(SIGALRM, on_alarm); signal(SIGABRT, on_abort); signal(SIGFPE, on_abort); signal(SIGILL, on_abort); signal(SIGSEGV, on_abort);
    int rc = 0; bool any = false;
    for (auto& t : tests()) {
        // test names are "C06.something"
        if (t.name.substr(0, t.name.find('.')) != prop()) continue;
        if (!only.empty() && only != t.name) continue;
        any = true; test() = t.name;
        long n = thorough() ? t.thorough : t.quick;
        long fails = 0;
        for (long i = 0; i < n; ++i) {
            if (onlycase >= 0 && i != onlycase) continue;
            caseno() = i; cur() = ""; ++count();
            Rng r(seed() * 1000003ull + hash(t.name) + (uint64_t)i * 7919ull);
            alarm(60);
            std::string what;
            try { t.fn(r, i); }
            catch (const Fail& f) { what = f.what; }
            catch (const std::exception& e) { what = std::string("unexpected exception: ") + e.what(); }
            catch (...) { what = "unexpected exception"; }
            if (!what.empty()) {
                printf("FAIL test=%s case=%ld what=%s || input: %s\n", t.name.c_str(), i, what.c_str(), cur().c_str()); fflush(stdout);
                rc = 1; if (++fails >= 3) break;
            }
        }
        alarm(0);
    }
    printf("SUMMARY %ld %ld\n", count(), (long)distinct().size());
    for (auto& s : samples()) printf("SAMPLE %s\n", s.c_str());
    if (!any) printf("NOTESTS\n");
    return rc;
}
} // namespace h
#ifndef HARG
#define HARG n
#endif
#define HCAT2(a, b) a##b
#define HCAT(a, b) HCAT2(a, b)
#define HTEST(name, quick, thorough) static void HCAT(ht_, __LINE__)(h::Rng&, long); static h::Reg HCAT(hr_, __LINE__)(name, quick, thorough, HCAT(ht_, __LINE__)); static void HCAT(ht_, __LINE__)([[maybe_unused]] h::Rng& r, [[maybe_unused]] long HARG)
#define HMAIN int main(int argc, char** argv) { return h::run(argc, argv); }
