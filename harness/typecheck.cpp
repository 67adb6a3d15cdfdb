#define HARG hn
#include "h.hpp"
#include "parser/type_checker.hpp"
using namespace EdgeLearning;
using h::Rng;
using TT = TypeChecker::Type;
// independent recogniser of the documented value grammar
static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool isint(const std::string& s) { size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i; if (i >= s.size() || !dig(s[i])) return false; if (s[i] == '0') return i + 1 == s.size(); while (i < s.size() && dig(s[i])) ++i; return i == s.size(); }
static bool isfloat(const std::string& s) {
    size_t i = 0, n = s.size(); if (i < n && (s[i] == '+' || s[i] == '-')) ++i;
    size_t a = i; while (i < n && dig(s[i])) ++i; size_t ip = i - a; bool ok = ip > 0;
    if (i < n && s[i] == '.') { ++i; size_t b = i; while (i < n && dig(s[i])) ++i; ok = i > b; }
    if (!ok) return false;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { ++i; if (i < n && (s[i] == '+' || s[i] == '-')) ++i; size_t b = i; while (i < n && dig(s[i])) ++i; if (i == b) return false; }
    return i == n;
}
static TT want(const std::string& s) { return s.empty() ? TT::NONE : s == "true" || s == "false" ? TT::BOOL : isint(s) ? TT::INT : isfloat(s) ? TT::FLOAT : TT::STRING; }
static std::string rint_(Rng& r) { std::string s; int m = (int)r.below(3); if (m) s = m == 1 ? "-" : "+"; if (r.coin(0.2)) return s + "0"; s += (char)('1' + r.below(9)); for (size_t k = r.below(9); k; --k) s += (char)('0' + r.below(10)); return s; }
static std::string rfloat(Rng& r) { std::string s = r.pick(std::vector<std::string>{"", "-", "+"}); for (size_t k = r.below(4); k; --k) s += (char)('0' + r.below(10)); if (r.coin(0.8)) s += '.'; for (size_t k = r.range(1, 5); k; --k) s += (char)('0' + r.below(10)); if (r.coin()) { s += r.coin() ? 'e' : 'E'; s += r.pick(std::vector<std::string>{"", "-", "+"}); for (size_t k = r.range(1, 2); k; --k) s += (char)('0' + r.below(10)); } return s; }
static std::string any(Rng& r) {
    switch (r.below(9)) {
    case 0: return rint_(r);
    case 1: return rfloat(r);
    case 2: return r.pick(std::vector<std::string>{"true", "false", "True", "TRUE", "tru", "falsee", " true", "true ", "", "1", "0", "null", "inf", "nan", "-", "+", ".", "e5", "0x1f", "00", "01", "-0", "+0", "1.", ".5", "-.5", "1e", "1e+", "1.5e3", "\"\"", "\"", "\"a", "a\"", "\"1\"", "\"true\"", "1,5", "1 2", " 1", "1 ", "\n", "1\n", "\t2", "--1", "+-1", "1-", "1e5.5", "1.2.3", "..1", "1_000", "\"a\nb\"", "1f", "1l", "false", "0.0", "0e0", "-0.0e-0", "٣", "1e0005"});
    case 3: { std::string s = "\""; for (size_t k = r.below(6); k; --k) s += (char)r.range(32, 126); return s + "\""; }
    case 4: { std::string s = r.coin() ? rint_(r) : rfloat(r); size_t p = r.below(s.size() + 1); static const std::string cs = "0123456789+-.eE \"x\n,"; if (r.coin()) s.insert(s.begin() + (long)p, cs[r.below(cs.size())]); else if (p < s.size()) s[p] = cs[r.below(cs.size())]; return s; }
    case 5: { std::string s = r.coin() ? rint_(r) : rfloat(r); if (!s.empty()) s.erase(r.below(s.size()), 1); return s; }
    case 6: { static const std::string cs = "01.eE+-"; std::string s; for (size_t k = r.below(7); k; --k) s += cs[r.below(cs.size())]; return s; }
    case 7: { static const std::string cs = "truefalsTF1 "; std::string s; for (size_t k = r.below(7); k; --k) s += cs[r.below(cs.size())]; return s; }
    default: { std::string s; for (size_t k = r.below(10); k; --k) s += (char)r.range(1, 255); return s; }
    }
}
static std::string nm(TT t) { return std::to_string((int)t); }
HTEST("C04.classify", 40000, 500000) {
    std::string s = any(r); h::desc(h::show(s)); TT w = want(s); TypeChecker tc;
    if (TypeChecker::parse(s) != w) h::fail("type of " + h::show(s) + ": got " + nm(TypeChecker::parse(s)) + ", expected " + nm(w));
    h::check(tc(s) == w, "operator() disagrees with the grammar");
    h::eq(TypeChecker::is_int(s), w == TT::INT, "is_int"); h::eq(TypeChecker::is_float(s), w == TT::FLOAT, "is_float"); h::eq(TypeChecker::is_bool(s), w == TT::BOOL, "is_bool"); h::eq(TypeChecker::is_string(s), w == TT::STRING, "is_string");
}
HTEST("C04.exhaustive", 1, 1) {
    // every string of length <= 5 over the decisive characters
    static const std::string cs = "01.e-+\"t"; std::vector<std::string> cur = {""}; h::desc("all strings of length <= 5 over 01.e-+\"t");
    for (int len = 0; len <= (h::thorough() ? 6 : 4); ++len) { std::vector<std::string> nx; for (auto& s : cur) { if (TypeChecker::parse(s) != want(s)) h::fail("type of " + h::show(s) + ": got " + nm(TypeChecker::parse(s)) + ", expected " + nm(want(s))); for (char c : cs) nx.push_back(s + c); } cur.swap(nx); }
}
HTEST("C04.vectors", 3000, 30000) {
    std::vector<std::string> v; for (size_t k = r.below(7); k; --k) v.push_back(any(r)); h::desc(h::show(v)); TypeChecker tc;
    auto a = TypeChecker::parse(v); auto b = tc(v); h::eq(a.size(), v.size(), "types"); h::eq(b.size(), v.size(), "types");
    for (size_t i = 0; i < v.size(); ++i) h::check(a[i] == want(v[i]) && b[i] == want(v[i]), "type " + std::to_string(i) + " of the vector");
    auto c = a; h::check(EdgeLearning::operator==(a, c) && !EdgeLearning::operator!=(a, c), "equal type vectors");
    if (!c.empty()) { size_t k = r.below(c.size()); c[k] = c[k] == TT::INT ? TT::FLOAT : TT::INT; h::check(!EdgeLearning::operator==(a, c) && EdgeLearning::operator!=(a, c), "type vectors differing at one place"); c = a; c.pop_back(); h::check(EdgeLearning::operator!=(a, c) && EdgeLearning::operator!=(c, a), "type vectors of different length"); }
}
HTEST("C04.convert", 8000, 100000) {
    TypeChecker tc; int m = (int)r.below(6);
    if (m == 0) { std::string s = rint_(r); h::desc("int " + h::show(s)); long long w = strtoll(s.c_str(), 0, 10); if (w > INT32_MAX || w < INT32_MIN) return; int x = 77; h::check(tc(s, x), "conversion refused"); h::eq((long long)x, w, "value"); double d = 7; h::check(tc(s, d), "conversion refused"); h::eq(d, (double)w, "value"); long long l; h::check(TypeChecker::parse(s, l), "refused"); h::eq(l, w, "value"); }
    else if (m == 1) { std::string s = rfloat(r); h::desc("float " + h::show(s)); double w = strtod(s.c_str(), 0); if (!std::isfinite(w)) return; double d = 7; bool ok = tc(s, d); if (w != 0 && std::fabs(w) < 1e-300) return; h::check(ok, "conversion refused"); h::eq(d, w, "value"); }
    else if (m == 2) { std::string s = any(r); h::desc("bool/string " + h::show(s)); bool b = r.coin(); h::check(tc(s, b), "bool conversion refused"); h::eq(b, s == "true" || s == "1", "bool value"); std::string t = "x"; h::check(tc(s, t), "string conversion refused"); h::check(t == s, "string value"); }
    else if (m == 3) { int v = (int)r.next(); h::desc("from int " + std::to_string(v)); h::check(tc(v) == std::to_string(v), "int to text"); int x; h::check(tc(tc(v), x) && x == v, "int round trip"); h::check(tc(true) == "true" && tc(false) == "false", "bool to text"); double d = r.real(1e6); h::check(tc(d) == std::to_string(d), "double to text"); }
    else { std::string s = rint_(r) + r.pick(std::vector<std::string>{"a", " ", ".", "x5", "\n", ",", "-"}); h::desc("malformed " + h::show(s)); int x = 0; h::check(!tc(s, x), "trailing text accepted"); s = r.pick(std::vector<std::string>{"", "abc", "-", "+", "\"5\"", "true", "e5", " "}); double d = 5; h::check(!tc(s, d), "text accepted as number " + h::show(s)); }
}
HMAIN
