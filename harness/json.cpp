#define HARG hn
#include "h.hpp"
#include <filesystem>
#include "parser/json.hpp"
using namespace EdgeLearning;
using h::Rng;
using TT = TypeChecker::Type;
using JT = JsonObject::JsonType;
// independent document model
struct M { int k = 0; std::string s; TT t = TT::NONE; std::vector<M> l; std::map<std::string, M> d; };      // k: 0 empty, 1 leaf, 2 list, 3 dict
static std::string text(const M& m) {
    if (m.k == 0) return ""; if (m.k == 1) return m.t == TT::STRING ? "\"" + m.s + "\"" : m.s;
    std::string r; bool first = true;
    if (m.k == 2) { r = "["; for (auto& x : m.l) { if (!first) r += ","; first = false; r += text(x); } return r + "]"; }
    r = "{"; for (auto& x : m.d) { if (!first) r += ","; first = false; r += "\"" + x.first + "\":" + text(x.second); } return r + "}";
}
static std::string plain(const M& m) { return m.k == 1 ? m.s : text(m); }                                    // what conversion to std::string gives
static bool meq(const M& a, const M& b) {
    if (a.k != b.k) return false; if (a.k == 0) return true; if (a.k == 1) return a.s == b.s;
    if (a.k == 2) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); ++i) if (!meq(a.l[i], b.l[i])) return false; return true; }
    if (a.d.size() != b.d.size()) return false; for (auto& x : a.d) { auto it = b.d.find(x.first); if (it == b.d.end() || !meq(x.second, it->second)) return false; } return true;
}
static std::string word(Rng& r) { std::string s; static const std::string cs = "abcXYZ019 ,:;[]{}.-_/\\'\n\t\xc3\xa9"; for (size_t k = r.below(7); k; --k) s += cs[r.below(cs.size())]; return s; }
static std::string number(Rng& r) { switch (r.below(5)) { case 0: return std::to_string(r.range(-9, 9)); case 1: return std::to_string((int)r.next()); case 2: return std::to_string(r.range(-99, 99)) + "." + std::to_string(r.below(1000)); case 3: return std::to_string(r.below(10)) + "e" + std::to_string(r.range(-5, 5)); default: return "0"; } }
static M leaf(Rng& r) {
    M m; m.k = 1;
    switch (r.below(6)) { case 0: m.s = number(r); m.t = TypeChecker::parse(m.s); break; case 1: m.s = r.coin() ? "true" : "false"; m.t = TT::BOOL; break; case 2: m.s = ""; m.t = TT::STRING; break; case 3: m.s = r.pick(std::vector<std::string>{"12", "true", "-1.5", "null", "]", "}", "a,b", "[1]", "{", ","}); m.t = TT::STRING; break; default: m.s = word(r); m.t = TT::STRING; }
    return m;
}
static M doc(Rng& r, int depth, bool empties = false) {
    M m; int c = (int)r.below(depth > 0 ? 4 : 2);
    if (empties && r.coin(0.1)) return m;
    if (c < 2) return leaf(r);
    size_t n = r.coin(0.15) ? 0 : r.below(4) + 1;
    if (c == 2) { m.k = 2; while (n--) m.l.push_back(doc(r, depth - 1, empties)); } else { m.k = 3; while (n--) m.d[r.coin(0.7) ? std::string(1, (char)('a' + r.below(5))) : word(r)] = doc(r, depth - 1, empties); }
    return m;
}
static JsonItem build(const M& m, Rng& r) {
    if (m.k == 0) return JsonItem();
    if (m.k == 1) {
        if (r.coin(0.3) && TypeChecker::parse(m.s) == m.t) return m.t == TT::BOOL && r.coin() ? JsonItem(m.s == "true") : r.coin() ? JsonItem(m.s) : JsonItem(m.s.c_str() + 0);
        return JsonItem(JsonLeaf(m.s, m.t));
    }
    if (m.k == 2) { std::vector<JsonItem> v; for (auto& x : m.l) v.push_back(build(x, r)); int c = (int)r.below(3); if (c == 0) return JsonItem(JsonList(v)); if (c == 1) return JsonItem(v); JsonItem j{JsonList()}; for (auto& x : v) j.append(x); return j; }
    std::map<std::string, JsonItem> d; for (auto& x : m.d) d[x.first] = build(x.second, r); int c = (int)r.below(3); if (c == 0) return JsonItem(JsonDict(d)); if (c == 1) return JsonItem(d); JsonItem j{JsonDict()}; for (auto& x : d) j[x.first] = x.second; return j;
}
static std::string out(const JsonItem& j) { std::ostringstream o; o << j; return o.str(); }
// the document as a walk over the public accessors sees it
static void conforms(const JsonItem& j, const M& m, const std::string& at) {
    JT want[] = {JT::NONE, JT::LEAF, JT::LIST, JT::DICT}; if (j.json_type() != want[m.k]) h::fail(at + ": kind " + std::to_string((int)j.json_type()) + ", expected kind " + std::to_string((int)want[m.k]));
    h::eq(j.size(), (unsigned long)(m.k == 2 ? m.l.size() : m.k == 3 ? m.d.size() : 0), at + ": size");
    if (std::string(j) != plain(m)) h::fail(at + ": text " + h::show(std::string(j)) + ", expected " + h::show(plain(m)));
    if (m.k == 0) { bool t = false; try { (void)j.value(); } catch (const std::runtime_error&) { t = true; } h::check(t, at + ": value() of an empty item"); return; }
    h::check(j.value().json_type() == want[m.k], at + ": value kind");
    if (m.k == 1) { auto* p = dynamic_cast<const JsonLeaf*>(&j.value()); h::check(p, at + ": leaf object"); h::check(p->value() == m.s, at + ": leaf text " + h::show(p->value()) + ", expected " + h::show(m.s)); h::check(p->type() == m.t, at + ": leaf type " + std::to_string((int)p->type()) + ", expected " + std::to_string((int)m.t) + " for " + h::show(m.s)); }
    if (m.k == 2) { auto* p = dynamic_cast<const JsonList*>(&j.value()); h::check(p && p->size() == m.l.size() && p->empty() == m.l.empty() && p->value().size() == m.l.size(), at + ": list object"); for (size_t i = 0; i < m.l.size(); ++i) conforms(j.at(i), m.l[i], at + "[" + std::to_string(i) + "]"); }
    if (m.k == 3) { auto* p = dynamic_cast<const JsonDict*>(&j.value()); h::check(p && p->size() == m.d.size() && p->empty() == m.d.empty() && p->value().size() == m.d.size(), at + ": dict object"); for (auto& x : m.d) conforms(j.at(x.first), x.second, at + "[" + h::show(x.first) + "]"); }
}
HTEST("C13.write", 4000, 50000) { M m = doc(r, 4); h::desc(h::show(text(m))); JsonItem j = build(m, r); conforms(j, m, "built"); if (out(j) != text(m)) h::fail("written " + h::show(out(j)) + ", expected " + h::show(text(m))); if (m.k >= 2) { std::ostringstream o; o << j.value(); h::check(o.str() == text(m), "written value"); } }
HTEST("C05.round_trip", 8000, 100000) {
    M m = doc(r, r.range(0, 5)); std::string t = text(m), tail; int how = (int)r.below(3); bool closed = m.k >= 2 || m.t == TT::STRING;
    if (closed && how == 1) tail = r.pick(std::vector<std::string>{"X", "\n", "]", "}", " rest", "\"", ":"}); if (how == 2) tail = r.pick(std::vector<std::string>{",X", ",[1]", ",\"a\""});
    h::desc(h::show(t + tail)); JsonItem j; 
    if (r.coin(0.1)) { { std::ofstream o("d.json"); o << t << tail; } std::ifstream f("d.json"); f >> j; }
    else { std::istringstream is(t + tail); is >> j; if (!tail.empty()) { int c = is.get(); int want = tail[0] == ',' ? tail[1] : tail[0]; h::check(c == want, "the reader stops at the wrong place: next is " + std::to_string(c)); } }
    conforms(j, m, "read"); if (out(j) != t) h::fail("read and written again: " + h::show(out(j)));
    Rng q = r; JsonItem b = build(m, q); h::check(j == b && b == j && !(j != b), "the document read differs from the one written");
    if (m.k == 2) { JsonList l; std::istringstream is(t); is >> l; h::check(std::string(l) == t, "JsonList read"); } if (m.k == 3) { JsonDict d; std::istringstream is(t); is >> d; h::check(std::string(d) == t, "JsonDict read"); } if (m.k == 1) { JsonLeaf l; std::istringstream is(t); is >> l; h::check(l.value() == m.s && l.type() == m.t, "JsonLeaf read"); }
}
HTEST("C05.large", 4, 30) { M m; m.k = 2; for (size_t i = r.range(200, 400); i; --i) m.l.push_back(doc(r, 2)); std::string t = text(m); h::desc("list of " + std::to_string(m.l.size())); std::istringstream is(t); JsonItem j; is >> j; conforms(j, m, "read"); M deep = leaf(r); for (int i = 0; i < 60; ++i) { M x; x.k = r.coin() ? 2 : 3; if (x.k == 2) x.l.push_back(deep); else x.d["k"] = deep; deep = x; } std::istringstream i2(text(deep)); JsonItem j2; i2 >> j2; conforms(j2, deep, "deep"); }
// a random place of the document, in the item and in the model
static void descend(Rng& r, JsonItem*& j, M*& m, std::string& path) { while (r.coin(0.6)) { if (m->k == 2 && !m->l.empty()) { size_t i = r.below(m->l.size()); j = &(*j)[i]; m = &m->l[i]; path += "[" + std::to_string(i) + "]"; } else if (m->k == 3 && !m->d.empty()) { auto it = m->d.begin(); std::advance(it, (long)r.below(m->d.size())); j = &(*j)[it->first]; path += "[" + h::show(it->first) + "]"; m = &it->second; } else break; } }
static std::string mutate(Rng& r, JsonItem& root, M& mr) {
    JsonItem* j = &root; M* m = &mr; std::string p; descend(r, j, m, p);
    switch (r.below(5)) {
    case 0: { M x = doc(r, 2); *j = build(x, r); *m = x; return p + "=" + h::show(text(x)); }
    case 1: if (m->k == 2 || m->k == 0) { M x = doc(r, 1); j->append(build(x, r)); m->k = 2; m->l.push_back(x); return p + ".append " + h::show(text(x)); } return "";
    case 2: if (m->k == 3 || m->k == 0) { std::string key(1, (char)('a' + r.below(6))); M x = doc(r, 1); (*j)[key] = build(x, r); m->k = 3; m->d[key] = x; return p + "[" + key + "]=" + h::show(text(x)); } return "";
    case 3: { *j = JsonItem(); *m = M(); return p + "=empty"; }
    default: { M x = leaf(r); *j = build(x, r); *m = x; return p + "=" + h::show(text(x)); }
    }
}
HTEST("C14.copies", 5000, 60000) {
    M ma = doc(r, 4, true); JsonItem a = build(ma, r); std::string ds = h::show(text(ma)); h::desc(ds); int how = (int)r.below(7); M mb = ma; std::unique_ptr<JsonItem> bp;
    if (how == 0) bp.reset(new JsonItem(a)); else if (how == 1) { bp.reset(new JsonItem()); *bp = a; } else if (how == 2) { M x = doc(r, 3, true); bp.reset(new JsonItem(build(x, r))); *bp = a; }
    else if (how == 3) { std::vector<JsonItem> v(3, a); bp.reset(new JsonItem(v[1])); v.clear(); } else if (how == 4) { JsonItem l{JsonList()}; l.append(a); bp.reset(new JsonItem(l[0])); M x = doc(r, 2); l[0] = build(x, r); } else if (how == 5) { JsonItem d{JsonDict()}; d["k"] = a; bp.reset(new JsonItem(d.at("k"))); d["k"] = JsonItem(5); } else { std::unique_ptr<JsonItem> t(new JsonItem(a)); bp.reset(new JsonItem(*t)); t.reset(); }
    JsonItem& b = *bp; conforms(b, mb, "copy " + std::to_string(how)); conforms(a, ma, "original"); ds += " copied by " + std::to_string(how) + ";";
    for (int k = 0; k < 5; ++k) { bool which = r.coin(); std::string op = which ? mutate(r, a, ma) : mutate(r, b, mb); if (op.empty()) continue; ds += std::string(which ? " a" : " b") + op; h::desc(ds); conforms(a, ma, "original"); conforms(b, mb, "copy"); }
    bp.reset(); conforms(a, ma, "original after the copy is gone");
}
HTEST("C14.self", 3000, 30000) {
    M m = doc(r, 3, true); JsonItem a = build(m, r); h::desc(h::show(text(m)));
    JsonItem& ref = a; a = ref; conforms(a, m, "self assignment");
    if (m.k == 2 && !m.l.empty()) { size_t i = r.below(m.l.size()); M c = m.l[i]; if (r.coin()) { a[i] = a; M w = m; w.l[i] = m; conforms(a, w, "list stored in itself"); } else { a = a[i]; conforms(a, c, "list replaced by its element"); } }
    else if (m.k == 3 && !m.d.empty()) { std::string key = m.d.begin()->first; M c = m.d[key]; if (r.coin()) { a[key] = a; M w = m; w.d[key] = m; conforms(a, w, "dict stored in itself"); } else { a = a[key]; conforms(a, c, "dict replaced by its element"); } }
    else if (m.k == 2 || m.k == 0) { a.append(a); M w; w.k = 2; w.l.push_back(m); conforms(a, w, "appended to itself"); }
    if (m.k == 2) { JsonList l(std::vector<JsonItem>{a}); JsonList l2 = l; l2[0] = JsonItem(1); h::check(l[0] == a && l != l2, "copied list"); }
}
static M tweak(Rng& r, const M& m) { M c = m; M* p = &c; std::vector<M*> all; std::function<void(M&)> walk = [&](M& x) { all.push_back(&x); for (auto& y : x.l) walk(y); for (auto& y : x.d) walk(y.second); }; walk(c); p = all[r.below(all.size())];
    switch (r.below(7)) { case 0: *p = leaf(r); break; case 1: if (p->k == 1) p->s += "x"; break; case 2: if (p->k == 2 && !p->l.empty()) p->l.pop_back(); break; case 3: if (p->k == 2) p->l.push_back(leaf(r)); if (p->k == 3) p->d["zz"] = leaf(r); break; case 4: if (p->k == 3 && !p->d.empty()) { auto v = p->d.begin()->second; p->d.erase(p->d.begin()); p->d["zq"] = v; } break; case 5: if (p->k == 2 && p->l.size() > 1) std::swap(p->l[0], p->l.back()); break; default: if (p->k == 3 && p->d.size() > 1) std::swap(p->d.begin()->second, p->d.rbegin()->second); } return c; }
HTEST("C15.equality", 8000, 100000) {
    M a = doc(r, 3, true), b = r.coin(0.25) ? doc(r, 3, true) : r.coin(0.3) ? a : tweak(r, a), c = r.coin(0.6) ? tweak(r, b) : b; h::desc(h::show(text(a)) + " vs " + h::show(text(b)));
    JsonItem x = build(a, r), y = build(b, r), z = build(c, r); h::check(x == x && !(x != x), "an item equals itself"); bool w = meq(a, b);
    h::eq(x == y, w, "equality"); h::eq(y == x, w, "equality is symmetric"); h::eq(x != y, !w, "inequality"); h::eq(y == z, meq(b, c), "equality of the third document");
    if ((x == y) && (y == z)) h::check(x == z, "equality is transitive");
    if (a.k && b.k) { h::eq(x.value() == y.value(), w, "equality of the values"); h::eq(x.value() != y.value(), !w, "inequality of the values"); }
    auto* p = a.k == 2 && b.k == 2 ? dynamic_cast<const JsonList*>(&x.value()) : nullptr; if (p) h::eq(*p != *dynamic_cast<const JsonList*>(&y.value()), !w, "list inequality");
    auto* d = a.k == 3 && b.k == 3 ? dynamic_cast<const JsonDict*>(&x.value()) : nullptr; if (d) h::eq(*d != *dynamic_cast<const JsonDict*>(&y.value()), !w, "dict inequality");
    auto* l = a.k == 1 && b.k == 1 ? dynamic_cast<const JsonLeaf*>(&x.value()) : nullptr; if (l) h::eq(*l != *dynamic_cast<const JsonLeaf*>(&y.value()), !w, "leaf inequality");
}
template <class Fn> static bool throws(Fn f) { try { f(); } catch (const std::runtime_error&) { return true; } return false; }
HTEST("C16.operations", 6000, 80000) {
    M m = doc(r, 3, true); if (r.coin(0.2)) m = M(); JsonItem a = build(m, r); std::string ds = h::show(text(m));
    for (int k = 0; k < 8; ++k) {
        JsonItem* j = &a; M* p = &m; std::string path; descend(r, j, p, path); int op = (int)r.below(10); std::string key = r.coin() && p->k == 3 && !p->d.empty() ? p->d.begin()->first : std::string(1, (char)('a' + r.below(7))); size_t idx = r.below(5); if (r.coin(0.1)) idx = (size_t)-1;
        ds += " " + path + "." + std::to_string(op); h::desc(ds); M before = m; const JsonItem& cj = *j; bool isd = p->k == 3, isl = p->k == 2;
        switch (op) {
        case 0: if (isd || p->k == 0) { JsonItem& e = r.coin() ? (*j)[key] : (*j)[key.c_str()]; if (p->k == 0) { p->k = 3; } bool had = p->d.count(key); M& q = p->d[key]; if (!had) h::check(e.json_type() == JT::NONE && e.size() == 0, "a fresh key holds an empty item"); if (r.coin()) { M x = leaf(r); e = build(x, r); q = x; } } else h::check(throws([&] { (*j)[key]; }), "key access on a non-dict is rejected"); break;
        case 1: if (isl && idx < p->l.size()) { JsonItem& e = r.coin() ? (*j)[idx] : (*j)[(int)idx]; if (r.coin()) { M x = doc(r, 1); e = build(x, r); p->l[idx] = x; } } else h::check(throws([&] { (*j)[idx]; }), "index access is rejected"); break;
        case 2: if (isd && p->d.count(key)) conforms(r.coin() ? cj.at(key) : cj.at(key.c_str()), p->d[key], "at(key)"); else h::check(throws([&] { (void)cj.at(key); }), "at(key) is rejected"); break;
        case 3: if (isl && idx < p->l.size()) conforms(r.coin() ? cj.at(idx) : cj.at((int)idx), p->l[idx], "at(index)"); else h::check(throws([&] { (void)cj.at(idx); }), "at(index) is rejected"); break;
        case 4: { M x = doc(r, 1); JsonItem e = build(x, r); if (isl || p->k == 0) { j->append(e); p->k = 2; p->l.push_back(x); } else h::check(throws([&] { j->append(e); }), "append on a non-list is rejected"); break; }
        case 5: if (p->k == 1) { h::check(cj.as<std::string>() == p->s, "as text"); h::eq(cj.as<bool>(), p->s == "true" || p->s == "1", "as bool"); double w = 0; { std::istringstream is(p->s); is >> w; } h::dirty_stack(0x77); h::check(h::same(cj.as<double>(), w), "as double"); double v = 3; cj.as(v); h::check(h::same(v, w), "as(double&)"); int wi = 0; { std::istringstream is(p->s); is >> wi; } h::eq(cj.as<int>(), wi, "as int"); h::eq((int)cj, wi, "int conversion"); h::check(h::same((double)cj, w), "double conversion"); h::eq((bool)cj, p->s == "true" || p->s == "1", "bool conversion"); } else { h::check(throws([&] { (void)cj.as<double>(); }), "as<double> of a non-leaf is rejected"); h::check(throws([&] { (void)cj.as<int>(); }), "as<int> of a non-leaf is rejected"); } break;
        case 6: if (isl) { bool all = true; for (auto& x : p->l) all = all && x.k == 1; if (all) { auto v = cj.as_vec<double>(); h::eq(v.size(), p->l.size(), "as_vec size"); for (size_t i = 0; i < v.size(); ++i) { double w = 0; std::istringstream is(p->l[i].s); is >> w; h::check(h::same(v[i], w), "as_vec element"); } std::vector<std::string> s = cj.as_vec<std::string>(); for (size_t i = 0; i < s.size(); ++i) h::check(s[i] == p->l[i].s, "as_vec text"); std::vector<int> q; cj.as_vec(q); h::eq(q.size(), v.size(), "as_vec(out)"); } else { h::check(throws([&] { (void)cj.as_vec<double>(); }), "as_vec with a non-leaf element is rejected"); } } else h::check(throws([&] { (void)cj.as_vec<double>(); }), "as_vec of a non-list is rejected"); break;
        case 7: if (isd) { bool all = true; for (auto& x : p->d) all = all && x.second.k == 1; if (all) { auto v = cj.as_map<double>(); h::eq(v.size(), p->d.size(), "as_map size"); for (auto& e : p->d) { double w = 0; std::istringstream is(e.second.s); is >> w; h::check(v.count(e.first) && h::same(v[e.first], w), "as_map element"); } std::map<std::string, std::string> s; cj.as_map(s); for (auto& e : p->d) h::check(s.count(e.first) && s[e.first] == e.second.s, "as_map text"); } else h::check(throws([&] { (void)cj.as_map<double>(); }), "as_map with a non-leaf element is rejected"); } else h::check(throws([&] { (void)cj.as_map<double>(); }), "as_map of a non-dict is rejected"); break;
        case 8: h::eq(cj.size(), (unsigned long)(isl ? p->l.size() : isd ? p->d.size() : 0), "size"); break;
        default: if (p->k == 0) h::check(throws([&] { (void)cj.value(); }), "value of an empty item is rejected"); else (void)cj.value();
        }
        conforms(a, m, "after op " + std::to_string(op) + " at " + path);
    }
}
HTEST("C16.construct", 3000, 30000) {
    int n = (int)r.below(6); h::desc("vectors/maps of " + std::to_string(n) + " values, case " + std::to_string(hn));
    std::vector<int> vi; std::vector<long long> vl; std::vector<unsigned long> vu; std::vector<double> vd; std::vector<bool> vb; std::vector<std::string> vs; std::map<std::string, int> mi; std::map<std::string, double> md; std::map<std::string, bool> mb; std::map<std::string, std::string> ms;
    for (int i = 0; i < n; ++i) { vi.push_back((int)r.next()); vl.push_back((long long)r.next()); vu.push_back(r.next()); vd.push_back((double)r.range(-999, 999) / 8); vb.push_back(r.coin()); vs.push_back("s" + word(r)); std::string k(1, (char)('a' + i)); mi[k] = vi[i]; md[k] = vd[i]; mb[k] = vb[i]; ms[k] = vs[i]; }
    JsonList a(vi), b(vl), c(vu), d(vd), e(vb), f(vs); h::check(a.as<int>() == vi && b.as<long long>() == vl && c.as<unsigned long>() == vu && d.as<double>() == vd && e.as<bool>() == vb && f.as<std::string>() == vs, "list built from a vector converts back"); std::vector<int> oi; a.as(oi); h::check(oi == vi, "as(out)");
    JsonDict g(mi), k(md), l(mb), m(ms); h::check(g.as<int>() == mi && k.as<double>() == md && l.as<bool>() == mb && m.as<std::string>() == ms, "dict built from a map converts back"); std::map<std::string, int> om; g.as(om); h::check(om == mi, "as(out)");
    h::check(throws([&] { a[(size_t)n]; }) && throws([&] { (void)a.at((size_t)n + r.below(9)); }) && throws([&] { (void)g.at(std::string("zz")); }), "out of range access is rejected");
    a.append(JsonItem(4)); h::check(a.size() == (size_t)n + 1 && a.at((size_t)n).as<int>() == 4, "append");
    int q = (int)r.next(); JsonLeaf lf(q); h::check(lf.value() == std::to_string(q) && lf.type() == TT::INT && (int)lf == q && JsonItem(q).as<int>() == q, "int leaf"); JsonLeaf lb(n % 2 == 0); h::check(lb.value() == (n % 2 == 0 ? "true" : "false") && lb.type() == TT::BOOL && (bool)lb == (n % 2 == 0), "bool leaf"); JsonLeaf ld(2.5); h::check(ld.type() == TT::FLOAT && (double)ld == 2.5 && (float)ld == 2.5f, "double leaf");
    lf.value<int>(n); h::check(lf.value() == std::to_string(n) && lf.type() == TT::INT, "leaf value set"); lf.value<bool>(true); h::check(lf.value() == "true" && lf.type() == TT::BOOL, "leaf value set"); JsonLeaf none; h::check(none.value().empty() && none.type() == TT::NONE && none.json_type() == JT::LEAF, "empty leaf");
}
HMAIN
