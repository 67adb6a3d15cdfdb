#define HARG hn
#include "h.hpp"
#include <numeric>
#include "data/dataset.hpp"
using namespace EdgeLearning;
using h::Rng;
using DS = Dataset<double>;
using V = std::vector<double>;
using S = std::set<SizeType>;
template <class T> static std::vector<T> vs(const std::set<T>& s) { return {s.begin(), s.end()}; }
static std::string show(const S& s) { return h::show(vs(s)); }
// model: rows of f values, grouped in sequences of q rows
struct M { size_t f = 0, q = 0, n = 0; V x; S lab; };
static S clip(const S& s, size_t f) { S r; for (auto v : s) if (v < f) r.insert(v); return r; }
static M mvec(const V& x, size_t f, size_t q, const S& lab) { M m; m.f = std::min(f, x.size()); m.q = m.f ? std::min(q, x.size() / m.f) : 0; size_t b = m.f * m.q; size_t k = b ? x.size() / b : 0; m.n = k * m.q; m.x.assign(x.begin(), x.begin() + (long)(k * b)); m.lab = clip(lab, m.f); return m; }
static std::vector<size_t> inputs(const M& m) { std::vector<size_t> v; for (size_t c = 0; c < m.f; ++c) if (!m.lab.count(c)) v.push_back(c); return v; }
static void same(const V& g, const V& w, const std::string& what) { if (g.size() != w.size()) h::fail(what + ": got " + h::show(g) + ", expected " + h::show(w)); for (size_t i = 0; i < g.size(); ++i) if (!h::same(g[i], w[i])) h::fail(what + ": got " + h::show(g) + ", expected " + h::show(w)); }
static V proj(const M& m, size_t row, const std::vector<size_t>& cols) { V v; for (auto c : cols) v.push_back(m.x[row * m.f + c]); return v; }
static V projseq(const M& m, size_t s, const std::vector<size_t>& cols) { V v; for (size_t t = 0; t < m.q; ++t) { V r = proj(m, s * m.q + t, cols); v.insert(v.end(), r.begin(), r.end()); } return v; }
static void rep(const DS& d, const M& m, const std::string& w) {
    h::eq(d.feature_size(), m.f, w + ": feature size"); h::eq(d.sequence_size(), m.q, w + ": sequence size"); h::eq(d.size(), m.n, w + ": entries"); same(d.data(), m.x, w + ": data"); h::eq(d.empty(), m.x.empty(), w + ": empty");
    auto l = d.label_idx(); h::check(l == vs(m.lab), w + ": label columns " + h::show(l) + ", expected " + show(m.lab)); auto i = d.input_idx(); h::check(i == inputs(m), w + ": input columns " + h::show(i));
}
static void views(const DS& d, const M& m, const std::string& w, Rng& r) {
    std::vector<size_t> all, in = inputs(m), lb = vs(m.lab); for (size_t c = 0; c < m.f; ++c) all.push_back(c);
    for (size_t k = 0; k < m.n; ++k) { same(d.entry(k), proj(m, k, all), w + ": entry " + std::to_string(k)); same(d.input(k), proj(m, k, in), w + ": input " + std::to_string(k)); same(d.label(k), proj(m, k, lb), w + ": label " + std::to_string(k)); }
    size_t ns = m.q ? m.n / m.q : 0;
    for (size_t k = 0; k < ns; ++k) { same(d.entry_seq(k), projseq(m, k, all), w + ": entry sequence " + std::to_string(k)); same(d.inputs_seq(k), projseq(m, k, in), w + ": input sequence"); same(d.labels_seq(k), projseq(m, k, lb), w + ": label sequence"); }
    for (size_t k : {m.n, m.n + 1 + r.below(5), (size_t)-1}) { h::check(d.entry(k).empty() && d.input(k).empty() && d.label(k).empty(), w + ": a row past the end is empty"); }
    for (size_t k : {ns, ns + 1 + r.below(5), (size_t)-1}) { h::check(d.entry_seq(k).empty() && d.inputs_seq(k).empty() && d.labels_seq(k).empty(), w + ": a sequence past the end is empty"); }
    V wi, wl; for (size_t k = 0; k < m.n; ++k) { V a = proj(m, k, in), b = proj(m, k, lb); wi.insert(wi.end(), a.begin(), a.end()); wl.insert(wl.end(), b.begin(), b.end()); }
    DS di = d.inputs(), dl = d.labels(); same(di.data(), wi, w + ": inputs()"); same(dl.data(), wl, w + ": labels()");
    if (m.n) { if (!in.empty()) { h::eq(di.size(), m.n, "inputs() entries"); h::eq(di.feature_size(), in.size(), "inputs() features"); h::eq(di.sequence_size(), m.q, "inputs() sequence size"); h::check(di.label_idx().empty(), "inputs() labels"); } if (!lb.empty()) { h::eq(dl.size(), m.n, "labels() entries"); h::eq(dl.feature_size(), lb.size(), "labels() features"); h::eq(dl.sequence_size(), m.q, "labels() sequence size"); } }
}
static V data(Rng& r, size_t n) { V x(n); int mode = (int)r.below(3); for (size_t i = 0; i < n; ++i) x[i] = mode == 0 ? (double)i + 1 : mode == 1 ? r.real(9) : (double)r.range(-3, 3); return x; }
static S labs(Rng& r, size_t f) { S s; int m = (int)r.below(5); if (m == 0) return s; if (m == 1) { if (f) s.insert(f - 1); return s; } if (m == 2) { for (size_t i = 0; i < f + 2; ++i) s.insert(i); return s; } for (size_t i = 0; i < f + 2; ++i) if (r.coin(0.35)) s.insert(i); return s; }
static DS make(Rng& r, M& m, std::string& ds) {
    int kind = (int)r.below(3); size_t f = r.range(1, 5), q = r.range(1, 4); S lab = labs(r, f);
    if (kind == 0) { V x = data(r, r.coin(0.1) ? r.below(3) : r.below(50)); if (r.coin(0.1)) f = r.range(1, 60); ds = "Vec(" + h::show(x) + ", features " + std::to_string(f) + ", sequence " + std::to_string(q) + ", labels " + show(lab) + ")"; m = mvec(x, f, q, lab); h::desc(ds); return DS(x, f, q, lab); }
    if (kind == 1) {
        DS::Mat x; size_t n = r.coin(0.1) ? 0 : r.below(12); int c = 1; for (size_t i = 0; i < n; ++i) { V v(f + (r.coin(0.2) ? r.below(3) : 0)); for (auto& y : v) y = c++; x.push_back(v); }
        if (r.coin(0.05) && n) x[r.below(n)].clear(); size_t ff = n ? f + 9 : 0; for (auto& v : x) ff = std::min(ff, v.size());
        ds = "Mat("; for (auto& v : x) ds += h::show(v); ds += ", sequence " + std::to_string(q) + ", labels " + show(lab) + ")"; h::desc(ds);
        m.f = ff; m.q = std::min(q, n); m.n = m.q ? n / m.q * m.q : 0; for (size_t i = 0; i < m.n; ++i) m.x.insert(m.x.end(), x[i].begin(), x[i].begin() + (long)ff); m.lab = clip(lab, ff); return DS(x, q, lab);
    }
    DS::Cub x; size_t n = r.coin(0.1) ? 0 : r.below(5); int c = 1; for (size_t i = 0; i < n; ++i) { DS::Mat y; size_t k = q + (r.coin(0.2) ? r.below(3) : 0); for (size_t j = 0; j < k; ++j) { V v(f + (r.coin(0.15) ? r.below(3) : 0)); for (auto& z : v) z = c++; y.push_back(v); } x.push_back(y); }
    size_t qq = n ? q + 9 : 0, ff = n ? f + 9 : 0; for (auto& y : x) { qq = std::min(qq, y.size()); for (auto& v : y) ff = std::min(ff, v.size()); }
    ds = "Cub("; for (auto& y : x) { ds += "{"; for (auto& v : y) ds += h::show(v); ds += "}"; } ds += ", labels " + show(lab) + ")"; h::desc(ds);
    m.f = ff; m.q = qq; m.n = n * qq; for (auto& y : x) for (size_t j = 0; j < qq; ++j) m.x.insert(m.x.end(), y[j].begin(), y[j].begin() + (long)ff); m.lab = clip(lab, ff); return DS(x, lab);
}
static void setseq(M& m, size_t s) { m.q = std::min(s, m.n); m.n = m.q ? m.n / m.q * m.q : 0; m.x.resize(m.n * m.f); }
static void invariant(const DS& d, const std::string& w) { size_t f = d.feature_size(), q = d.sequence_size(), n = d.size(); h::eq(d.data().size(), n * f, w + ": data size = entries * features"); h::check(q == 0 ? n == 0 : n % q == 0, w + ": whole sequences"); auto a = d.label_idx(), b = d.input_idx(); S u(a.begin(), a.end()); u.insert(b.begin(), b.end()); h::eq(u.size(), f, w + ": columns are labels or inputs"); h::eq(a.size() + b.size(), f, w + ": no column is both"); }
HTEST("C17.representation", 8000, 100000) {
    M m; std::string ds; DS d = make(r, m, ds); rep(d, m, "constructed");
    for (int k = 0; k < 6; ++k) {
        switch (r.below(4)) {
        case 0: { size_t s = r.below(6); if (!s && r.coin(0.7)) s = 1; ds += " sequence_size(" + std::to_string(s) + ")"; h::desc(ds); d.sequence_size(s); setseq(m, s); break; }
        case 1: { S l = labs(r, m.f); ds += " label_idx(" + show(l) + ")"; h::desc(ds); d.label_idx(l); m.lab = clip(l, m.f); break; }
        case 2: { size_t a = r.below(m.n + 2), b = r.below(m.n + 3); ds += " subdata(" + std::to_string(a) + "," + std::to_string(b) + ")"; h::desc(ds); if (a <= std::min(b, m.n)) { DS e = d.subdata(a, b); invariant(e, "subdata"); } break; }
        default: { ds += " copy"; h::desc(ds); DS e = d; rep(e, m, "copy"); d = e; } }
        rep(d, m, "after " + ds.substr(ds.size() > 40 ? ds.size() - 40 : 0)); invariant(d, "invariant");
    }
    if (r.coin(0.05)) { DS e; h::desc("default dataset"); invariant(e, "default"); h::check(e.empty() && e.size() == 0, "default dataset is empty"); e.sequence_size(r.below(3)); invariant(e, "default"); e.label_idx({0, 1}); invariant(e, "default"); }
}
HTEST("C18.projections", 5000, 60000) {
    M m; std::string ds; DS d = make(r, m, ds); views(d, m, "constructed", r);
    for (int k = 0; k < 3; ++k) { if (r.coin()) { size_t s = r.range(1, 5); ds += " sequence_size(" + std::to_string(s) + ")"; h::desc(ds); d.sequence_size(s); setseq(m, s); } else { S l = labs(r, m.f); ds += " label_idx(" + show(l) + ")"; h::desc(ds); d.label_idx(l); m.lab = clip(l, m.f); } views(d, m, "after a change", r); }
}
static M msub(const M& m, size_t a, size_t b) { b = std::min(b, m.n); V x(m.x.begin() + (long)(a * m.f), m.x.begin() + (long)(b * m.f)); return mvec(x, m.f, m.q, m.lab); }
HTEST("C19.subdata", 6000, 80000) {
    M m; std::string ds; DS d = make(r, m, ds); if (r.coin(0.3)) { size_t s = r.range(1, 4); d.sequence_size(s); setseq(m, s); } size_t a = r.below(m.n + 2), b = r.below(m.n + 4); if (r.coin(0.1)) b = (size_t)-1; ds += " subdata(" + std::to_string(a) + "," + std::to_string(b) + ")"; h::desc(ds);
    if (!m.f) return; bool bad = a > std::min(b, m.n), thrown = false; try { DS e = d.subdata(a, b); if (!bad) rep(e, msub(m, a, b), "subdata"); } catch (const std::runtime_error&) { thrown = true; } h::eq(thrown, bad, "subdata rejected");
    double p = r.pick(std::vector<double>{-1, 0, 0.1, 0.25, 0.3, 0.5, 0.7, 0.999, 1, 1.5, r.unit()}); double c = std::min(1.0, std::max(0.0, p)); ds += " perc " + std::to_string(p); h::desc(ds);
    if (m.n && m.f) { size_t to = (size_t)(c * (double)m.n); rep(d.subdata(p), msub(m, 0, to), "subdata(perc)"); size_t t2 = m.q ? (size_t)(c * (double)m.n / (double)m.q) * m.q : 0; auto sp = d.split(p); rep(sp.training_set, msub(m, 0, t2), "training set"); rep(sp.testing_set, msub(m, t2, m.n), "testing set"); h::eq(sp.training_set.size() + sp.testing_set.size(), m.n, "split loses no entry"); V x = sp.training_set.data(); auto& y = sp.testing_set.data(); x.insert(x.end(), y.begin(), y.end()); same(x, m.x, "split keeps every value"); }
    rep(d, m, "the source afterwards");
}
HTEST("C19.shuffle", 3000, 40000) {
    M m; std::string ds; DS d = make(r, m, ds); unsigned seed = (unsigned)r.next(); ds += " shuffle seed " + std::to_string(seed); h::desc(ds); DS& ret = d.shuffle(RneType(seed)); h::check(&ret == &d, "returns the dataset"); invariant(d, "shuffled"); h::eq(d.size(), m.n, "entries"); h::eq(d.feature_size(), m.f, "features"); h::eq(d.sequence_size(), m.q, "sequence"); h::check(d.label_idx() == vs(m.lab), "labels");
    std::multiset<V> a, b; std::vector<size_t> all; for (size_t c = 0; c < m.f; ++c) all.push_back(c); for (size_t k = 0; k < m.n; ++k) { a.insert(proj(m, k, all)); b.insert(d.entry(k)); } h::check(a == b, "shuffled rows are not the same rows");
}
HTEST("C19.concatenate", 6000, 80000) {
    size_t s1 = r.range(1, 3), q = r.range(1, 3), f = r.range(1, 4), s2 = r.range(1, 3), q2 = q, f2 = f; size_t axis = r.below(4); if (axis == 1) { s2 = s1; q2 = r.range(1, 3); } if (axis == 2) { s2 = s1; f2 = r.range(1, 4); } if (r.coin(0.1)) f2 = r.range(1, 4); if (r.coin(0.1)) q2 = r.range(1, 3); if (r.coin(0.1)) s2 = r.range(1, 3);
    S l1 = clip(labs(r, f), f), l2 = r.coin(0.7) ? clip(l1, f2) : clip(labs(r, f2), f2); V x = data(r, s1 * q * f), y = data(r, s2 * q2 * f2); DS a(x, f, q, l1), b(y, f2, q2, l2);
    h::desc("(" + std::to_string(s1) + "," + std::to_string(q) + "," + std::to_string(f) + ")" + show(l1) + h::show(x) + " + (" + std::to_string(s2) + "," + std::to_string(q2) + "," + std::to_string(f2) + ")" + show(l2) + h::show(y) + " axis " + std::to_string(axis));
    bool bad = axis > 2 || (axis != 2 && l1 != l2) || (axis != 0 && s1 != s2) || (axis != 1 && q != q2) || (axis != 2 && f != f2), thrown = false;
    try { DS c = DS::concatenate(a, b, axis); if (!bad) {
        size_t n0 = s1 + (axis == 0 ? s2 : 0), n1 = q + (axis == 1 ? q2 : 0), n2 = f + (axis == 2 ? f2 : 0); V w;
        for (size_t i = 0; i < n0; ++i) for (size_t j = 0; j < n1; ++j) for (size_t k = 0; k < n2; ++k) { bool fst = axis == 0 ? i < s1 : axis == 1 ? j < q : k < f; if (fst) w.push_back(x[(i * q + j) * f + k]); else { size_t ii = axis == 0 ? i - s1 : i, jj = axis == 1 ? j - q : j, kk = axis == 2 ? k - f : k; w.push_back(y[(ii * q2 + jj) * f2 + kk]); } }
        M m; m.f = n2; m.q = n1; m.n = n0 * n1; m.x = w; m.lab = axis == 2 ? S() : l1; rep(c, m, "concatenated"); } } catch (const std::runtime_error&) { thrown = true; }
    h::eq(thrown, bad, "concatenation rejected");
    if (r.coin(0.2)) { DS e; M m = mvec(x, f, q, l1); rep(DS::concatenate(a, e, r.below(3)), m, "with an empty dataset"); rep(DS::concatenate(e, a, r.below(3)), m, "with an empty dataset"); }
}
struct Gen : DatasetParser { V x; size_t f; S lab; V entry(SizeType i) override { return {x.begin() + (long)(i * f), x.begin() + (long)((i + 1) * f)}; } SizeType entries_amount() const override { return x.size() / f; } SizeType feature_size() const override { return f; } S labels_idx() const override { return lab; } };
HTEST("C19.parse", 2000, 20000) {
    Gen g; g.f = r.range(1, 4); size_t rows = r.below(8); g.x.resize(g.f * rows); for (auto& v : g.x) v = (double)r.below(4); g.lab = clip(labs(r, g.f), g.f); size_t q = r.range(1, 3); auto e = r.coin() ? DatasetParser::LabelEncoding::DEFAULT_ENCODING : DatasetParser::LabelEncoding::ONE_HOT_ENCODING; h::desc(h::show(g.x) + " features " + std::to_string(g.f) + " labels " + show(g.lab));
    DS d = DS::parse(g, e, q); M m = mvec(g.data_to_encoding(e), g.encoding_feature_size(e), q, g.encoding_labels_idx(e)); rep(d, m, "parsed");
}
HTEST("C20.columns", 5000, 60000) {
    M m; std::string ds; DS d = make(r, m, ds); h::desc(ds + " min_max"); V w = m.x;
    for (size_t c = 0; c < m.f && m.n; ++c) { double lo = m.x[c], hi = m.x[c]; for (size_t k = 0; k < m.n; ++k) { lo = std::min(lo, m.x[k * m.f + c]); hi = std::max(hi, m.x[k * m.f + c]); } for (size_t k = 0; k < m.n; ++k) w[k * m.f + c] = (m.x[k * m.f + c] - lo) / (hi - lo); }
    if (m.n == 0 && m.f) return;
    DS& ret = d.min_max_normalization(); h::check(&ret == &d, "returns the dataset"); M e = m; e.x = w; rep(d, e, "normalised");
    for (size_t c = 0; c < m.f; ++c) for (size_t k = 0; k < m.n; ++k) { double v = d.data()[k * m.f + c]; h::check(std::isnan(v) || (v >= 0 && v <= 1), "normalised value outside [0,1]"); }
}
HTEST("C20.range", 5000, 60000) {
    M m; std::string ds; DS d = make(r, m, ds); double lo = (double)r.range(-5, 5), hi = r.coin(0.1) ? lo : (double)r.range(-5, 9); std::vector<SizeType> idx; std::set<size_t> cols; if (m.f && r.coin(0.6)) for (size_t k = r.range(1, 3); k; --k) { size_t c = r.below(m.f); if (cols.insert(c).second) idx.push_back(c); }
    if (idx.empty()) for (size_t c = 0; c < m.f; ++c) cols.insert(c);
    h::desc(ds + " min " + std::to_string(lo) + " max " + std::to_string(hi) + " columns " + h::show(idx)); bool thrown = false;
    try { d.min_max_normalization(lo, hi, idx); } catch (const std::runtime_error&) { thrown = true; } h::eq(thrown, lo == hi, "equal bounds rejected");
    M e = m; if (!thrown) for (auto c : cols) for (size_t k = 0; k < m.n; ++k) e.x[k * m.f + c] = (m.x[k * m.f + c] - lo) / (hi - lo); rep(d, e, "normalised");
}
HMAIN
