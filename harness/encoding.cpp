#define HARG hn
#include "h.hpp"
#include "parser/parser.hpp"
using namespace EdgeLearning;
using h::Rng;
using LE = DatasetParser::LabelEncoding;
struct Gen : DatasetParser {
    std::vector<std::vector<NumType>> rows; size_t f; std::set<SizeType> lab;
    std::vector<NumType> entry(SizeType i) override { return rows.at(i); }
    SizeType entries_amount() const override { return rows.size(); }
    SizeType feature_size() const override { return f; }
    std::set<SizeType> labels_idx() const override { return lab; }
    std::string text() const { std::string s = "features=" + std::to_string(f) + " labels={"; for (auto l : lab) s += std::to_string(l) + " "; s += "} rows="; for (auto& v : rows) s += h::show(v); return s; }
};
static Gen gen(Rng& r, bool allow_empty = true) {
    Gen g; g.f = r.range(1, 7); size_t n = r.below(9); if (!n && !allow_empty) n = 1;
    static const std::vector<double> pool = {0, 1, 2, 3, -1, -2.5, 0.5, 10, 100, 9, 1e300, -1e-300, 255, 7};
    size_t kinds = r.range(1, 8), off = r.below(pool.size());
    for (size_t i = 0; i < n; ++i) { std::vector<NumType> v(g.f); for (auto& x : v) x = r.coin(0.2) ? r.real(50) : pool[(off + r.below(kinds)) % pool.size()]; g.rows.push_back(v); }
    int mode = (int)r.below(6);
    if (mode == 0) g.lab.insert(g.f - 1); else if (mode == 1) g.lab.insert(0); else if (mode == 2) for (size_t i = 0; i < g.f; ++i) g.lab.insert(i); else if (mode == 3) {} else for (size_t i = 0; i < g.f; ++i) if (r.coin(0.4)) g.lab.insert(i);
    return g;
}
static std::vector<double> sorted_unique(const Gen& g, size_t c) { std::vector<double> v; for (auto& r : g.rows) v.push_back(r[c]); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
static std::vector<double> vec(const std::set<NumType>& s) { return {s.begin(), s.end()}; }
static std::vector<size_t> ivec(const std::set<SizeType>& s) { return {s.begin(), s.end()}; }
template <class T> static void same(const std::vector<T>& got, const std::vector<T>& want, const std::string& w) { if (got != want) h::fail(w + ": got " + h::show(got) + ", expected " + h::show(want)); }
HTEST("C11.default", 4000, 60000) {
    Gen g = gen(r); h::desc(g.text());
    std::vector<double> want; for (auto& v : g.rows) want.insert(want.end(), v.begin(), v.end());
    same(g.data_to_encoding(), want, "default encoding"); same(g.data_to_encoding(LE::DEFAULT_ENCODING), want, "default encoding");
    h::eq(g.encoding_feature_size(), g.f, "encoded feature count"); h::eq(g.encoding_feature_size(LE::DEFAULT_ENCODING), g.f, "encoded feature count");
    same(ivec(g.encoding_labels_idx()), ivec(g.lab), "encoded label columns"); same(ivec(g.encoding_labels_idx(LE::DEFAULT_ENCODING)), ivec(g.lab), "encoded label columns");
}
HTEST("C12.unique", 4000, 60000) {
    Gen g = gen(r); h::desc(g.text());
    for (size_t c = 0; c < g.f; ++c) {
        auto u = sorted_unique(g, c); same(vec(g.unique(c)), u, "unique values of column " + std::to_string(c));
        auto m = g.unique_map(c); h::eq(m.size(), u.size(), "map size"); for (size_t k = 0; k < u.size(); ++k) { h::check(m.count(u[k]) == 1, "value missing from the map"); h::eq(m[u[k]], k, "rank of value"); }
    }
}
HTEST("C12.one_hot", 6000, 90000) {
    Gen g = gen(r); h::desc(g.text());
    std::vector<std::vector<double>> us; size_t w = g.f - g.lab.size(), off = w; for (auto l : g.lab) { us.push_back(sorted_unique(g, l)); w += us.back().size(); }
    std::vector<double> want;
    for (auto& v : g.rows) { for (size_t c = 0; c < g.f; ++c) if (!g.lab.count(c)) want.push_back(v[c]); size_t k = 0; for (auto l : g.lab) { for (double u : us[k]) want.push_back(u == v[l] ? 1 : 0); ++k; } }
    h::eq(g.encoding_feature_size(LE::ONE_HOT_ENCODING), w, "encoded feature count");
    std::vector<size_t> li; for (size_t i = off; i < w; ++i) li.push_back(i); same(ivec(g.encoding_labels_idx(LE::ONE_HOT_ENCODING)), li, "encoded label columns");
    same(g.data_to_encoding(LE::ONE_HOT_ENCODING), want, "one hot encoding");
    h::eq(g.data_to_encoding(LE::ONE_HOT_ENCODING).size(), w * g.rows.size(), "encoded size");
}
HTEST("C11.large", 40, 300) {
    Gen g; g.f = r.range(1, 5); size_t N = r.coin(0.1) ? r.range(65530, 66000) : r.range(10, 1200); for (size_t i = 0; i < N; ++i) { g.rows.emplace_back(g.f); for (auto& x : g.rows.back()) x = (double)r.below(1000); }
    h::desc("rows=" + std::to_string(N) + " features=" + std::to_string(g.f));
    auto d = g.data_to_encoding(); h::eq(d.size(), N * g.f, "encoded size"); for (size_t i = 0; i < N * g.f; ++i) if (d[i] != g.rows[i / g.f][i % g.f]) h::fail("value of entry " + std::to_string(i / g.f) + " column " + std::to_string(i % g.f));
}
HTEST("C12.large", 12, 80) {
    Gen g; g.f = 3; size_t N = r.range(300, 1500), kinds = r.range(200, 800); for (size_t i = 0; i < N; ++i) g.rows.push_back({(double)r.below(kinds), r.real(), (double)r.below(5)}); g.lab = {0, 2};
    h::desc("rows=" + std::to_string(N) + " classes<=" + std::to_string(kinds));
    auto u0 = sorted_unique(g, 0), u2 = sorted_unique(g, 2); auto d = g.data_to_encoding(LE::ONE_HOT_ENCODING); size_t w = 1 + u0.size() + u2.size();
    h::eq(d.size(), w * N, "encoded size");
    for (size_t i = 0; i < N; ++i) { h::eq(d[i * w], g.rows[i][1], "feature"); for (size_t k = 0; k < u0.size(); ++k) h::eq(d[i * w + 1 + k], u0[k] == g.rows[i][0] ? 1.0 : 0.0, "one hot"); for (size_t k = 0; k < u2.size(); ++k) h::eq(d[i * w + 1 + u0.size() + k], u2[k] == g.rows[i][2] ? 1.0 : 0.0, "one hot"); }
}
HMAIN
