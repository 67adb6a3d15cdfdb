#define HARG hn
#include "h.hpp"
#include <filesystem>
#include "parser/csv.hpp"
#include <algorithm>
using namespace EdgeLearning;
using h::Rng;
using TT = TypeChecker::Type;
using V = std::vector<std::string>;
static void put(const std::string& f, const std::string& b) { std::ofstream o(f, std::ios::binary); o.write(b.data(), (std::streamsize)b.size()); }
static V split(const std::string& s, char sep) { V v(1); for (char c : s) if (c == sep) v.push_back(""); else v.back() += c; return v; }     // independent field oracle
static V lines(const std::string& s) { V v; std::string c; bool open = false; for (char x : s) if (x == '\n') { v.push_back(c); c.clear(); open = false; } else { c += x; open = true; } if (open) v.push_back(c); return v; }
static TT ty(const std::string& s) { return TypeChecker::parse(s); }
static std::string num(Rng& r) { switch (r.below(5)) { case 0: return std::to_string(r.range(-99, 99)); case 1: { std::string s = std::to_string(r.range(-999, 999)) + "." + std::to_string(r.below(1000)); return s; } case 2: return std::to_string(r.below(10)) + "e" + std::to_string(r.range(-9, 9)); default: return std::to_string(r.below(5)); } }
static std::string cell(Rng& r, int mode, char sep) {
    if (mode == 0) return num(r);
    switch (r.below(7)) { case 0: return ""; case 1: return num(r); case 2: return r.coin() ? "true" : "false"; case 3: return "\"q\""; case 4: return "x y"; default: { std::string s; for (size_t k = r.below(5); k; --k) { char c = (char)r.range(33, 126); if (c != sep) s += c; } return s; } }
}
struct F { std::string text; V ls; char sep; size_t cols; std::string show() const { return "sep=" + std::string(1, sep) + " file=" + h::show(text); } };
static F file(Rng& r, size_t minrows = 1, bool ragged = true) {
    F f; f.sep = r.coin(0.6) ? ',' : r.pick(std::vector<char>{';', '\t', '|', ' '}); f.cols = r.range(1, 5); size_t n = minrows + (r.coin(0.15) ? 0 : r.below(7)); int mode = (int)r.below(2);
    for (size_t i = 0; i < n; ++i) { size_t k = f.cols; if (ragged && i && r.coin(0.12)) k = r.below(f.cols + 2); std::string l; for (size_t j = 0; j < k; ++j) { if (j) l += f.sep; l += i == 0 ? "h" + std::to_string(j) : cell(r, mode, f.sep); } if (i + 1 == n && l.empty() && r.coin()) l = "0"; f.text += l; if (i + 1 < n || r.coin(0.75) || l.empty()) f.text += '\n'; }
    f.ls = lines(f.text); f.cols = split(f.ls[0], f.sep).size(); return f;
}
static std::vector<TT> coltypes(const F& f) { std::string l = f.ls.size() > 1 ? f.ls[1] : ""; V s = split(l, f.sep); std::vector<TT> t; for (size_t j = 0; j < f.cols; ++j) t.push_back(ty(j < s.size() ? s[j] : "")); return t; }
static void rowis(const CSVRow& row, const F& f, size_t k, size_t idx, const std::string& w) {
    if (row.line() != f.ls[k]) h::fail(w + ": line " + h::show(row.line()) + ", expected " + h::show(f.ls[k]));
    h::eq(row.idx(), idx, w + ": row index"); h::eq(row.size(), f.cols, w + ": columns");
}
static size_t anyidx(Rng& r, size_t n) { switch (r.below(6)) { case 0: return n * r.below(4) + r.below(n); case 1: return r.below(2); case 2: return n + r.below(2); case 3: return (size_t)r.next(); default: return r.below(n); } }
HTEST("C01.random_access", 4000, 50000) {
    F f = file(r); put("f.csv", f.text); size_t n = f.ls.size(); std::vector<TT> tys = coltypes(f); int given = (int)r.below(7);
    std::vector<TT> types = {TT::AUTO}; if (given == 1) types = {}; else if (given == 2) types.assign(f.cols + 1, TT::INT); else if (given == 3) { types.assign(f.cols, TT::STRING); tys = types; } else if (given == 4) { types.assign(f.cols, TT::STRING); types[r.below(f.cols)] = TT::AUTO; } else if (given == 5) { types.assign(f.cols, TT::AUTO); } else if (given == 6) { types.clear(); for (size_t j = 0; j < f.cols; ++j) types.push_back(r.pick(std::vector<TT>{TT::INT, TT::FLOAT, TT::STRING, TT::BOOL, TT::NONE})); tys = types; }
    h::desc(f.show() + " types given " + std::to_string(given)); CSV c("f.csv", types, f.sep, {0});
    std::string ds = f.show() + " ops:";
    auto meta = [&] { h::eq(c.rows_size(), n, "rows"); h::eq(c.cols_size(), f.cols, "columns"); h::eq(c.entries_amount(), n - 1, "entries"); h::eq(c.feature_size(), f.cols, "features"); rowis(c.header(), f, 0, 0, "header"); h::check(c.types() == tys, "column types"); };
    meta();
    for (int k = 0, e = (int)r.range(1, 12); k < e; ++k) {
        size_t i = anyidx(r, n); ds += " " + std::to_string(i); h::desc(ds);
        CSVRow row = c[i]; rowis(row, f, i % n, i % n, "row " + std::to_string(i)); h::check(c.types() == tys, "column types changed");
        h::check(row == c[i % n] && !(row != c[i % n]), "row equals itself");
        if (r.coin(0.3)) meta();
        if (r.coin(0.2) && n > 1) { size_t j = r.below(n - 1); auto v = c.entry(j); h::eq(v.size(), f.cols, "entry size"); V s = split(f.ls[j + 1], f.sep); for (size_t q = 0; q < f.cols; ++q) { double d = 0; std::istringstream is(q < s.size() ? s[q] : ""); is >> d; h::check(h::same(v[q], d), "entry value"); } }
    }
}
HTEST("C01.missing", 30, 100) { h::desc("missing file"); bool t = false; try { CSV c(r.coin() ? "nofile.csv" : ""); } catch (const std::runtime_error&) { t = true; } h::check(t, "a missing file is not rejected with runtime_error"); }
HTEST("C01.big", 6, 40) {
    F f; f.sep = ','; size_t rows = r.range(1000, 4000); for (size_t i = 0; i < rows; ++i) f.text += std::to_string(i) + "," + std::string(r.below(60), 'x') + "\n"; f.ls = lines(f.text); f.cols = 2; put("f.csv", f.text); CSV c("f.csv"); h::desc("rows=" + std::to_string(rows));
    for (int k = 0; k < 40; ++k) { size_t i = r.below(3 * rows); CSVRow x = c[i]; rowis(x, f, i % rows, i % rows, "row " + std::to_string(i)); }
}
template <class T> static std::vector<T> nums(const V& s, size_t cols) { std::vector<T> v; for (size_t j = 0; j < cols; ++j) { T d{}; std::istringstream is(j < s.size() ? s[j] : ""); is >> d; v.push_back(d); } return v; }
HTEST("C02.row_views", 8000, 100000) {
    char sep = r.coin(0.6) ? ',' : r.pick(std::vector<char>{';', '\t', '|', ' '}); size_t k = r.range(1, 6); int mode = (int)r.below(2); std::string line; for (size_t j = 0; j < k; ++j) { if (j) line += sep; line += r.coin(0.15) ? "" : cell(r, mode, sep); }
    V s = split(line, sep); size_t cols = s.size(), want = cols; int how = (int)r.below(4); if (how == 1) cols = want + r.range(1, 3); if (how == 2) cols = r.below(want + 1);
    std::vector<TT> types = {TT::AUTO}; int tm = (int)r.below(5); if (tm == 1) types = {}; if (tm == 4 && cols) { types.assign(cols, TT::FLOAT); types[r.below(cols)] = TT::AUTO; } if (tm == 2) types.assign(cols, TT::FLOAT); if (tm == 3) types.assign(cols + 2, TT::BOOL);
    h::desc("line=" + h::show(line) + " sep=" + std::string(1, sep) + " cols=" + std::to_string(cols) + " types=" + std::to_string(tm)); h::dirty_stack(0xA5);
    size_t ri = r.below(1000);
    std::unique_ptr<CSVRow> rp(how == 3 ? new CSVRow(line, ri, types, sep) : new CSVRow(line, ri, cols, types, sep)); CSVRow& row = *rp;
    auto field = [&](size_t j) { return j < s.size() ? s[j] : std::string(); };
    h::eq(row.size(), cols, "columns"); h::eq(row.idx(), ri, "row index"); h::check(row.line() == line && std::string(row) == line, "line"); h::eq(row.empty(), cols == 0, "empty"); { std::ostringstream o; o << row; h::check(o.str() == line, "printed row"); }
    h::eq(row.types().size(), tm == 2 ? cols : cols, "types"); for (size_t j = 0; j < cols; ++j) h::check(row.types()[j] == (tm == 2 ? TT::FLOAT : ty(field(j))), "type of column " + std::to_string(j));
    V a = std::vector<std::string>(row); h::eq(a.size(), cols, "text fields"); for (size_t j = 0; j < cols; ++j) if (a[j] != field(j)) h::fail("text field " + std::to_string(j) + ": " + h::show(a[j]) + ", expected " + h::show(field(j)));
    if (r.coin()) a = row.to_vec<std::string>(); for (size_t j = 0; j < cols; ++j) h::check(a[j] == field(j), "to_vec text field");
    std::vector<CSVField> b = row; h::eq(b.size(), cols, "fields"); for (size_t j = 0; j < cols; ++j) { h::check(b[j].as<std::string>() == field(j), "field text " + std::to_string(j)); h::eq(b[j].idx(), j, "field index"); h::check(b[j].type() == row.types()[j], "field type"); }
    auto d = std::vector<double>(row); auto wd = nums<double>(s, cols); h::check(d == wd, "numeric fields: " + h::show(d) + ", expected " + h::show(wd));
    auto iv = row.to_vec<int>(); auto wi = nums<int>(s, cols); h::check(iv == wi, "integer fields: " + h::show(iv) + ", expected " + h::show(wi));
    for (size_t j = 0; j < cols + 2; ++j) {
        bool thrown = false; try { CSVField c = row[j]; h::check(j < cols && j < s.size(), "row[" + std::to_string(j) + "] answers for a field that is not there"); h::check(c.as<std::string>() == s[j], "row[" + std::to_string(j) + "] = " + h::show(c.as<std::string>()) + ", expected " + h::show(s[j])); h::eq(c.idx(), j, "index"); h::check(c.type() == row.types()[j], "type"); h::check(h::same(c.as<double>(), wd[j]), "row[j] as double"); h::eq(c.as<bool>(), s[j] == "true" || s[j] == "1", "as bool"); int q = -7; c.as(q); CSVField e = c; h::check(e.as<std::string>() == s[j] && e.idx() == j, "copied field"); }
        catch (const std::runtime_error&) { thrown = true; }
        h::eq(thrown, !(j < cols && j < s.size()), "row[" + std::to_string(j) + "] rejected");
    }
    CSVRow cp(row); h::check(cp.line() == line && cp.size() == cols && cp.idx() == ri && std::vector<std::string>(cp) == std::vector<std::string>(row), "copied row"); h::check(cp == row && !(cp != row), "copy equals");
    std::vector<TT> t2 = {TT::AUTO}; CSVRow o("other" + line, 3, t2, sep); h::check(o != row && !(o == row), "different rows"); o = row; h::check(o.line() == line && o.size() == cols && o.idx() == ri && std::vector<std::string>(o) == std::vector<std::string>(row) && o.types() == row.types(), "assigned row");
}
HTEST("C02.file_views", 4000, 50000) {
    F f = file(r); put("f.csv", f.text); size_t n = f.ls.size(); h::desc(f.show()); h::dirty_stack(0x5A); CSV c("f.csv", {TT::AUTO}, f.sep); for (int k = (int)r.below(3); k; --k) c[r.below(2 * n)];
    V ls = std::vector<std::string>(c); h::check(ls == f.ls, "lines: " + h::show(ls)); 
    std::vector<CSVRow> rows = c; h::eq(rows.size(), n, "rows"); for (size_t i = 0; i < n; ++i) rowis(rows[i], f, i, i, "row view");
    auto mat = c.to_mat<double>(); auto vec = c.to_vec<double>(); h::eq(mat.size(), n, "matrix rows"); h::eq(vec.size(), n * f.cols, "flat size"); auto smat = std::vector<std::vector<std::string>>(c);
    for (size_t i = 0; i < n; ++i) { V s = split(f.ls[i], f.sep); auto w = nums<double>(s, f.cols); h::check(mat[i] == w, "matrix row " + std::to_string(i) + ": " + h::show(mat[i]) + ", expected " + h::show(w)); s.resize(f.cols); h::check(smat[i] == s, "text matrix row " + std::to_string(i)); for (size_t j = 0; j < f.cols; ++j) { h::check(h::same(vec[i * f.cols + j], w[j]), "flat value"); } CSVRow x = c[i]; h::check(std::vector<double>(x) == w, "c[i] values"); if (i) h::check(c.entry(i - 1) == w, "entry"); }
}
HTEST("C03.iterator", 5000, 60000) {
    F f = file(r, 1); put("f.csv", f.text); size_t n = f.ls.size(); h::desc(f.show()); CSV c("f.csv", {TT::AUTO}, f.sep); std::string ds = f.show() + " ops:";
    size_t cnt = 0; for (auto& row : c) { ++cnt; h::check(cnt < n, "iteration runs past the last row"); rowis(row, f, cnt, cnt, "iteration"); } h::eq(cnt, n - 1, "rows visited by begin()..end()");
    size_t start = r.below(n); std::vector<TT> types = coltypes(f); auto t0 = types;
    CSVIterator it("f.csv", start, f.cols, types, f.sep); size_t pos = start; h::check(types == t0, "types changed by the iterator");
    ds += " start" + std::to_string(start);
    for (int k = 0, e = (int)r.range(1, 25); k < e; ++k) {
        int op = (int)r.below(8); h::desc(ds);
        if (op == 0 && pos + 1 < n) { ds += " ++i"; ++it; ++pos; } else if (op == 1 && pos + 1 < n) { ds += " i++"; h::desc(ds); CSVIterator o = it++; h::check(o != it && !(o == it), "i++ moved"); rowis(*o, f, pos, pos, "value of i++"); ++pos; }
        else if (op == 2 && pos > 0) { ds += " --i"; --it; --pos; } else if (op == 3 && pos > 0) { ds += " i--"; h::desc(ds); CSVIterator o = it--; rowis(*o, f, pos, pos, "value of i--"); --pos; }
        else if (op == 4) { ds += " *"; h::desc(ds); rowis(*it, f, pos, pos, "*it"); } else if (op == 5) { ds += " ->"; h::desc(ds); h::check(it->line() == f.ls[pos], "it->line()"); h::eq(it->idx(), pos, "it->idx()"); }
        else if (op == 6) { ds += " copy"; h::desc(ds); CSVIterator o(it); h::check(o == it && !(o != it), "copy equal"); rowis(*o, f, pos, pos, "*copy"); if (pos + 1 < n) { ++o; h::check(o != it, "copy moved"); rowis(*o, f, pos + 1, pos + 1, "*++copy"); } rowis(*it, f, pos, pos, "*it after the copy moved"); }
        else if (op == 7) { for (size_t q = r.below(4); q; --q) { if (r.coin() && pos + 1 < n) { ds += " ++"; ++it; ++pos; } else if (pos > 0) { ds += " --"; --it; --pos; } } }
    }
    h::desc(ds); rowis(*it, f, pos, pos, "*it at the end"); h::check(types == t0, "types changed by iteration");
    if (n > 1) { CSVIterator b = c.begin(); rowis(*b, f, 1, 1, "*begin()"); CSVIterator e = c.end(); --e; rowis(*e, f, n - 1, n - 1, "*--end()"); }
}
HMAIN
