#include "parser/csv.hpp"
namespace EdgeLearning { namespace drv {
using TT = TypeChecker::Type; using TV = std::vector<TT>; using Strings = std::vector<std::string>;
template <class T> void seen(T&);      // observes the object (given meaning by the contracts)
// rows
inline void row_make(std::string line, std::size_t i, std::size_t cols, TV& types, char sep) { CSVRow r(line, i, cols, types, sep); seen(r); }
inline void row_make_counted(std::string line, std::size_t i, TV& types, char sep) { CSVRow r(line, i, types, sep); seen(r); }
inline void row_make_empty(TV& types, char sep) { CSVRow r(types, sep); seen(r); }
inline void row_copy(const CSVRow& o) { CSVRow r(o); seen(r); }
inline void row_assign(CSVRow& r, const CSVRow& o) { r = o; }
inline CSVField row_at(const CSVRow& r, std::size_t j) { return r[j]; }
inline Strings row_strings(const CSVRow& r) { return std::vector<std::string>(r); }
inline Strings row_tovec_strings(const CSVRow& r) { return r.to_vec<std::string>(); }
inline std::vector<CSVField> row_fields(const CSVRow& r) { return r; }
inline std::vector<double> row_numbers(const CSVRow& r) { return std::vector<double>(r); }
inline std::vector<double> row_tovec_numbers(const CSVRow& r) { return r.to_vec<double>(); }
inline std::vector<int> row_tovec_ints(const CSVRow& r) { return r.to_vec<int>(); }
inline std::string row_text(const CSVRow& r) { return r; }
inline bool row_same(const CSVRow& a, const CSVRow& b) { return a == b; }
inline bool row_differ(const CSVRow& a, const CSVRow& b) { return a != b; }
inline std::size_t row_size(const CSVRow& a) { return a.size(); }
inline bool row_none(const CSVRow& a) { return a.empty(); }
inline std::size_t row_idx(const CSVRow& a) { return a.idx(); }
inline std::string row_line(const CSVRow& a) { return a.line(); }
inline const TV& row_types(const CSVRow& a) { return a.types(); }
inline std::string field_text(const CSVField& f) { return f.as<std::string>(); }
inline double field_number(const CSVField& f) { return f.as<double>(); }
inline TT field_type(const CSVField& f) { return f.type(); }
inline std::size_t field_idx(const CSVField& f) { return f.idx(); }
// files
inline void csv_make(std::string fn, TV types, char sep, std::set<SizeType> labels) { CSV c(fn, types, sep, labels); seen(c); }
inline void csv_make_plain(std::string fn) { CSV c(fn); seen(c); }
inline CSVRow csv_at(CSV& c, std::size_t i) { return c[i]; }
inline std::vector<NumType> csv_entry(CSV& c, std::size_t i) { return c.entry(i); }
inline std::size_t csv_entries(CSV& c) { return c.entries_amount(); }
inline std::size_t csv_features(CSV& c) { return c.feature_size(); }
inline std::set<SizeType> csv_labels(CSV& c) { return c.labels_idx(); }
inline std::size_t csv_rows(CSV& c) { return c.rows_size(); }
inline std::size_t csv_cols(CSV& c) { return c.cols_size(); }
inline const CSVRow& csv_header(CSV& c) { return c.header(); }
inline const TV& csv_types(CSV& c) { return c.types(); }
inline Strings csv_lines(CSV& c) { return std::vector<std::string>(c); }
inline std::vector<CSVRow> csv_rowviews(CSV& c) { return c; }
inline std::vector<std::vector<double>> csv_mat(CSV& c) { return c.to_mat<double>(); }
inline std::vector<std::vector<std::string>> csv_textmat(CSV& c) { return c.to_mat<std::string>(); }
inline std::vector<double> csv_vec(CSV& c) { return c.to_vec<double>(); }
// iterators
inline void it_make(std::string fn, std::size_t i, std::size_t cols, TV& types, char sep) { CSVIterator t(fn, i, cols, types, sep); seen(t); }
inline void it_copy(const CSVIterator& o) { CSVIterator t(o); seen(t); }
inline const CSVRow& it_row(CSVIterator& t) { return *t; }
inline CSVRow* it_arrow(CSVIterator& t) { return t.operator->(); }
inline void it_inc(CSVIterator& t) { ++t; }
inline void it_dec(CSVIterator& t) { --t; }
inline void it_postinc(CSVIterator& t) { CSVIterator o(t++); seen(o); }
inline void it_postdec(CSVIterator& t) { CSVIterator o(t--); seen(o); }
inline bool it_same(const CSVIterator& a, const CSVIterator& b) { return a == b; }
inline bool it_differ(const CSVIterator& a, const CSVIterator& b) { return a != b; }
inline void it_begin(CSV& c) { CSVIterator t = c.begin(); seen(t); }
inline void it_end(CSV& c) { CSVIterator t = c.end(); seen(t); }
inline Strings csv_walk(CSV& c) { Strings o; for (auto& row : c) o.push_back(row.line()); return o; }
} }
