CV = 'source/parser/csv.hpp'
W = r"""
#include "parser/csv.hpp"
#include <fstream>
using namespace EdgeLearning;
static void put(const char* t) { std::ofstream f("f.csv"); f << t; }
"""
BUGS = [
 dict(id='c01-skip-header', property='C01', file=CV, edits=[("for (std::size_t i = 0; i < idx; ++i)\n        {\n            file.ignore(", "file.seekg(static_cast<std::streamoff>(_row_header._line.size() + 1));\n        for (std::size_t i = 1; i < idx; ++i)\n        {\n            file.ignore(")], needs='asking for row 0 (or a multiple of the row count) by index', breaks='the header row is answered with the first data line',
  demo=W + r"""
int main() { put("a,b\n1,2\n3,4\n"); CSV c("f.csv"); c[2]; if (c[1].line() != "1,2") return 3; return c[0].line() == "a,b" && c[3].line() == "a,b" ? 0 : 1; }
"""),
 dict(id='c01-auto-first', property='C01', file=CV, edits=[("        if((std::find(types.begin(), types.end(), TypeChecker::Type::AUTO) != types.end())\n            || types.size() == 0\n            || types.size() != _cols_amount)", "        if(types.size() != _cols_amount\n            || types.front() == TypeChecker::Type::AUTO)")], needs='a complete type list with AUTO anywhere but first', breaks='the column types are taken from the header texts instead of the first data line',
  demo=W + r"""
int main() { put("a,b\n1,2.5\n3,4\n"); using T = TypeChecker::Type; CSV c("f.csv", {T::INT, T::AUTO}); return c.types() == std::vector<T>{T::INT, T::FLOAT} ? 0 : 1; }
"""),
 dict(id='c02-stale-field', property='C02', file=CV, edits=[("        ret.resize(_cols_amount);\n        std::stringstream ss{_line};\n        for (std::size_t i = 0; i < _cols_amount; ++i)\n        {\n            std::string s;\n", "        ret.resize(_cols_amount);\n        std::stringstream ss{_line};\n        std::string s;\n        for (std::size_t i = 0; i < _cols_amount; ++i)\n        {\n")], needs='a row with fewer fields than columns, read as texts', breaks='missing fields repeat the last field of the row instead of being empty',
  demo=W + r"""
int main() { using T = TypeChecker::Type; std::vector<T> t{T::INT, T::INT, T::INT}; CSVRow r("1,2", 1, 3, t, ','); std::vector<std::string> v(r); return v == std::vector<std::string>{"1", "2", ""} ? 0 : 1; }
"""),
 dict(id='c02-blank-line', property='C02', file=CV, edits=[("            auto line_vec = std::vector<T>(", "            if (line.empty()) continue;\n            auto line_vec = std::vector<T>(")], needs='a file with an empty line, read as one flat vector', breaks='the values of later rows move to the places of earlier ones',
  demo=W + r"""
int main() { put("a\n\n7\n"); using T = TypeChecker::Type; CSV c("f.csv", {T::INT}); auto v = c.to_vec<double>(); return v.size() == 3 && v[2] == 7 && v[1] == 0 ? 0 : 1; }
"""),
 dict(id='c02-long-types', property='C02', file=CV, edits=[("            || types.size() == 0\n            || types.size() != cols_amount) ", "            || types.size() < cols_amount) ")], needs='a type list longer than the number of columns (also any list for a row of no columns)', breaks='a list of another length is kept instead of being replaced by the types of the fields',
  demo=W + r"""
int main() { using T = TypeChecker::Type; std::vector<T> t{T::STRING, T::STRING, T::STRING}; CSVRow r("1,2", 1, 2, t, ','); return r.types().size() == 2 && r.types()[0] == T::INT ? 0 : 1; }
"""),
 dict(id='c03-step-back', property='C03', file=CV, edits=[("if (_req_row_idx < _row._idx) ", "if (_req_row_idx + 1 < _row._idx) ")], needs='moving back by exactly one row after dereferencing', breaks='the next line of the file is returned under the index of the previous one',
  demo=W + r"""
int main() { put("a\n1\n2\n3\n4\n"); using T = TypeChecker::Type; CSV c("f.csv", {T::INT}); auto i = c.begin(); ++i; ++i; if ((*i).line() != "3") return 3; --i; return (*i).line() == "2" && (*i).idx() == 2 ? 0 : 1; }
"""),
 dict(id='c03-copy-index', property='C03', file=CV, edits=[(", _row{std::string(), 0, obj._row._cols_amount, ", ", _row{std::string(), obj._row._idx, obj._row._cols_amount, ")], needs='copying an iterator that has been dereferenced', breaks='the copy answers with the header line under the index of the row',
  demo=W + r"""
int main() { put("a\n1\n2\n3\n4\n"); using T = TypeChecker::Type; CSV c("f.csv", {T::INT}); auto i = c.begin(); ++i; if ((*i).line() != "2") return 3; CSVIterator j(i); return (*j).line() == "2" ? 0 : 1; }
"""),
]
