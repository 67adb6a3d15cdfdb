TC = 'source/parser/type_checker.hpp'
BUGS = [
 dict(id='c04-leading-zeros', property='C04', file=TC, edits=[('(0|[1-9][0-9]*)$"', '([0-9]|[1-9][0-9]*|0[0-9]*)$"')], needs='a number text with leading zeros such as 007', breaks='zero-padded numbers are typed INT instead of FLOAT',
  demo=r"""
#include "parser/type_checker.hpp"
using namespace EdgeLearning;
int main() { using T = TypeChecker::Type; if (TypeChecker::parse("007") != T::FLOAT || TypeChecker::parse("-00") != T::FLOAT) return 1; return TypeChecker::parse("70") == T::INT && TypeChecker::parse("0") == T::INT ? 0 : 1; }
"""),
 dict(id='c04-exponent-sign', property='C04', file=TC, edits=[('([eE][-+]?[0-9]+)?$"', '([eE](-|[+]?)[0-9]{1,3})?$"')], needs='a number with an exponent of more than three digits (zero padded, for instance)', breaks='numbers with long exponents become STRING',
  demo=r"""
#include "parser/type_checker.hpp"
using namespace EdgeLearning;
int main() { using T = TypeChecker::Type; return TypeChecker::parse("1e0005") == T::FLOAT && TypeChecker::parse("1e-5") == T::FLOAT ? 0 : 1; }
"""),
 dict(id='c04-prefix-equal', property='C04', file=TC, edits=[('if (lhs.size() != rhs.size()) return false;', 'if (lhs.size() > rhs.size()) return false;')], needs='type lists of which the first is a proper prefix of the second', breaks='a prefix compares equal to the longer list',
  demo=r"""
#include "parser/type_checker.hpp"
using namespace EdgeLearning;
int main() { using T = TypeChecker::Type; std::vector<T> a{T::INT}, b{T::INT, T::BOOL}; return EdgeLearning::operator==(a, b) || !EdgeLearning::operator!=(a, b) ? 1 : 0; }
"""),
]
