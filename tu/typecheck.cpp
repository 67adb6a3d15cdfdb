#include "parser/type_checker.hpp"
namespace EdgeLearning { namespace drv {
using TT = TypeChecker::Type;
inline TT parse(const std::string& s) { return TypeChecker::parse(s); }
inline TT call(const TypeChecker& t, const std::string& s) { return t(s); }
inline bool isint(const std::string& s) { return TypeChecker::is_int(s); }
inline bool isfloat(const std::string& s) { return TypeChecker::is_float(s); }
inline bool isbool(const std::string& s) { return TypeChecker::is_bool(s); }
inline bool isstring(const std::string& s) { return TypeChecker::is_string(s); }
inline std::vector<TT> parsev(const std::vector<std::string>& s) { return TypeChecker::parse(s); }
inline std::vector<TT> callv(const TypeChecker& t, const std::vector<std::string>& s) { return t(s); }
inline bool same(const std::vector<TT>& a, const std::vector<TT>& b) { return EdgeLearning::operator==(a, b); }
inline bool differ(const std::vector<TT>& a, const std::vector<TT>& b) { return EdgeLearning::operator!=(a, b); }
inline bool tobool(const TypeChecker& t, const std::string& s, bool& r) { return t(s, r); }
inline bool tostr(const TypeChecker& t, const std::string& s, std::string& r) { return t(s, r); }
inline std::string frombool(const TypeChecker& t, bool b) { return t(b); }
inline std::string fromint(const TypeChecker& t, int b) { return t(b); }
inline std::string fromdouble(const TypeChecker& t, double b) { return t(b); }
} }
