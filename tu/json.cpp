#include "parser/json.hpp"
namespace EdgeLearning { namespace drv {
using Items = std::vector<JsonItem>; using Dict = std::map<std::string, JsonItem>;
template <class T> void seen(T&);      // observes the object (given meaning by the contracts)
// copies
inline void item_make() { JsonItem x; seen(x); }
inline void item_copy(const JsonItem& o) { JsonItem x(o); seen(x); }
inline void item_of_leaf(const JsonLeaf& o) { JsonItem x(o); seen(x); }
inline void item_of_list(const JsonList& o) { JsonItem x(o); seen(x); }
inline void item_of_dict(const JsonDict& o) { JsonItem x(o); seen(x); }
inline void item_of_items(Items o) { JsonItem x(o); seen(x); }
inline void item_of_map(Dict o) { JsonItem x(o); seen(x); }
inline void item_of_text(std::string o) { JsonItem x(o); seen(x); }
inline void item_of_bool(bool o) { JsonItem x(o); seen(x); }
inline void item_of_int(int o) { JsonItem x(o); seen(x); }
inline void item_of_long(long o) { JsonItem x(o); seen(x); }
inline void item_of_ulong(unsigned long o) { JsonItem x(o); seen(x); }
inline void item_of_double(double o) { JsonItem x(o); seen(x); }
inline void item_assign(JsonItem& a, const JsonItem& b) { a = b; }
inline void list_copy(const JsonList& o) { JsonList x(o); seen(x); }
inline void dict_copy(const JsonDict& o) { JsonDict x(o); seen(x); }
inline void list_of_items(Items o) { JsonList x(o); seen(x); }
inline void dict_of_map(Dict o) { JsonDict x(o); seen(x); }
// equality
inline bool item_eq(const JsonItem& a, const JsonItem& b) { return a == b; }
inline bool item_ne(const JsonItem& a, const JsonItem& b) { return a != b; }
inline bool obj_eq(const JsonObject& a, const JsonObject& b) { return a == b; }
inline bool obj_ne(const JsonObject& a, const JsonObject& b) { return a != b; }
inline bool leaf_eq(const JsonLeaf& a, const JsonLeaf& b) { return a == b; }
inline bool leaf_ne(const JsonLeaf& a, const JsonLeaf& b) { return a != b; }
inline bool list_eq(const JsonList& a, const JsonList& b) { return a == b; }
inline bool list_ne(const JsonList& a, const JsonList& b) { return a != b; }
inline bool dict_eq(const JsonDict& a, const JsonDict& b) { return a == b; }
inline bool dict_ne(const JsonDict& a, const JsonDict& b) { return a != b; }
// accessors
inline JsonItem& item_idx(JsonItem& a, std::size_t i) { return a[i]; }
inline JsonItem& item_idx_int(JsonItem& a, int i) { return a[i]; }
inline JsonItem& item_key(JsonItem& a, std::string k) { return a[k]; }
inline const JsonItem& item_at(const JsonItem& a, std::size_t i) { return a.at(i); }
inline const JsonItem& item_at_key(const JsonItem& a, std::string k) { return a.at(k); }
inline void item_append(JsonItem& a, JsonItem b) { a.append(b); }
inline unsigned long item_size(const JsonItem& a) { return a.size(); }
inline const JsonObject& item_value(const JsonItem& a) { return a.value(); }
inline std::string item_text(const JsonItem& a) { return std::string(a); }
inline bool item_as_bool(const JsonItem& a) { return a.as<bool>(); }
inline int item_as_int(const JsonItem& a) { return a.as<int>(); }
inline double item_as_double(const JsonItem& a) { return a.as<double>(); }
inline std::string item_as_text(const JsonItem& a) { return a.as<std::string>(); }
inline std::vector<double> item_as_vec(const JsonItem& a) { return a.as_vec<double>(); }
inline std::vector<std::string> item_as_texts(const JsonItem& a) { return a.as_vec<std::string>(); }
inline std::map<std::string, double> item_as_map(const JsonItem& a) { return a.as_map<double>(); }
inline std::vector<double> list_as(const JsonList& a) { return a.as<double>(); }
inline std::map<std::string, double> dict_as(const JsonDict& a) { return a.as<double>(); }
inline JsonItem& list_idx(JsonList& a, std::size_t i) { return a[i]; }
inline const JsonItem& list_at(const JsonList& a, std::size_t i) { return a.at(i); }
inline void list_append(JsonList& a, JsonItem b) { a.append(b); }
inline unsigned long list_size(const JsonList& a) { return a.size(); }
inline bool list_empty(const JsonList& a) { return a.empty(); }
inline JsonItem& dict_key(JsonDict& a, std::string k) { return a[k]; }
inline const JsonItem& dict_at(const JsonDict& a, std::string k) { return a.at(k); }
inline unsigned long dict_size(const JsonDict& a) { return a.size(); }
inline bool dict_empty(const JsonDict& a) { return a.empty(); }
inline void list_of_ints(std::vector<int> o) { JsonList x(o); seen(x); }
inline void list_of_doubles(std::vector<double> o) { JsonList x(o); seen(x); }
inline void list_of_texts(std::vector<std::string> o) { JsonList x(o); seen(x); }
inline void dict_of_ints(std::map<std::string, int> o) { JsonDict x(o); seen(x); }
inline void dict_of_texts(std::map<std::string, std::string> o) { JsonDict x(o); seen(x); }
inline void leaf_of_text(const std::string& o) { JsonLeaf x(o); seen(x); }
inline void leaf_of_bool(bool o) { JsonLeaf x(o); seen(x); }
inline void leaf_of_int(int o) { JsonLeaf x(o); seen(x); }
inline void leaf_of_double(double o) { JsonLeaf x(o); seen(x); }
inline void leaf_set_bool(JsonLeaf& x, bool o) { x.value(o); }
inline std::string leaf_text(const JsonLeaf& a) { return std::string(a); }
inline bool leaf_as_bool(const JsonLeaf& a) { return a.as<bool>(); }
inline double leaf_as_double(const JsonLeaf& a) { return a.as<double>(); }
inline int leaf_as_int(const JsonLeaf& a) { return a.as<int>(); }
inline const TypeChecker::Type& leaf_type(const JsonLeaf& a) { return a.type(); }
// writing
inline void item_write(std::ostream& o, const JsonItem& a) { o << a; }
inline void obj_write(std::ostream& o, const JsonObject& a) { o << a; }
inline void leaf_write(std::ostream& o, const JsonLeaf& a) { o << a; }
inline void list_write(std::ostream& o, const JsonList& a) { o << a; }
inline void dict_write(std::ostream& o, const JsonDict& a) { o << a; }
// reading
inline void item_read(std::istream& o, JsonItem& a) { o >> a; }
inline void leaf_read(std::istream& o, JsonLeaf& a) { o >> a; }
inline void list_read(std::istream& o, JsonList& a) { o >> a; }
inline void dict_read(std::istream& o, JsonDict& a) { o >> a; }
} }
