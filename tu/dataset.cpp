#include "data/dataset.hpp"
namespace EdgeLearning { namespace inst {
using DS = Dataset<double>; using SI = std::set<SizeType>;
inline void all(DS& d, const DS& c, DS::Vec v, DS::Mat m, DS::Cub q, SI s, SizeType n, NumType x, DatasetParser& p, DatasetParser::LabelEncoding e, RneType r) {
    DS a; DS b(v, n, n, s); DS f(m, n, s); DS g(q, s); DS h(c); a = b;
    d.sequence_size(n); c.sequence_size(); c.feature_size(); c.size(); c.empty(); d.data(); c.data(); c.entry(n); c.entry_seq(n); c.input_idx(); c.input(n); c.inputs(); c.inputs_seq(n);
    c.label_idx(); d.label_idx(s); c.label(n); c.labels(); c.labels_seq(n); c.subdata(n, n); d.subdata(x); d.split(x); d.shuffle(r); d.min_max_normalization(x, x, std::vector<SizeType>()); d.min_max_normalization();
    DS::parse(p, e, n); DS::concatenate(b, f, n); DLMath::unique_rand_sequence(n, n, r);
}
} }
namespace EdgeLearning { namespace drv {
using DS = Dataset<double>; using SI = std::set<SizeType>;
inline DS dataset_empty() { return DS(); }
inline DS dataset_vec(DS::Vec v, SizeType f, SizeType q, SI s) { return DS(v, f, q, s); }
inline DS dataset_mat(DS::Mat v, SizeType q, SI s) { return DS(v, q, s); }
inline DS dataset_cub(DS::Cub v, SI s) { return DS(v, s); }
} }
