#include "parser/parser.hpp"
namespace EdgeLearning { namespace drv {
using LE = DatasetParser::LabelEncoding;
inline std::vector<NumType> data_plain(DatasetParser& p) { return p.data_to_encoding(); }
inline std::vector<NumType> data_default(DatasetParser& p) { return p.data_to_encoding(LE::DEFAULT_ENCODING); }
inline std::vector<NumType> data_one_hot(DatasetParser& p) { return p.data_to_encoding(LE::ONE_HOT_ENCODING); }
inline SizeType size_plain(DatasetParser& p) { return p.encoding_feature_size(); }
inline SizeType size_default(DatasetParser& p) { return p.encoding_feature_size(LE::DEFAULT_ENCODING); }
inline SizeType size_one_hot(DatasetParser& p) { return p.encoding_feature_size(LE::ONE_HOT_ENCODING); }
inline std::set<SizeType> labels_plain(DatasetParser& p) { return p.encoding_labels_idx(); }
inline std::set<SizeType> labels_default(DatasetParser& p) { return p.encoding_labels_idx(LE::DEFAULT_ENCODING); }
inline std::set<SizeType> labels_one_hot(DatasetParser& p) { return p.encoding_labels_idx(LE::ONE_HOT_ENCODING); }
} }
