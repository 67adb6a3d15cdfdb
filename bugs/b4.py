H = r'''
#include "parser/parser.hpp"
using namespace EdgeLearning; typedef std::vector<double> V; typedef std::set<SizeType> S; using LE = DatasetParser::LabelEncoding;
struct P : DatasetParser { std::vector<V> r; S l; P(std::vector<V> r_, S l_) : r(r_), l(l_) {} V entry(SizeType i) override { return r.at(i); } SizeType entries_amount() const override { return r.size(); } SizeType feature_size() const override { return r[0].size(); } S labels_idx() const override { return l; } };
'''
F = 'source/parser/parser.hpp'
def B(id, p, old, new, needs, breaks, demo): return dict(id=id, property=p, file=F, edits=[(old, new)] if isinstance(old, str) else list(zip(old, new)), needs=needs, breaks=breaks, demo=H + demo)
BUGS = [
B('c11-blocks', 'C11', '''                std::vector<NumType> ret(feature_size() * entries_amount());
                for (SizeType row_idx = 0; row_idx < entries_amount();
                     ++row_idx)
                {
                    auto row = entry(row_idx);''', '''                std::vector<NumType> ret(feature_size() * entries_amount());
                const SizeType block = 64;
                SizeType rows = entries_amount();
                if (rows > block) rows = (rows + block / 2) / block * block;
                rows = std::min(rows, entries_amount());
                for (SizeType row_idx = 0; row_idx < rows; ++row_idx)
                {
                    auto row = entry(row_idx);''', 'more than 64 entries, the last block less than half full', 'the entries of the last block are left zero',
  r'''int main() { std::vector<V> r; for (int i = 0; i < 70; ++i) r.push_back({i + 1.0, 2.0}); P p(r, {1}); V d = p.data_to_encoding(); for (int i = 0; i < 70; ++i) if (d[2 * i] != i + 1) return 1; return 0; }'''),
B('c12-offset', 'C12', '''                        auto label_value = row[label_indexes_vec[i]];

                        // Init the one hot label vector.
                        auto one_hot_size = one_hot_label_map.size();''', '''                        auto label_value = row[label_indexes_vec[i]];

                        // Init the one hot label vector.
                        auto one_hot_size = i + 1 < label_indexes_vec.size()
                            ? one_hot_label_maps.front().size()
                            : one_hot_label_map.size();''', 'at least three label columns with different numbers of values', 'the one hot vectors after the second label start at the wrong column',
  r'''int main() { P p({{0, 0, 0}, {1, 1, 1}, {1, 2, 0}}, {0, 1, 2}); V d = p.data_to_encoding(LE::ONE_HOT_ENCODING); return d != V{1, 0, 1, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 1, 0}; }'''),
B('c12-labels-first', 'C12', '''                SizeType trainset_idx_offset = feature_size() - labels_idx().size();
                for''', '''                auto label_indexes = labels_idx();
                SizeType trainset_idx_offset = feature_size() - label_indexes.size();
                if (!label_indexes.empty() && label_indexes.size() == 1)
                {
                    trainset_idx_offset = *label_indexes.begin();
                }
                for''', 'a single label column that is not the last one', 'input columns after the label are reported as labels',
  r'''int main() { P p({{0, 5, 6}, {1, 7, 8}}, {0}); return p.encoding_labels_idx(LE::ONE_HOT_ENCODING) != S{2, 3}; }'''),
B('c12-single-valued', 'C12', '''                    auto one_hot_label_map = unique(label_idx);
                    entry_size += one_hot_label_map.size();''', '''                    auto one_hot_label_map = unique(label_idx);
                    if (*one_hot_label_map.begin() != *one_hot_label_map.rbegin())
                    {
                        entry_size += one_hot_label_map.size();
                    }''', 'a label column holding one value only', 'the reported feature count misses a column the encoded data has',
  r'''int main() { P p({{4, 5}, {4, 7}}, {0}); return p.encoding_feature_size(LE::ONE_HOT_ENCODING) != 2; }'''),
B('c12-rank-wrap', 'C12', '''        SizeType i = 0;
        for (const auto& l: unique_set)
        {
            value_to_index[l] = i++;
        }''', '''        unsigned char i = 0;
        for (const auto& l: unique_set)
        {
            value_to_index[l] = i++;
        }''', 'a label column with more than 256 distinct values', 'the rank of the values wraps around',
  r'''int main() { std::vector<V> r; for (int i = 0; i < 300; ++i) r.push_back({(double)i}); P p(r, {0}); auto m = p.unique_map(0); for (int i = 0; i < 300; ++i) if (m.at(i) != (size_t)i) return 1; return 0; }'''),
]
